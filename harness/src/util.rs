//! Shared helpers: deterministic randomness, field/group helpers that do not go through the code
//! under test, generators, JSON-level proof surgery.
use amcl_wrapper::commitment::commit_to_field_element;
use amcl_wrapper::constants::MODBYTES;
pub use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
pub use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
pub use amcl_wrapper::group_elem_g1::{G1Vector, G1};
pub use bulletproofs_amcl::errors::R1CSError;
pub use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, Prover, R1CSProof, RandomizedConstraintSystem, Variable,
    Verifier,
};
use rand::{CryptoRng, RngCore};
use serde_json::Value;
use std::sync::Mutex;

pub type FE = FieldElement;
pub const SIM: bool = cfg!(vp_sim);
pub const HOOKS: bool = cfg!(vp_hooks);

/// SplitMix64: the only source of choices made by the harness.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % (n as u64)) as usize
        }
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a u64 with interesting magnitudes
    pub fn u64_mixed(&mut self) -> u64 {
        let bits = self.range(0, 64);
        let x = self.next();
        let x = if bits == 0 { 0 } else { x >> (64 - bits) };
        match self.below(6) {
            0 => x.wrapping_sub(1),
            1 => {
                if bits == 64 {
                    u64::max_value()
                } else {
                    1u64 << bits
                }
            }
            _ => x,
        }
    }
    pub fn fe(&mut self) -> FE {
        let mut b = [0u8; MODBYTES];
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
        FE::from(&b)
    }
    pub fn fe_nonzero(&mut self) -> FE {
        loop {
            let f = self.fe();
            if !f.is_zero() {
                return f;
            }
        }
    }
    /// zero, one, minus one, powers of two, small, u64-sized, full-size
    pub fn fe_mixed(&mut self) -> FE {
        match self.below(9) {
            0 => FE::zero(),
            1 => FE::one(),
            2 => FE::minus_one(),
            3 => fe(self.next() % 16),
            4 => fe(self.u64_mixed()),
            5 => fe(self.u64_mixed()).negation(),
            _ => self.fe(),
        }
    }
    pub fn fe_mixed_nonzero(&mut self) -> FE {
        loop {
            let f = self.fe_mixed();
            if !f.is_zero() {
                return f;
            }
        }
    }
    pub fn g1(&mut self) -> G1 {
        G1::from_msg_hash(format!("rand{:016x}{:016x}", self.next(), self.next()).as_bytes())
    }
}
// so that it can be handed to the library as the caller's RNG
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}

/// Field element from an integer, through bytes (independent of the library's conversions).
pub fn fe(x: u64) -> FE {
    let mut b = [0u8; MODBYTES];
    b[MODBYTES - 8..].copy_from_slice(&x.to_be_bytes());
    FE::from(&b)
}
pub fn fe_pow2(k: usize) -> FE {
    let mut b = [0u8; MODBYTES];
    b[MODBYTES - 1 - k / 8] = 1 << (k % 8);
    FE::from(&b)
}
pub fn fe_pow(b: &FE, mut e: u64) -> FE {
    let mut acc = FE::one();
    let mut base = b.clone();
    while e > 0 {
        if e & 1 == 1 {
            acc = &acc * &base;
        }
        base = &base * &base;
        e >>= 1;
    }
    acc
}
pub fn hex(f: &FE) -> String {
    f.to_bytes().iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn shex(f: &FE) -> String {
    let s = hex(f);
    let t = s.trim_start_matches('0');
    if t.is_empty() {
        "0".into()
    } else if t.len() > 16 {
        format!("{}..", &t[..12])
    } else {
        t.into()
    }
}
pub fn fev(v: &[FE]) -> FieldElementVector {
    v.to_vec().into()
}

/// (r-1) as big-endian bytes of the group order minus one
pub fn order_minus_one_bytes() -> Vec<u8> {
    FE::minus_one().to_bytes()
}
/// base^exp with a big-endian byte exponent
pub fn fe_pow_bytes(base: &FE, exp: &[u8]) -> FE {
    let mut acc = FE::one();
    for byte in exp {
        for i in (0..8).rev() {
            acc = &acc * &acc;
            if (byte >> i) & 1 == 1 {
                acc = &acc * base;
            }
        }
    }
    acc
}
/// big-endian bytes divided by small number
pub fn bytes_div(b: &[u8], d: u32) -> (Vec<u8>, u32) {
    let mut rem = 0u32;
    let mut out = vec![];
    for x in b {
        let cur = rem * 256 + *x as u32;
        out.push((cur / d) as u8);
        rem = cur % d;
    }
    (out, rem)
}
/// Square root by Tonelli-Shanks; None for non-residues.
pub fn fe_sqrt(a: &FE) -> Option<FE> {
    if a.is_zero() {
        return Some(FE::zero());
    }
    // r-1 = 2^s * t
    let mut t = order_minus_one_bytes();
    let mut s = 0;
    loop {
        let (q, r) = bytes_div(&t, 2);
        if r != 0 {
            break;
        }
        t = q;
        s += 1;
    }
    let half = bytes_div(&order_minus_one_bytes(), 2).0;
    if fe_pow_bytes(a, &half) != FE::one() {
        return None;
    }
    let mut g = fe(2);
    while fe_pow_bytes(&g, &half) == FE::one() {
        g = &g + &FE::one();
    }
    let mut c = fe_pow_bytes(&g, &t);
    let mut tt = fe_pow_bytes(a, &t);
    // r = a^((t+1)/2)
    let t_half = bytes_div(&t, 2).0; // (t-1)/2
    let mut r = &fe_pow_bytes(a, &t_half) * a;
    let mut m = s;
    while tt != FE::one() {
        let mut i = 0;
        let mut x = tt.clone();
        while x != FE::one() {
            x = &x * &x;
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..(m - i - 1) {
            b = &b * &b;
        }
        m = i;
        c = &b * &b;
        tt = &tt * &c;
        r = &r * &b;
    }
    Some(r)
}

// ---------------------------------------------------------------------------------------------
// generators
#[derive(Clone)]
pub struct Gens {
    pub g: G1,
    pub h: G1,
    pub G: G1Vector,
    pub H: G1Vector,
}
static GENS: Mutex<Option<(Vec<G1>, Vec<G1>)>> = Mutex::new(None);

pub fn vec_from(v: &[G1]) -> G1Vector {
    v.to_vec().into()
}
/// g, h and n generators each in G and H, independent of the library's generator function.
pub fn gens(n: usize) -> Gens {
    let mut lock = GENS.lock().unwrap_or_else(|e| e.into_inner());
    if lock.is_none() {
        *lock = Some((vec![], vec![]));
    }
    let c = lock.as_mut().unwrap();
    while c.0.len() < n {
        let i = c.0.len();
        c.0.push(G1::from_msg_hash(format!("vpG/{}", i).as_bytes()));
        c.1.push(G1::from_msg_hash(format!("vpH/{}", i).as_bytes()));
    }
    Gens {
        g: G1::from_msg_hash(b"vp g"),
        h: G1::from_msg_hash(b"vp h"),
        G: vec_from(&c.0[..n]),
        H: vec_from(&c.1[..n]),
    }
}
pub fn pedersen(gn: &Gens, v: &FE, r: &FE) -> G1 {
    // computed here from group operations only
    &(&gn.g * v) + &(&gn.h * r)
}
#[allow(dead_code)]
pub fn pedersen_lib(gn: &Gens, v: &FE, r: &FE) -> G1 {
    commit_to_field_element(&gn.g, &gn.h, v, r)
}
pub fn pow2(n: usize) -> usize {
    n.next_power_of_two()
}

// ---------------------------------------------------------------------------------------------
// proofs as JSON
pub const POINTS: [&str; 11] = [
    "A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6",
];
pub const SCALARS: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];

pub fn pj(p: &R1CSProof) -> Value {
    serde_json::to_value(p).expect("proof serializes")
}
pub fn jp(v: &Value) -> R1CSProof {
    serde_json::from_value(v.clone()).expect("proof deserializes")
}
pub fn ptext(p: &R1CSProof) -> String {
    serde_json::to_string(p).expect("proof serializes")
}
pub fn g1_json(p: &G1) -> Value {
    serde_json::to_value(p).unwrap()
}
pub fn json_g1(v: &Value) -> G1 {
    serde_json::from_value(v.clone()).unwrap()
}
pub fn fe_json(p: &FE) -> Value {
    serde_json::to_value(p).unwrap()
}
pub fn json_fe(v: &Value) -> FE {
    serde_json::from_value(v.clone()).unwrap()
}
/// Number of inner-product rounds in the proof
pub fn rounds(v: &Value) -> usize {
    lr(v, "L").len()
}
pub fn lr<'a>(v: &'a Value, which: &str) -> &'a Vec<Value> {
    v["ipp_proof"][which]["elems"].as_array().expect("ipp vector")
}
pub fn lr_mut<'a>(v: &'a mut Value, which: &str) -> &'a mut Vec<Value> {
    v["ipp_proof"][which]["elems"]
        .as_array_mut()
        .expect("ipp vector")
}

