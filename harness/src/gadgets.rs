//! One uniform handle on every gadget of the library: statement + witness, prove / verify through
//! the standalone entry points and as sub-protocols, which values were supplied by the user.
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::utils::hash_db::*;
use merlin::Transcript;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{PoseidonParams, SboxType};
pub type Db4 = InMemoryHashDb<DBVal_4_ary>;
pub type Db8 = InMemoryHashDb<DBVal_8_ary>;

/// (width, full beginning, full end, partial)
type PKey = (usize, usize, usize, usize);
static PARAMS: Mutex<BTreeMap<PKey, Arc<PoseidonParams>>> = Mutex::new(BTreeMap::new());
pub fn params(width: usize, fb: usize, fend: usize, p: usize) -> Arc<PoseidonParams> {
    let mut m = PARAMS.lock().unwrap_or_else(|e| e.into_inner());
    m.entry((width, fb, fend, p))
        .or_insert_with(|| Arc::new(PoseidonParams::new(width, fb, fend, p)))
        .clone()
}

#[derive(Clone)]
pub struct Rz {
    pub orig: Vec<(FE, FE)>,
    pub new: Vec<(FE, FE)>,
    pub idx: Vec<FE>,
    pub depth: usize,
    pub params: Arc<PoseidonParams>,
}

#[derive(Clone)]
pub enum Gd {
    NonZero { v: FE },
    Bound { v: u64, lo: u64, hi: u64, n: usize },
    Set { v: FE, set: Vec<FE> },
    SetAlt { v: u64, set: Vec<u64> },
    NonMember { v: FE, set: Vec<FE> },
    Mimc { inp: Vec<FE>, out: FE, consts: Arc<Vec<FE>>, rounds: usize },
    Poseidon { inp: Vec<FE>, out: FE, params: Arc<PoseidonParams>, sbox: SboxType },
    Merkle4 { leaf: FE, idx: FE, path: Vec<ProofNode_4_ary>, root: FE, depth: usize, params: Arc<PoseidonParams> },
    Merkle8 { leaf: FE, idx: FE, path: Vec<ProofNode_8_ary>, root: FE, depth: usize, params: Arc<PoseidonParams> },
    Hamming { orig: Vec<FE>, new: Vec<FE>, count: u64 },
    Randomizer(Rz),
    /// helper constraints used directly: [0, 2^n), a single bit
    Positive { v: FE, n: usize },
    Bit { v: FE },
}
pub const SB: SboxType = SboxType::Quint;

pub fn tree4<'a>(p: &'a PoseidonParams, depth: usize, c: &[(FE, FE)]) -> (VanillaSparseMerkleTree_4<'a>, Db4) {
    let mut db = Db4::new();
    let mut t = VanillaSparseMerkleTree_4::new(p, depth, &mut db);
    for (i, v) in c {
        t.update(i, v.clone(), &mut db).expect("update");
    }
    (t, db)
}
pub fn tree8<'a>(p: &'a PoseidonParams, depth: usize, c: &[(FE, FE)]) -> (VanillaSparseMerkleTree_8<'a>, Db8) {
    let mut db = Db8::new();
    let mut t = VanillaSparseMerkleTree_8::new(p, depth, &mut db);
    for (i, v) in c {
        t.update(i, v.clone(), &mut db).expect("update");
    }
    (t, db)
}
fn one<T: Clone>(r: &Option<Vec<T>>) -> Option<T> {
    r.as_ref().map(|v| v[0].clone())
}
pub type PR = Result<(R1CSProof, Vec<G1>), R1CSError>;

impl Gd {
    pub fn name(&self) -> String {
        match self {
            Gd::NonZero { .. } => "non_zero".into(),
            Gd::Bound { .. } => "bound".into(),
            Gd::Set { .. } => "set".into(),
            Gd::SetAlt { .. } => "set_alt".into(),
            Gd::NonMember { .. } => "non_member".into(),
            Gd::Mimc { .. } => "mimc".into(),
            Gd::Poseidon { params, sbox, .. } => format!("poseidon{}{:?}", params.width, sbox),
            Gd::Merkle4 { .. } => "merkle4".into(),
            Gd::Merkle8 { .. } => "merkle8".into(),
            Gd::Hamming { .. } => "hamming".into(),
            Gd::Randomizer(_) => "randomizer".into(),
            Gd::Positive { .. } => "positive".into(),
            Gd::Bit { .. } => "bit".into(),
        }
    }
    pub fn desc(&self) -> String {
        match self {
            Gd::NonZero { v } => format!("non_zero {}", shex(v)),
            Gd::Bound { v, lo, hi, n } => format!("bound {} in [{},{}] n={}", v, lo, hi, n),
            Gd::Set { v, set } => format!("{} in set of {}", shex(v), set.len()),
            Gd::SetAlt { v, set } => format!("{} in {:?}", v, &set[..set.len().min(8)]),
            Gd::NonMember { v, set } => format!("{} not in set of {}", shex(v), set.len()),
            Gd::Mimc { rounds, .. } => format!("mimc {} rounds", rounds),
            Gd::Poseidon { params: p, sbox, .. } => format!(
                "poseidon w={} {}+{}+{} {:?}", p.width, p.full_rounds_beginning, p.partial_rounds, p.full_rounds_end, sbox),
            Gd::Merkle4 { idx, depth, .. } => format!("merkle4 depth {} idx {}", depth, shex(idx)),
            Gd::Merkle8 { idx, depth, .. } => format!("merkle8 depth {} idx {}", depth, shex(idx)),
            Gd::Hamming { orig, count, .. } => format!("hamming len {} count {}", orig.len(), count),
            Gd::Randomizer(r) => format!("randomizer depth {} indices {}", r.depth, r.idx.len()),
            Gd::Positive { v, n } => format!("{} in [0,2^{})", shex(v), n),
            Gd::Bit { v } => format!("{} is a bit", shex(v)),
        }
    }
    /// how many values the user supplies randomness for; None when the gadget takes none
    pub fn rand_len(&self) -> Option<usize> {
        match self {
            Gd::Mimc { .. } => Some(2),
            Gd::Poseidon { inp, .. } => Some(inp.len()),
            Gd::Merkle4 { .. } | Gd::Merkle8 { .. } => Some(2),
            Gd::Hamming { .. } | Gd::Randomizer(_) => None,
            _ => Some(1),
        }
    }
    /// position in the commitments and value of everything user-supplied
    pub fn primaries(&self) -> Vec<(usize, FE)> {
        match self {
            Gd::NonZero { v } | Gd::Set { v, .. } | Gd::NonMember { v, .. } | Gd::Positive { v, .. } | Gd::Bit { v } => {
                vec![(0, v.clone())]
            }
            Gd::Bound { v, .. } => vec![(0, fe(*v))],
            Gd::SetAlt { v, set } => vec![(set.len(), fe(*v))],
            Gd::Mimc { inp, .. } | Gd::Poseidon { inp, .. } => inp.iter().cloned().enumerate().collect(),
            Gd::Merkle4 { leaf, idx, .. } | Gd::Merkle8 { leaf, idx, .. } => vec![(0, leaf.clone()), (1, idx.clone())],
            Gd::Hamming { orig, .. } => orig.iter().cloned().enumerate().collect(),
            Gd::Randomizer(_) => vec![],
        }
    }
    /// expected number of commitments handed to the verifier
    pub fn comms_len(&self) -> usize {
        match self {
            Gd::NonZero { .. } => 2,
            Gd::Bound { .. } => 3,
            Gd::Set { set, .. } => 1 + set.len(),
            Gd::SetAlt { set, .. } => 1 + set.len(),
            Gd::NonMember { set, .. } => 1 + 2 * set.len(),
            Gd::Mimc { .. } => 2,
            Gd::Poseidon { inp, .. } => inp.len(),
            Gd::Merkle4 { depth, .. } => 2 + 3 * depth,
            Gd::Merkle8 { depth, .. } => 2 + 7 * depth,
            Gd::Hamming { orig, .. } => orig.len(),
            Gd::Randomizer(r) => 1 + r.idx.len() * (1 + 3 * r.depth),
            Gd::Positive { .. } | Gd::Bit { .. } => 1,
        }
    }
    pub fn prove(&self, rand: Option<Vec<FE>>, rng: Option<&mut Rng>, label: &'static [u8], gn: &Gens) -> PR {
        let (g, h, G, H) = (&gn.g, &gn.h, &gn.G, &gn.H);
        match self {
            Gd::NonZero { v } => gen_proof_of_non_zero_val(v.clone(), one(&rand), rng, label, g, h, G, H),
            Gd::Bound { v, lo, hi, n } => gen_proof_of_bounded_num(*v, one(&rand), *lo, *hi, *n, rng, label, g, h, G, H),
            Gd::Set { v, set } => gen_proof_of_set_membership(v.clone(), one(&rand), set, rng, label, g, h, G, H),
            Gd::SetAlt { v, set } => gen_proof_of_set_membership_alt(*v, one(&rand), set, rng, label, g, h, G, H),
            Gd::NonMember { v, set } => gen_proof_of_set_non_membership(v.clone(), one(&rand), set, rng, label, g, h, G, H),
            Gd::Mimc { inp, out, consts, rounds } => gen_proof_of_knowledge_of_preimage_of_mimc(
                inp.clone(), rand, out, consts, *rounds, rng, label, g, h, G, H),
            Gd::Poseidon { inp, out, params, sbox } => match params.width {
                3 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(inp.clone(), rand, out, params, sbox, rng, label, g, h, G, H),
                5 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(inp.clone(), rand, out, params, sbox, rng, label, g, h, G, H),
                _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(inp.clone(), rand, out, params, sbox, rng, label, g, h, G, H),
            },
            Gd::Merkle4 { leaf, idx, path, root, depth, params } => gen_proof_of_leaf_inclusion_4_ary_merkle_tree(
                leaf.clone(), idx.clone(), rand, path.clone(), root, *depth, params, &SB, rng, label, g, h, G, H),
            Gd::Merkle8 { leaf, idx, path, root, depth, params } => gen_proof_of_leaf_inclusion_8_ary_merkle_tree(
                leaf.clone(), idx.clone(), rand, path.clone(), root, *depth, params, &SB, rng, label, g, h, G, H),
            Gd::Hamming { orig, new, count } => gen_proof_for_hamming_distance(orig, new, *count, label, g, h, G, H),
            Gd::Randomizer(r) => {
                let (t, db) = tree4(&r.params, r.depth, &r.orig);
                let (mut nt, mut ndb) = tree4(&r.params, r.depth, &r.new);
                let vals: Vec<FE> = r.idx.iter().map(|i| t.get(i, &mut None, &db).expect("get")).collect();
                gen_proof_for_randomizer(&t, &db, &mut nt, &mut ndb, &r.idx, &vals, r.depth, &r.params, &SB, label, g, h, G, H)
            }
            Gd::Positive { .. } | Gd::Bit { .. } => {
                let mut tr = Transcript::new(label);
                let mut p = Prover::new(g, h, &mut tr);
                let c = self.prove_into(rand, rng, &mut p)?;
                Ok((p.prove(G, H)?, c))
            }
        }
    }
    pub fn verify(&self, proof: &R1CSProof, comms: &[G1], label: &'static [u8], gn: &Gens) -> Result<(), R1CSError> {
        let (g, h, G, H) = (&gn.g, &gn.h, &gn.G, &gn.H);
        let p: R1CSProof = jp(&pj(proof));
        let c = comms.to_vec();
        match self {
            Gd::NonZero { .. } => verify_proof_of_non_zero_val(p, c, label, g, h, G, H),
            Gd::Bound { lo, hi, n, .. } => verify_proof_of_bounded_num(*lo, *hi, *n, p, c, label, g, h, G, H),
            Gd::Set { set, .. } => verify_proof_of_set_membership(set, p, c, label, g, h, G, H),
            Gd::SetAlt { set, .. } => verify_proof_of_set_membership_alt(set, p, c, label, g, h, G, H),
            Gd::NonMember { set, .. } => verify_proof_of_set_non_membership(set, p, c, label, g, h, G, H),
            Gd::Mimc { out, consts, rounds, .. } => verify_knowledge_of_preimage_of_mimc(out, consts, *rounds, p, c, label, g, h, G, H),
            Gd::Poseidon { out, params, sbox, .. } => match params.width {
                3 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(out, params, sbox, p, c, label, g, h, G, H),
                5 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(out, params, sbox, p, c, label, g, h, G, H),
                _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(out, params, sbox, p, c, label, g, h, G, H),
            },
            Gd::Merkle4 { root, depth, params, .. } => verify_proof_of_leaf_inclusion_4_ary_merkle_tree(root, *depth, params, &SB, p, c, label, g, h, G, H),
            Gd::Merkle8 { root, depth, params, .. } => verify_proof_of_leaf_inclusion_8_ary_merkle_tree(root, *depth, params, &SB, p, c, label, g, h, G, H),
            Gd::Hamming { new, count, .. } => verify_proof_for_hamming_distance(new, *count, p, c, label, g, h, G, H),
            Gd::Randomizer(r) => {
                let (mut nt, mut ndb) = tree4(&r.params, r.depth, &r.new);
                verify_proof_for_randomizer(&mut nt, &mut ndb, &r.idx, r.depth, &r.params, &SB, p, c, label, g, h, G, H)
            }
            Gd::Positive { .. } | Gd::Bit { .. } => {
                let mut tr = Transcript::new(label);
                let mut v = Verifier::new(&mut tr);
                self.verify_into(comms, gn, &mut v)?;
                v.verify(&p, g, h, G, H)
            }
        }
    }
    pub fn prove_into(&self, rand: Option<Vec<FE>>, rng: Option<&mut Rng>, p: &mut Prover) -> Result<Vec<G1>, R1CSError> {
        match self {
            Gd::NonZero { v } => prove_non_zero_val(v.clone(), one(&rand), rng, p),
            Gd::Bound { v, lo, hi, n } => prove_bounded_num(*v, one(&rand), *lo, *hi, *n, rng, p),
            Gd::Set { v, set } => prove_set_membership(v.clone(), one(&rand), set, rng, p),
            Gd::SetAlt { v, set } => prove_set_membership_alt(*v, one(&rand), set, rng, p),
            Gd::NonMember { v, set } => prove_set_non_membership(v.clone(), one(&rand), set, rng, p),
            Gd::Mimc { inp, out, consts, rounds } => prove_mimc_preimage(inp.clone(), rand, out, consts, *rounds, rng, p),
            Gd::Poseidon { inp, out, params, sbox } => match params.width {
                3 => prove_knowledge_of_preimage_of_Poseidon_2(inp.clone(), rand, out, params, sbox, rng, p),
                5 => prove_knowledge_of_preimage_of_Poseidon_4(inp.clone(), rand, out, params, sbox, rng, p),
                _ => prove_knowledge_of_preimage_of_Poseidon_8(inp.clone(), rand, out, params, sbox, rng, p),
            },
            Gd::Merkle4 { leaf, idx, path, root, depth, params } => prove_leaf_inclusion_4_ary_merkle_tree(
                leaf.clone(), idx.clone(), rand, path.clone(), root, *depth, params, &SB, rng, p),
            Gd::Merkle8 { leaf, idx, path, root, depth, params } => prove_leaf_inclusion_8_ary_merkle_tree(
                leaf.clone(), idx.clone(), rand, path.clone(), root, *depth, params, &SB, rng, p),
            Gd::Hamming { orig, new, count } => prove_hamming_distance(orig, new, *count, p),
            Gd::Randomizer(r) => {
                let (t, db) = tree4(&r.params, r.depth, &r.orig);
                let (mut nt, mut ndb) = tree4(&r.params, r.depth, &r.new);
                let mut comms = vec![];
                let (c, root) = p.commit(t.root.clone(), FE::random());
                comms.push(c);
                let (mut vals, mut proofs) = (vec![], vec![]);
                for i in &r.idx {
                    let mut pr = Some(vec![]);
                    let v = t.get(i, &mut pr, &db)?;
                    let (c, var) = p.commit(v, FE::random());
                    comms.push(c);
                    vals.push(var);
                    let mut ps = vec![];
                    for n in pr.unwrap() {
                        for x in n.iter() {
                            let (c, var) = p.commit(x.clone(), FE::random());
                            comms.push(c);
                            ps.push(var);
                        }
                    }
                    proofs.push(ps);
                }
                let st = allocate_statics_for_prover(p, 1);
                randomizer_gadget(p, r.depth, root, &mut nt, &mut ndb, r.idx.clone(), vals, proofs, st, &r.params, &SB)?;
                Ok(comms)
            }
            Gd::Positive { v, n } => {
                let (c, variable) = p.commit(v.clone(), one(&rand).unwrap_or_else(|| FE::random()));
                positive_no_gadget(p, AllocatedQuantity { variable, assignment: Some(v.clone()) }, *n)?;
                Ok(vec![c])
            }
            Gd::Bit { v } => {
                let (c, variable) = p.commit(v.clone(), one(&rand).unwrap_or_else(|| FE::random()));
                bit_gadget(p, &AllocatedQuantity { variable, assignment: Some(v.clone()) })?;
                Ok(vec![c])
            }
        }
    }
    pub fn verify_into(&self, comms: &[G1], gn: &Gens, v: &mut Verifier) -> Result<(), R1CSError> {
        let c = comms.to_vec();
        let (g, h) = (&gn.g, &gn.h);
        match self {
            Gd::NonZero { .. } => verify_non_zero_val(c, v),
            Gd::Bound { lo, hi, n, .. } => verify_bounded_num(*lo, *hi, *n, c, v),
            Gd::Set { set, .. } => verify_set_membership(set, c, v),
            Gd::SetAlt { set, .. } => verify_set_membership_alt(set, c, v),
            Gd::NonMember { set, .. } => verify_set_non_membership(set, c, v),
            Gd::Mimc { out, consts, rounds, .. } => verify_mimc_preimage(out, consts, *rounds, c, v),
            Gd::Poseidon { out, params, sbox, .. } => match params.width {
                3 => verify_knowledge_of_preimage_of_Poseidon_2(out, params, sbox, c, g, h, v),
                5 => verify_knowledge_of_preimage_of_Poseidon_4(out, params, sbox, c, g, h, v),
                _ => verify_knowledge_of_preimage_of_Poseidon_8(out, params, sbox, c, g, h, v),
            },
            Gd::Merkle4 { root, depth, params, .. } => verify_leaf_inclusion_4_ary_merkle_tree(root, *depth, params, &SB, c, g, h, v),
            Gd::Merkle8 { root, depth, params, .. } => verify_leaf_inclusion_8_ary_merkle_tree(root, *depth, params, &SB, c, g, h, v),
            Gd::Hamming { new, count, .. } => verify_hamming_distance(new, *count, c, v),
            Gd::Randomizer(r) => {
                let (mut nt, mut ndb) = tree4(&r.params, r.depth, &r.new);
                let mut it = c.into_iter();
                let mut nx = || it.next().ok_or(R1CSError::FormatError);
                let root = v.commit(nx()?);
                let (mut vals, mut proofs) = (vec![], vec![]);
                for _ in &r.idx {
                    vals.push(v.commit(nx()?));
                    let mut ps = vec![];
                    for _ in 0..3 * r.depth {
                        ps.push(v.commit(nx()?));
                    }
                    proofs.push(ps);
                }
                let st = allocate_statics_for_verifier(v, 1, g, h);
                randomizer_gadget(v, r.depth, root, &mut nt, &mut ndb, r.idx.clone(), vals, proofs, st, &r.params, &SB)
            }
            Gd::Positive { n, .. } => {
                let variable = v.commit(c.get(0).cloned().ok_or(R1CSError::FormatError)?);
                positive_no_gadget(v, AllocatedQuantity { variable, assignment: None }, *n)
            }
            Gd::Bit { .. } => {
                let variable = v.commit(c.get(0).cloned().ok_or(R1CSError::FormatError)?);
                bit_gadget(v, &AllocatedQuantity { variable, assignment: None })
            }
        }
    }
    /// padded number of gates (by running the prover side)
    pub fn size(&self) -> usize {
        let gn = gens(1);
        let mut tr = Transcript::new(b"size");
        let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
        let mut rng = Rng::new(3);
        let _ = self.prove_into(None, Some(&mut rng), &mut p);
        pow2(p.num_multipliers())
    }
    /// randomness of the right length
    pub fn rnd(&self, r: &mut Rng) -> Option<Vec<FE>> {
        self.rand_len().map(|n| (0..n).map(|_| r.fe()).collect())
    }
}

// -----------------------------------------------------------------------------------------------
// true statements

/// independent native Poseidon permutation
pub fn ref_poseidon(inp: &[FE], p: &PoseidonParams, sb: &SboxType) -> Vec<FE> {
    let w = p.width;
    let mut s = inp.to_vec();
    let sbox = |x: &FE| match sb {
        SboxType::Cube => fe_pow(x, 3),
        SboxType::Quint => fe_pow(x, 5),
        SboxType::Inverse => {
            if x.is_zero() {
                FE::zero()
            } else {
                // x^(r-2)
                let e = (&FE::minus_one() - &FE::one()).to_bytes(); // r-2
                fe_pow_bytes(x, &e)
            }
        }
    };
    let total = p.full_rounds_beginning + p.partial_rounds + p.full_rounds_end;
    for r in 0..total {
        for i in 0..w {
            s[i] = &s[i] + &p.round_keys[r * w + i];
        }
        let full = r < p.full_rounds_beginning || r >= p.full_rounds_beginning + p.partial_rounds;
        if full {
            for i in 0..w {
                s[i] = sbox(&s[i]);
            }
        } else {
            s[w - 1] = sbox(&s[w - 1]);
        }
        let mut n = vec![FE::zero(); w];
        for i in 0..w {
            for j in 0..w {
                n[i] = &n[i] + &(&s[j] * &p.MDS_matrix[j][i]);
            }
        }
        s = n;
    }
    s
}
pub fn ref_hash(inp: &[FE], p: &PoseidonParams, sb: &SboxType) -> FE {
    let mut v = vec![FE::zero()];
    v.extend_from_slice(inp);
    ref_poseidon(&v, p, sb)[1].clone()
}
pub fn lib_hash(inp: &[FE], p: &PoseidonParams, sb: &SboxType) -> FE {
    match p.width {
        3 => Poseidon_hash_2(inp[0].clone(), inp[1].clone(), p, sb),
        5 => Poseidon_hash_4(inp.to_vec(), p, sb),
        _ => Poseidon_hash_8(inp.to_vec(), p, sb),
    }
}
pub fn lib_mimc(inp: &[FE], c: &[FE], rounds: usize) -> FE {
    mimc(&inp[0], &inp[1], c, rounds)
}
pub fn ref_mimc(inp: &[FE], c: &[FE], rounds: usize) -> FE {
    let (mut l, mut r) = (inp[0].clone(), inp[1].clone());
    for i in 0..rounds {
        let t = &fe_pow(&(&l + &c[i]), 3) + &r;
        r = l;
        l = t;
    }
    l
}
/// native Merkle root from the definition, over a map of contents (indices taken mod arity^depth)
pub fn ref_root(c: &BTreeMap<u64, FE>, arity: u64, depth: usize, p: &PoseidonParams) -> FE {
    let mut empty = vec![FE::zero()];
    for d in 0..depth {
        let e = empty[d].clone();
        empty.push(ref_hash(&vec![e; arity as usize], p, &SB));
    }
    let mut level: BTreeMap<u64, FE> = c.clone();
    for d in 0..depth {
        let mut up: BTreeMap<u64, Vec<FE>> = BTreeMap::new();
        for (i, v) in level {
            let e = up.entry(i / arity).or_insert_with(|| vec![empty[d].clone(); arity as usize]);
            e[(i % arity) as usize] = v;
        }
        level = up.into_iter().map(|(i, v)| (i, ref_hash(&v, p, &SB))).collect();
    }
    level.get(&0).cloned().unwrap_or(empty[depth].clone())
}

pub const KINDS: usize = 11;
/// a random true statement of the given kind; `size` scales it
pub fn gen(r: &mut Rng, kind: usize, size: usize) -> Gd {
    match kind {
        0 => Gd::NonZero { v: r.fe_mixed_nonzero() },
        1 => {
            let (a, b) = (r.u64_mixed(), r.u64_mixed());
            let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
            // narrow the interval so that it fits few bits, mostly
            let bits = r.range(1, 4 + 4 * size.min(15));
            let hi = if hi - lo >= (1u64 << bits.min(63)) { lo + (r.next() % (1u64 << bits.min(63))) } else { hi };
            let span = hi - lo;
            let need = (64 - span.leading_zeros() as usize).max(1);
            let n = need + if r.chance(1, 3) { r.range(0, 3) } else { 0 };
            let v = match r.below(4) {
                0 => lo,
                1 => hi,
                _ => lo + if span == u64::max_value() { r.next() } else { r.next() % (span + 1) },
            };
            Gd::Bound { v, lo, hi, n: n.min(64) }
        }
        2 => {
            let n = r.range(1, 1 + size * 3);
            let set: Vec<FE> = (0..n).map(|_| r.fe_mixed()).collect();
            Gd::Set { v: r.pick(&set).clone(), set }
        }
        3 => {
            let n = r.range(1, 1 + size * 3);
            let mut set: Vec<u64> = vec![];
            while set.len() < n {
                let x = if r.chance(1, 2) { r.u64_mixed() } else { r.next() % 64 };
                if !set.contains(&x) {
                    set.push(x);
                }
            }
            Gd::SetAlt { v: *r.pick(&set), set }
        }
        4 => {
            let n = r.range(1, 1 + size * 2);
            let set: Vec<FE> = (0..n).map(|_| r.fe_mixed()).collect();
            loop {
                let v = r.fe_mixed();
                if !set.contains(&v) {
                    return Gd::NonMember { v, set };
                }
            }
        }
        5 => {
            let rounds = r.range(1, 3 + size * 8);
            let consts: Vec<FE> = (0..rounds + r.below(2)).map(|_| r.fe()).collect();
            let inp = vec![r.fe_mixed(), r.fe_mixed()];
            let out = ref_mimc(&inp, &consts, rounds);
            Gd::Mimc { inp, out, consts: Arc::new(consts), rounds }
        }
        6 => {
            let w = *r.pick(&[3, 5, 9]);
            let sbox = *r.pick(&[SboxType::Cube, SboxType::Inverse, SboxType::Quint]);
            let p = params(w, r.range(0, 1 + size), r.range(1, 1 + size), r.range(0, 2 * size));
            gen_poseidon(r, p, sbox)
        }
        7 => {
            let d = r.range(1, 1 + size);
            let p = params(5, r.range(0, 1), 1, r.range(0, 1));
            let (idx, cont) = contents(r, 4, d, size);
            let (t, db) = tree4(&p, d, &cont);
            let mut pr = Some(vec![]);
            let leaf = t.get(&idx, &mut pr, &db).expect("get");
            let root = t.root.clone();
            Gd::Merkle4 { leaf, idx, path: pr.unwrap(), root, depth: d, params: p }
        }
        8 => {
            let d = r.range(1, 1 + size);
            let p = params(9, r.range(0, 1), 1, r.range(0, 1));
            let (idx, cont) = contents(r, 8, d, size);
            let (t, db) = tree8(&p, d, &cont);
            let mut pr = Some(vec![]);
            let leaf = t.get(&idx, &mut pr, &db).expect("get");
            let root = t.root.clone();
            Gd::Merkle8 { leaf, idx, path: pr.unwrap(), root, depth: d, params: p }
        }
        9 => {
            let n = r.range(1, 1 + size * 3);
            let orig: Vec<FE> = (0..n).map(|_| r.fe_mixed()).collect();
            let new: Vec<FE> = orig.iter().map(|x| if r.chance(1, 2) { x.clone() } else { r.fe_mixed() }).collect();
            let count = orig.iter().zip(new.iter()).filter(|(a, b)| a != b).count() as u64;
            Gd::Hamming { orig, new, count }
        }
        _ => {
            let d = r.range(1, size.max(1));
            let p = params(5, r.range(0, 1), 1, 0);
            let n = 4u64.pow(d as u32);
            let mut orig = vec![];
            for i in 0..n {
                if r.chance(2, 3) {
                    orig.push((fe(i), r.fe_mixed()));
                }
            }
            let mut idx: Vec<u64> = (0..n).collect();
            r.shuffle(&mut idx);
            idx.truncate(r.range(1, 2));
            let mut new = orig.clone();
            for i in &idx {
                new.push((fe(*i), r.fe()));
            }
            Gd::Randomizer(Rz { orig, new, idx: idx.into_iter().map(fe).collect(), depth: d, params: p })
        }
    }
}
pub fn gen_poseidon(r: &mut Rng, p: Arc<PoseidonParams>, sbox: SboxType) -> Gd {
    let inp: Vec<FE> = (0..p.width - 1).map(|_| if r.chance(1, 3) { r.fe_mixed() } else { r.fe() }).collect();
    let out = ref_hash(&inp, &p, &sbox);
    Gd::Poseidon { inp, out, params: p, sbox }
}
fn contents(r: &mut Rng, arity: u64, d: usize, size: usize) -> (FE, Vec<(FE, FE)>) {
    let n = arity.pow(d as u32);
    let idx = match r.below(4) {
        0 => 0,
        1 => n - 1,
        _ => r.next() % n,
    };
    let mut c = vec![];
    for _ in 0..r.range(1, 2 + size) {
        c.push((fe(r.next() % n), r.fe()));
    }
    if r.chance(3, 4) {
        c.push((fe(idx), r.fe_mixed()));
    }
    (fe(idx), c)
}

// -----------------------------------------------------------------------------------------------
// shared judgements

use crate::runner::*;
/// A true statement: proved through the standalone entry point (or as sub-protocol) and accepted.
pub fn honest(ctx: &mut Ctx, gd: &Gd, sig: &str) -> Option<(R1CSProof, Vec<G1>, Gens)> {
    let gn = gens(gd.size());
    let mut r = ctx.rng.fork();
    let label: &'static [u8] = b"honest";
    let d = gd.desc();
    let mode = r.below(3);
    let res = match mode {
        0 => guard(|| gd.prove(None, Some(&mut r), label, &gn)),
        1 => {
            let rnd = gd.rnd(&mut r);
            guard(|| gd.prove(rnd, None, label, &gn))
        }
        _ => {
            let rnd = gd.rnd(&mut r);
            guard(|| {
                let mut tr = Transcript::new(label);
                let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
                let c = gd.prove_into(rnd, None, &mut p)?;
                Ok((p.prove(&gn.G, &gn.H)?, c))
            })
        }
    };
    ctx.count(&format!("honest_{}", gd.name()), 1);
    let (proof, comms) = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            ctx.check(false, sig, &|| format!("no proof for the true statement {}: {:?}", d, e));
            return None;
        }
        Err(p) => {
            ctx.check(false, sig, &|| format!("proving the true statement {} panicked: {}", d, p));
            return None;
        }
    };
    let v = guard(|| gd.verify(&proof, &comms, label, &gn));
    let ok = ctx.check(v == Ok(Ok(())), sig, &|| format!("proof of the true statement {} (mode {}): {:?}", d, mode, v));
    if ok {
        Some((proof, comms, gn))
    } else {
        None
    }
}
/// `claim` is false for the values in `wit`: whatever the library's prover makes of `wit` must be
/// rejected by the verifier of `claim`.
pub fn false_claim(ctx: &mut Ctx, wit: &Gd, claim: &Gd, sig: &str) {
    let gn = gens(guard(|| wit.size()).unwrap_or(64).max(guard(|| claim.size()).unwrap_or(64)));
    let mut r = ctx.rng.fork();
    let rnd = wit.rnd(&mut r);
    let res = guard(|| {
        // the sub-protocol entry point does not check anything itself
        let mut tr = Transcript::new(b"false");
        let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
        let c = wit.prove_into(rnd, None, &mut p)?;
        Ok::<_, R1CSError>((p.prove(&gn.G, &gn.H)?, c))
    });
    let (proof, comms) = match res {
        Ok(Ok(x)) => x,
        _ => {
            // refusing to prove is fine
            ctx.count("false_refused_by_prover", 1);
            ctx.check_trivial(true, sig, &|| String::new());
            return;
        }
    };
    let v = guard(|| claim.verify(&proof, &comms, b"false", &gn));
    ctx.count("false_claims_verified", 1);
    let d = claim.desc();
    ctx.check(match &v { Ok(Ok(())) => false, _ => true }, sig, &|| format!("accepted although false: {}", d));
}
