//! C21: proving, verifying and the trees are isolated from one another: same inputs and same
//! randomness give the same proof and verdicts, whatever else the process did or is doing.
//!
//! The reference for every unit of work is what a fresh process that does nothing else gives
//! (run twice: where two fresh processes already differ, the randomness is not under control and
//! only the deterministic part - verdicts, roots, hashes, commitments - is compared).
use crate::gadgets::*;
use crate::prog::*;
use crate::runner::*;
use crate::util::*;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use merlin::Transcript;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Barrier, Mutex};

/// families of work: gadgets 0..KINDS, then these
const PROG: usize = KINDS;
const PROG2: usize = KINDS + 1;
const IPPK: usize = KINDS + 2;
const TREE4: usize = KINDS + 3;
const TREE8: usize = KINDS + 4;
const HASH: usize = KINDS + 5;
const HELP: usize = KINDS + 6;
const FAMILIES: usize = KINDS + 7;
/// 0 the unit itself; 1 other generators of the same lengths; 2 other label; 3 other randomness;
/// 4 other values of the same shape; 5 other values, label and generators
const TWISTS: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Unit {
    base: u64,
    family: usize,
    twist: usize,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out {
    /// everything, including the proof
    full: String,
    /// what does not depend on fresh randomness
    det: String,
}

fn fe_all(v: &[FE]) -> String {
    v.iter().map(hex).collect::<Vec<_>>().join(",")
}
fn fnv(s: &str) -> String {
    let (mut a, mut b) = (0xcbf2_9ce4_8422_2325u64, 0x9ae1_6a3b_2f90_404fu64);
    for x in s.bytes() {
        a = (a ^ x as u64).wrapping_mul(0x100_0000_01b3);
        b = (b ^ x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(13);
    }
    format!("{:016x}{:016x}", a, b)
}
fn res<T>(r: &Result<T, R1CSError>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(_) => "err",
    }
}
fn twist_gens(n: usize, tw: usize) -> Gens {
    let g = gens(n);
    if tw == 1 || tw == 5 {
        Gens { g: g.h.clone(), h: g.g.clone(), G: g.H.clone(), H: g.G.clone() }
    } else {
        g
    }
}
fn twist_label(tw: usize) -> &'static [u8] {
    if tw == 2 || tw == 5 {
        b"another label"
    } else {
        b"label"
    }
}
/// another true statement with the same shape
fn reshape(gd: &Gd, r: &mut Rng) -> Gd {
    let one = FE::one();
    match gd {
        Gd::NonZero { .. } => Gd::NonZero { v: r.fe_nonzero() },
        Gd::Bound { v, lo, hi, n } if *hi < u64::max_value() - 1000 => {
            let d = r.next() % 1000;
            Gd::Bound { v: v + d, lo: lo + d, hi: hi + d, n: *n }
        }
        Gd::Set { v, set } => Gd::Set { v: v + &one, set: set.iter().map(|x| x + &one).collect() },
        Gd::SetAlt { v, set } => Gd::SetAlt { v: v ^ 3, set: set.iter().map(|x| x ^ 3).collect() },
        Gd::NonMember { v, set } => Gd::NonMember { v: v + &one, set: set.iter().map(|x| x + &one).collect() },
        Gd::Mimc { rounds, consts, .. } => {
            let consts: Vec<FE> = consts.iter().map(|_| r.fe()).collect();
            let inp = vec![r.fe(), r.fe()];
            let out = ref_mimc(&inp, &consts, *rounds);
            Gd::Mimc { inp, out, consts: Arc::new(consts), rounds: *rounds }
        }
        Gd::Poseidon { params, sbox, .. } => {
            // the same width and number of rounds, other constants
            let mut p = PoseidonParams::new(params.width, params.full_rounds_beginning, params.full_rounds_end, params.partial_rounds);
            for k in p.round_keys.iter_mut() {
                *k = r.fe();
            }
            gen_poseidon(r, Arc::new(p), *sbox)
        }
        Gd::Hamming { orig, new, count } => Gd::Hamming {
            orig: orig.iter().map(|x| x + &one).collect(),
            new: new.iter().map(|x| x + &one).collect(),
            count: *count,
        },
        Gd::Merkle4 { depth, .. } => loop {
            let g = gen(r, 7, 1);
            if let Gd::Merkle4 { depth: d, .. } = &g {
                if d == depth || *depth > 2 {
                    return g;
                }
            }
        },
        Gd::Merkle8 { depth, .. } => loop {
            let g = gen(r, 8, 1);
            if let Gd::Merkle8 { depth: d, .. } = &g {
                if d == depth || *depth > 2 {
                    return g;
                }
            }
        },
        Gd::Randomizer(_) => gen(r, 10, 1),
        g => g.clone(),
    }
}

/// alter one element of a proof
fn alter(p: &Value, which: usize, r: &mut Rng) -> Value {
    let mut v = p.clone();
    let w = which % (POINTS.len() + SCALARS.len() + 4);
    if w < POINTS.len() {
        v[POINTS[w]] = g1_json(&r.g1());
    } else if w < POINTS.len() + SCALARS.len() {
        let k = SCALARS[w - POINTS.len()];
        v[k] = fe_json(&(json_fe(&v[k]) + &FE::one()));
    } else {
        match w - POINTS.len() - SCALARS.len() {
            0 => v["ipp_proof"]["a"] = fe_json(&r.fe()),
            1 => v["ipp_proof"]["b"] = fe_json(&r.fe()),
            k => {
                let l = lr_mut(&mut v, if k == 2 { "L" } else { "R" });
                if l.is_empty() {
                    v["t_x"] = fe_json(&r.fe());
                } else {
                    let i = r.below(l.len());
                    l[i] = g1_json(&r.g1());
                }
            }
        }
    }
    v
}

/// verdicts on the proof and on variations of it, mixed so that neither order is privileged
fn verdicts(r: &mut Rng, proof: &Value, comms: &[G1], gn: &Gens, label: &'static [u8], ver: &dyn Fn(&R1CSProof, &[G1], &Gens, &'static [u8]) -> Result<(), R1CSError>) -> String {
    let mut o = vec![];
    let mut todo: Vec<usize> = vec![0, 0, 1, 1, 1, 2, 3, 4];
    r.shuffle(&mut todo);
    if r.chance(1, 2) {
        todo.insert(0, 0);
    }
    for t in todo {
        let v = match t {
            0 => ver(&jp(proof), comms, gn, label),
            1 => {
                let w = r.below(64);
                ver(&jp(&alter(proof, w, r)), comms, gn, label)
            }
            2 => {
                let mut c = comms.to_vec();
                if !c.is_empty() {
                    let i = r.below(c.len());
                    c[i] = r.g1();
                }
                ver(&jp(proof), &c, gn, label)
            }
            3 => {
                let mut g = gn.clone();
                match r.below(3) {
                    0 => g.g = r.g1(),
                    1 => g.h = r.g1(),
                    _ => std::mem::swap(&mut g.G, &mut g.H),
                }
                ver(&jp(proof), comms, &g, label)
            }
            _ => ver(&jp(proof), comms, gn, b"a label never used"),
        };
        o.push(format!("{}{}", t, res(&v)));
    }
    o.join(" ")
}

fn base_rng(u: &Unit) -> Rng {
    Rng::new(u.base.wrapping_mul(0x9e37_79b9).wrapping_add(u.family as u64))
}
fn the_gd(u: &Unit) -> Gd {
    let mut r = base_rng(u);
    let size = if u.family < 6 { r.range(1, 2) } else { 1 };
    let g = gen(&mut r, u.family, size);
    if u.twist >= 4 {
        let mut r = Rng::new(r.next() ^ u.twist as u64);
        reshape(&g, &mut r)
    } else {
        g
    }
}
fn the_prog(u: &Unit) -> (Prog, Gens) {
    let mut r = base_rng(u);
    let two = u.family == PROG2;
    let cfg = GenCfg { commits: r.range(0, 3), n1: r.range(0, 6), n2: if two { r.range(1, 3) } else { 0 }, constraints: r.range(0, 4), callbacks: if two { r.range(1, 2) } else { 0 }, max_terms: 6 };
    let mut r2 = if u.twist >= 4 { Rng::new(r.next() ^ u.twist as u64) } else { r.fork() };
    let prog = gen_prog(&mut r2, &cfg);
    (prog, twist_gens(pow2((cfg.n1 + cfg.n2 + 2).max(1)) * 2, u.twist))
}

fn exec_unit(u: &Unit) -> Out {
    let mut r = Rng::new(u.base ^ 0x55aa ^ ((u.family as u64) << 32));
    let label = twist_label(u.twist);
    let (mut det, mut proof) = (String::new(), String::new());
    if u.family < KINDS {
        let gd = the_gd(u);
        let gn = twist_gens(gd.size(), u.twist);
        let rnd = gd.rnd(&mut r);
        let fixed = rnd.is_some();
        let mut rr = r.fork();
        match gd.prove(rnd, Some(&mut rr), label, &gn) {
            Ok((p, c)) => {
                let pv = pj(&p);
                det += &verdicts(&mut r, &pv, &c, &gn, label, &|p, c, g, l| gd.verify(p, c, l, g));
                let cs = c.iter().map(|g| format!("{:?}", g.to_bytes())).collect::<Vec<_>>().join(",");
                if fixed {
                    det += &cs;
                }
                proof = pv.to_string() + &cs;
            }
            Err(_) => det += "prove err",
        }
    } else if u.family == PROG || u.family == PROG2 {
        let (prog, gn) = the_prog(u);
        let (p, st) = prove_prog(&prog, &gn, label, &POpts::default());
        match p {
            Ok(p) => {
                let pv = pj(&p.proof);
                det += &verdicts(&mut r, &pv, &p.comms, &gn, label, &|q, c, g, l| verify_prog(&prog, g, l, q, c, false).0);
                det += &p.comms.iter().map(|g| format!("{:?}", g.to_bytes())).collect::<Vec<_>>().join(",");
                proof = pv.to_string();
            }
            Err(_) => det += "prove err",
        }
        det += &format!(" gates {}", st.gates);
    } else if u.family == IPPK {
        let mut b = base_rng(u);
        let n = *b.pick(&[1usize, 2, 4, 8, 16]);
        let mut b = if u.twist >= 4 { Rng::new(b.next() ^ u.twist as u64) } else { b };
        let gn = twist_gens(n, u.twist);
        let mut v = |k: usize| -> Vec<FE> { (0..n).map(|_| if k == 0 { b.fe() } else { b.fe_mixed_nonzero() }).collect() };
        let (a, bb, gf, hf) = (v(0), v(0), v(1), v(1));
        let mut p = &gn.g * &a.iter().zip(&bb).fold(FE::zero(), |s, (x, y)| s + x * y);
        for i in 0..n {
            p = &p + &(&gn.G[i] * &(&a[i] * &gf[i]));
            p = &p + &(&gn.H[i] * &(&bb[i] * &hf[i]));
        }
        let pf: InnerProductArgumentProof =
            IPP::create_ipp(&mut Transcript::new(label), &gn.g, &fev(&gf), &fev(&hf), &gn.G, &gn.H, &fev(&a), &fev(&bb));
        let ver = |pf: &InnerProductArgumentProof, p: &G1, x: &FE, l: &'static [u8]| {
            res(&IPP::verify_ipp(n, &mut Transcript::new(l), &fev(&gf), &fev(&hf), p, &gn.g, &gn.G, &gn.H, x, &pf.b, &pf.L, &pf.R))
        };
        let x = &pf.a + &FE::one();
        det += &format!("{} {} {} {} {}", ver(&pf, &p, &x, label), ver(&pf, &p, &pf.a, label), ver(&pf, &gn.g, &pf.a, label), ver(&pf, &p, &pf.a, b"zz"), ver(&pf, &p, &pf.a, label));
        // nothing random in here
        det += &serde_json::to_string(&pf).unwrap();
    } else if u.family == TREE4 || u.family == TREE8 {
        let mut b = base_rng(u);
        let depth = b.range(1, 5);
        let w = if u.family == TREE4 { 5 } else { 9 };
        let (fb, fe_, pr) = (b.range(0, 1), 1, b.range(0, 2));
        let mut p = PoseidonParams::new(w, fb, fe_, pr);
        if u.twist == 1 || u.twist == 5 {
            for k in p.round_keys.iter_mut() {
                *k = b.fe();
            }
        }
        let mut b = if u.twist >= 2 { Rng::new(b.next() ^ u.twist as u64) } else { b };
        let ar = if u.family == TREE4 { 4u64 } else { 8 };
        macro_rules! go {
            ($mk:ident, $db:ident) => {{
                let (mut t, mut db) = $mk(&p, depth, &[]);
                det += &hex(&t.root);
                let n = ar.pow(depth as u32);
                let mut used = vec![];
                for k in 0..6 {
                    let i = b.next() % n;
                    let v = b.fe_mixed();
                    let ro = t.update(&fe(i), v.clone(), &mut db);
                    used.push((i, v));
                    det += &ro.map(|x| hex(&x)).unwrap_or("err".into());
                    let (j, v) = b.pick(&used).clone();
                    let mut pf = Some(vec![]);
                    let got = t.get(&fe(j), &mut pf, &db);
                    det += &got.map(|x| hex(&x)).unwrap_or("err".into());
                    let pf = pf.unwrap();
                    det += &pf.iter().map(|n| fe_all(n)).collect::<Vec<_>>().join(";");
                    for x in vec![v.clone(), &v + &FE::one()] {
                        det += &format!("{:?} ", t.verify_proof(&fe(j), &x, &pf, None));
                    }
                    if k == 3 {
                        // a read that fails
                        det += res(&t.get(&fe(j), &mut None, &$db::new()));
                    }
                }
            }};
        }
        if u.family == TREE4 {
            go!(tree4, Db4)
        } else {
            go!(tree8, Db8)
        }
    } else if u.family == HASH {
        let mut b = base_rng(u);
        for _ in 0..4 {
            let w = *b.pick(&[3usize, 5, 9]);
            let mut p = PoseidonParams::new(w, b.range(0, 2), b.range(1, 2), b.range(0, 3));
            let mut q = if u.twist > 0 { Rng::new(b.next() ^ u.twist as u64) } else { b.fork() };
            if u.twist % 2 == 1 {
                for k in p.round_keys.iter_mut() {
                    *k = q.fe();
                }
            }
            let inp: Vec<FE> = (0..w - 1).map(|_| q.fe()).collect();
            for sb in &[SboxType::Cube, SboxType::Inverse, SboxType::Quint] {
                det += &hex(&lib_hash(&inp, &p, sb));
            }
            let rounds = b.range(1, 6);
            let c: Vec<FE> = (0..rounds).map(|_| q.fe()).collect();
            det += &hex(&lib_mimc(&[q.fe(), q.fe()], &c, rounds));
        }
    } else {
        let mut b = base_rng(u);
        let n = b.range(1, 12);
        let pre = format!("p{}{}-", u.base % 3, u.twist);
        det += &get_generators(&pre, n).iter().map(|g| format!("{:?}", g.to_bytes())).collect::<String>();
        let gn = twist_gens(4, u.twist);
        let mut st = vec![u.twist as u8; b.range(1, 40)];
        for _ in 0..3 {
            det += &fe_all(&gen_challenges(&[&gn.g, &gn.G[b.below(4)]], &mut st, b.range(1, 4)));
        }
    }
    let verdicts_part: String = det.chars().take(120).collect();
    Out { full: fnv(&format!("{}#{}", det, proof)), det: format!("{} {}", fnv(&det), verdicts_part) }
}
fn entropy(u: &Unit) -> u64 {
    let e = u.base.wrapping_mul(31).wrapping_add(u.family as u64 * 7);
    if u.twist == 3 || u.twist == 5 {
        e ^ 0xffff_0000_1234
    } else {
        e
    }
}
/// run one unit on this thread with its own entropy; the thread's stream is put back afterwards
fn run_unit(u: &Unit) -> Out {
    let old = amcl_wrapper::vp::swap(None);
    amcl_wrapper::vp::set_seed(Some(entropy(u)));
    let r = guard(|| exec_unit(u));
    amcl_wrapper::vp::swap(old);
    r.unwrap_or_else(|p| Out { full: format!("panic {}", p), det: format!("panic {}", p) })
}

/// entry point of the fresh processes: `--unit base:family:twist`
pub fn unit_main(arg: &str) {
    let v: Vec<u64> = arg.split(':').map(|x| x.parse().unwrap()).collect();
    let u = Unit { base: v[0], family: v[1] as usize, twist: v[2] as usize };
    // the same stack as the worker threads
    let o = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_unit(&u)).unwrap().join().unwrap();
    println!("{}", json!({"full": o.full, "det": o.det}));
}

/// what a fresh process gives; `None` for `full` where two fresh processes differ
type Expect = (Option<String>, String);
struct Refs {
    map: Mutex<BTreeMap<Unit, Arc<Mutex<Option<Expect>>>>>,
}
fn fresh(u: &Unit) -> Option<Out> {
    let o = std::process::Command::new(std::env::current_exe().ok()?)
        .arg("--unit")
        .arg(format!("{}:{}:{}", u.base, u.family, u.twist))
        .output()
        .ok()?;
    // the library prints too: the result is the last line
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let v: Value = serde_json::from_str(text.trim_end().lines().last()?).ok()?;
    Some(Out { full: v["full"].as_str()?.into(), det: v["det"].as_str()?.into() })
}
impl Refs {
    fn get(&self, u: &Unit, ctx: &mut Ctx) -> Option<Expect> {
        let slot = self.map.lock().unwrap().entry(*u).or_insert_with(|| Arc::new(Mutex::new(None))).clone();
        let mut s = slot.lock().unwrap();
        if s.is_none() {
            let (a, b) = (fresh(u)?, fresh(u)?);
            ctx.count("fresh processes", 2);
            ctx.check(a.det == b.det, &format!("{:?} fresh", u), &|| format!("two fresh processes disagree: {} / {}", a.det, b.det));
            if a.full != b.full {
                ctx.count("units whose randomness is not under control", 1);
            }
            *s = Some((if a.full == b.full { Some(a.full) } else { None }, a.det));
        }
        s.clone()
    }
}
fn compare(ctx: &mut Ctx, u: &Unit, e: &Expect, o: &Out, sig: &str, how: &str) {
    ctx.count("unit runs compared", 1);
    ctx.check(e.1 == o.det, sig, &|| format!("{}: {:?} gives {} but a fresh process gives {}", how, u, o.det, e.1));
    if let Some(f) = &e.0 {
        ctx.count("proofs compared", 1);
        ctx.check(*f == o.full, &format!("{} proof", sig), &|| format!("{}: {:?} with the same randomness gives another proof than a fresh process", how, u));
    }
}

/// something that goes wrong, or is abandoned halfway
const DISTURB: usize = 15;
fn disturb(which: usize, r: &mut Rng) -> &'static str {
    let n = 4;
    let gn = gens(n);
    let old = amcl_wrapper::vp::swap(None);
    amcl_wrapper::vp::set_seed(Some(r.next()));
    let mut name = "";
    let _ = guard(|| match which % DISTURB {
        0 | 1 | 2 => {
            // a callback that errors or panics inside prove
            name = ["callback error in prove", "callback panic in prove", "callback panic after gates in prove"][which % DISTURB];
            let mut t = Transcript::new(b"d");
            let mut p = Prover::new(&gn.g, &gn.h, &mut t);
            let (_, v) = p.commit(r.fe(), r.fe());
            p.multiply(v.into(), v.into());
            let w = which % DISTURB;
            let _ = p.specify_randomized_constraints(move |cs| {
                if w == 2 {
                    let c = cs.challenge_scalar(b"x");
                    cs.multiply(c + v, v.into());
                }
                if w > 0 {
                    panic!("disturbance");
                }
                Err(R1CSError::FormatError)
            });
            let _ = p.prove(&gn.G, &gn.H);
        }
        3 | 4 => {
            name = ["callback error in verify", "callback panic in verify"][which % DISTURB - 3];
            let u = Unit { base: r.next() % 1000, family: PROG2, twist: 0 };
            let (prog, g2) = the_prog(&u);
            if let (Ok(p), _) = prove_prog(&prog, &g2, b"d", &POpts::default()) {
                let mut t = Transcript::new(b"d");
                let mut v = Verifier::new(&mut t);
                let x = v.commit(gn.g.clone());
                let w = which % DISTURB;
                let _ = v.specify_randomized_constraints(move |cs| {
                    cs.multiply(x.into(), x.into());
                    if w == 4 {
                        panic!("disturbance");
                    }
                    Err(R1CSError::FormatError)
                });
                let _ = v.verify(&p.proof, &gn.g, &gn.h, &gn.G, &gn.H);
            }
        }
        5 => {
            name = "prover dropped with a pending gate and callback";
            let mut t = Transcript::new(b"d");
            let mut p = Prover::new(&gn.g, &gn.h, &mut t);
            let (_, v) = p.commit(r.fe(), r.fe());
            let _ = p.allocate(Some(r.fe()));
            p.constrain(v.into());
            let _ = p.specify_randomized_constraints(|_| Ok(()));
        }
        6 => {
            name = "verifier dropped with a pending gate";
            let mut t = Transcript::new(b"d");
            let mut v = Verifier::new(&mut t);
            let x = v.commit(gn.g.clone());
            let _ = v.allocate(None);
            v.constrain(x.into());
        }
        7 => {
            name = "missing assignments";
            let mut t = Transcript::new(b"d");
            let mut p = Prover::new(&gn.g, &gn.h, &mut t);
            let _ = p.allocate(None);
            let _ = p.allocate_multiplier(None);
            let _ = p.prove(&gn.G, &gn.H);
        }
        8 => {
            name = "too few generators";
            let mut t = Transcript::new(b"d");
            let mut p = Prover::new(&gn.g, &gn.h, &mut t);
            let (_, v) = p.commit(r.fe(), r.fe());
            for _ in 0..5 {
                p.multiply(v.into(), v.into());
            }
            let _ = p.prove(&gn.G, &gn.H);
        }
        9 => {
            name = "false statement proved and rejected";
            let mut t = Transcript::new(b"d");
            let mut p = Prover::new(&gn.g, &gn.h, &mut t);
            let (c, v) = p.commit(fe(5), r.fe());
            p.constrain(v - FE::one());
            if let Ok(pf) = p.prove(&gn.G, &gn.H) {
                let mut t = Transcript::new(b"d");
                let mut w = Verifier::new(&mut t);
                let v = w.commit(c);
                w.constrain(v - FE::one());
                let _ = w.verify(&pf, &gn.g, &gn.h, &gn.G, &gn.H);
            }
        }
        10 => {
            name = "inner-product lengths that do not fit";
            let mut t = Transcript::new(b"d");
            let v = fev(&[r.fe(), r.fe(), r.fe()]);
            IPP::create_ipp(&mut t, &gn.g, &v, &v, &gn.G, &gn.H, &v, &v);
        }
        11 => {
            name = "hash of the wrong width";
            let p = params(3, 0, 1, 0);
            bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::Poseidon_permutation(&[r.fe()], &p, &SB);
        }
        12 => {
            name = "malformed proof";
            let u = Unit { base: r.next() % 1000, family: PROG, twist: 0 };
            let (prog, g2) = the_prog(&u);
            if let (Ok(p), _) = prove_prog(&prog, &g2, b"d", &POpts::default()) {
                let mut v = pj(&p.proof);
                let l = lr_mut(&mut v, "L");
                l.push(g1_json(&gn.g));
                let _ = verify_prog(&prog, &g2, b"d", &jp(&v), &p.comms, false);
                let _ = verify_prog(&prog, &gens(0), b"d", &p.proof, &p.comms, false);
                let _ = verify_prog(&prog, &g2, b"d", &p.proof, &[], false);
            }
        }
        13 => {
            name = "thread that dies inside prove";
            let _ = std::thread::spawn(move || {
                let gn = gens(n);
                let mut t = Transcript::new(b"d");
                let mut p = Prover::new(&gn.g, &gn.h, &mut t);
                let _ = p.specify_randomized_constraints(|_| panic!("disturbance"));
                let _ = p.prove(&gn.G, &gn.H);
            })
            .join();
        }
        _ => {
            name = "gadgets refused";
            let gd = Gd::NonMember { v: fe(3), set: vec![fe(1), fe(3)] };
            let _ = guard(|| gd.prove(Some(vec![fe(9)]), None::<&mut Rng>, b"d", &gn));
            let gd = Gd::Set { v: fe(3), set: vec![fe(1), fe(4)] };
            let _ = guard(|| gd.prove(Some(vec![fe(9)]), None::<&mut Rng>, b"d", &gn));
            let gd = Gd::NonZero { v: FE::zero() };
            let _ = guard(|| gd.prove(Some(vec![fe(9)]), None::<&mut Rng>, b"d", &gn));
            let p = params(5, 0, 1, 0);
            let (mut t, _) = tree4(&p, 2, &[]);
            let _ = guard(|| t.update(&fe(3), fe(4), &mut Db4::new()));
        }
    });
    amcl_wrapper::vp::swap(old);
    name
}

fn family_unit(r: &mut Rng, pool: &[(u64, usize)], twist: usize) -> Unit {
    let (base, family) = *r.pick(pool);
    Unit { base, family, twist }
}

fn history(ctx: &mut Ctx, refs: &Refs, pool: &[(u64, usize)], steps: usize) {
    let mut r = ctx.rng.fork();
    let mut prev = vec![];
    let mut i = 0;
    while i < steps {
        // a run of units that differ in as little as possible, with disturbances in between
        let t0 = r.below(TWISTS);
        let u0 = family_unit(&mut r, pool, t0);
        let mut seq = vec![u0];
        for _ in 0..r.range(1, 3) {
            let mut u = u0;
            u.twist = r.below(TWISTS);
            seq.push(u);
        }
        seq.push(u0);
        for u in seq {
            i += 1;
            let e = match refs.get(&u, ctx) {
                Some(e) => e,
                None => {
                    ctx.note("no fresh process available".into());
                    return;
                }
            };
            if r.chance(1, 2) {
                let d = disturb(r.below(DISTURB), &mut r);
                ctx.count(&format!("disturbance: {}", d), 1);
                prev.push(d.to_string());
            }
            let o = run_unit(&u);
            let h = prev.iter().rev().take(5).cloned().collect::<Vec<_>>().join(" <- ");
            compare(ctx, &u, &e, &o, &format!("step {}", i), &format!("after {}", h));
            prev.push(format!("{}:{}", u.family, u.twist));
        }
    }
}

fn threads(ctx: &mut Ctx, refs: &Refs, pool: &[(u64, usize)], nth: usize, per: usize) {
    let mut r = ctx.rng.fork();
    let mut work = vec![];
    // a narrow choice of units so that twins run at the same time
    let few: Vec<(u64, usize)> = (0..3).map(|_| *r.pick(pool)).collect();
    for _ in 0..nth {
        let mut w = vec![];
        for _ in 0..per {
            let tw = r.below(TWISTS);
            w.push(family_unit(&mut r, if tw < 4 { &few } else { pool }, tw));
        }
        work.push((w, r.next() | 1));
    }
    let all: BTreeSet<Unit> = work.iter().flat_map(|w| w.0.iter().cloned()).collect();
    let mut exp = BTreeMap::new();
    for u in all {
        match refs.get(&u, ctx) {
            Some(e) => exp.insert(u, e),
            None => return,
        };
    }
    let bar = Arc::new(Barrier::new(nth));
    let active: Arc<Mutex<(Vec<Unit>, BTreeSet<(usize, usize)>, usize)>> = Arc::new(Mutex::new((vec![], BTreeSet::new(), 0)));
    let hs: Vec<_> = work
        .into_iter()
        .map(|(w, j)| {
            let (bar, active) = (bar.clone(), active.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    merlin::vp::set_jitter(j);
                    bar.wait();
                    let mut out = vec![];
                    for u in w {
                        {
                            let mut a = active.lock().unwrap();
                            let fams: Vec<usize> = a.0.iter().map(|x| x.family).collect();
                            for f in fams {
                                a.1.insert((f.min(u.family), f.max(u.family)));
                            }
                            a.0.push(u);
                            a.2 = a.2.max(a.0.len());
                        }
                        let o = run_unit(&u);
                        let mut a = active.lock().unwrap();
                        let k = a.0.iter().position(|x| *x == u).unwrap();
                        a.0.remove(k);
                        drop(a);
                        out.push((u, o));
                    }
                    (out, merlin::vp::yields())
                })
                .unwrap()
        })
        .collect();
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok((out, y)) => {
                ctx.count("injected scheduling points", y);
                for (k, (u, o)) in out.iter().enumerate() {
                    compare(ctx, u, &exp[u], o, &format!("thread {} unit {}", t, k), &format!("with {} threads at work", nth));
                }
            }
            Err(_) => {
                ctx.check(false, &format!("thread {}", t), &|| "a worker thread died".into());
            }
        }
    }
    let a = active.lock().unwrap();
    ctx.count("pairs of families seen overlapping (per case)", a.1.len() as u64);
    ctx.count("most units in flight (summed over cases)", a.2 as u64);
}

/// two provers (and two verifiers) built and run alternately on one thread, against each alone
fn interleaved(ctx: &mut Ctx, pool: &[(u64, usize)]) {
    let mut r = ctx.rng.fork();
    let gad: Vec<(u64, usize)> = pool.iter().filter(|p| p.1 < KINDS).cloned().collect();
    let pick = |r: &mut Rng| {
        let tw = r.below(TWISTS);
        family_unit(r, &gad, tw)
    };
    let ua = pick(&mut r);
    let mut ub = if r.chance(1, 2) { ua } else { pick(&mut r) };
    ub.twist = (ub.twist + 1 + r.below(TWISTS - 1)) % TWISTS;
    let us = [ua, ub];
    let gds = [the_gd(&ua), the_gd(&ub)];
    let gns = [twist_gens(gds[0].size(), ua.twist), twist_gens(gds[1].size(), ub.twist)];
    let rnds = [gds[0].rnd(&mut r), gds[1].rnd(&mut r)];
    let old = amcl_wrapper::vp::swap(None);
    let seed = |k: usize| {
        let cur = amcl_wrapper::vp::swap(None);
        amcl_wrapper::vp::set_seed(Some(entropy(&us[k]) ^ k as u64));
        amcl_wrapper::vp::swap(cur)
    };
    let alone = |k: usize| {
        amcl_wrapper::vp::swap(seed(k));
        let mut t = Transcript::new(twist_label(us[k].twist));
        let mut p = Prover::new(&gns[k].g, &gns[k].h, &mut t);
        let c = gds[k].prove_into(rnds[k].clone(), Some(&mut Rng::new(1)), &mut p);
        c.and_then(|c| p.prove(&gns[k].G, &gns[k].H).map(|p| (pj(&p).to_string(), c)))
    };
    let both = || {
        let mut t = [Transcript::new(twist_label(us[0].twist)), Transcript::new(twist_label(us[1].twist))];
        let (t0, t1) = t.split_at_mut(1);
        let mut p0 = Prover::new(&gns[0].g, &gns[0].h, &mut t0[0]);
        let mut p1 = Prover::new(&gns[1].g, &gns[1].h, &mut t1[0]);
        // each party has its own entropy stream
        amcl_wrapper::vp::swap(seed(0));
        let c0 = gds[0].prove_into(rnds[0].clone(), Some(&mut Rng::new(1)), &mut p0);
        let s0 = amcl_wrapper::vp::swap(seed(1));
        let c1 = gds[1].prove_into(rnds[1].clone(), Some(&mut Rng::new(1)), &mut p1);
        let s1 = amcl_wrapper::vp::swap(s0);
        let r0 = c0.and_then(|c| p0.prove(&gns[0].G, &gns[0].H).map(|p| (pj(&p).to_string(), c)));
        amcl_wrapper::vp::swap(s1);
        let r1 = c1.and_then(|c| p1.prove(&gns[1].G, &gns[1].H).map(|p| (pj(&p).to_string(), c)));
        [r0, r1]
    };
    let out = ctx.total("alone", || [alone(0), alone(1)]).and_then(|a| {
        let again = ctx.total("alone again", || [alone(0), alone(1)])?;
        let b = ctx.total("interleaved", || both())?;
        Some((a, again, b))
    });
    if let Some((a, again, b)) = out {
        for k in 0..2 {
            let sig = format!("{:?} with {:?}", us[k], us[1 - k]);
            ctx.count("interleaved pairs", 1);
            match (&a[k], &again[k], &b[k]) {
                (Ok(x), Ok(y), Ok(z)) => {
                    if x.0 == y.0 {
                        ctx.check(x.0 == z.0, &sig, &|| "another proof when built next to another prover".into());
                    }
                    let c = if rnds[k].is_some() { &x.1 } else { &z.1 };
                    ctx.check(*c == z.1, &format!("{} comms", sig), &|| "other commitments when built next to another prover".into());
                }
                (x, _, z) => {
                    ctx.check(x.is_ok() == z.is_ok(), &sig, &|| format!("alone {} but interleaved {}", x.is_ok(), z.is_ok()));
                }
            }
        }
        // verification, interleaved
        if let (Ok(x), Ok(y)) = (&b[0], &b[1]) {
            let pf: Vec<R1CSProof> = vec![serde_json::from_str(&x.0).unwrap(), serde_json::from_str(&y.0).unwrap()];
            let bad = r.below(3); // 2: none
            let pv: Vec<R1CSProof> = (0..2).map(|k| if k == bad { jp(&alter(&pj(&pf[k]), r.below(64), &mut r)) } else { jp(&pj(&pf[k])) }).collect();
            let cs = [&x.1, &y.1];
            let v = ctx.total("verify interleaved", || {
                let mut t = [Transcript::new(twist_label(us[0].twist)), Transcript::new(twist_label(us[1].twist))];
                let (t0, t1) = t.split_at_mut(1);
                let mut v0 = Verifier::new(&mut t0[0]);
                let mut v1 = Verifier::new(&mut t1[0]);
                let a0 = gds[0].verify_into(cs[0], &gns[0], &mut v0);
                let a1 = gds[1].verify_into(cs[1], &gns[1], &mut v1);
                let g = |k: usize| (&gns[k].g, &gns[k].h, &gns[k].G, &gns[k].H);
                let r1 = a1.and_then(|_| v1.verify(&pv[1], g(1).0, g(1).1, g(1).2, g(1).3));
                let r0 = a0.and_then(|_| v0.verify(&pv[0], g(0).0, g(0).1, g(0).2, g(0).3));
                [r0.is_ok(), r1.is_ok()]
            });
            if let Some(v) = v {
                for k in 0..2 {
                    ctx.count("interleaved verifications", 1);
                    ctx.check(v[k] == (k != bad), &format!("{:?} verify next to {:?} bad {}", us[k], us[1 - k], bad), &|| {
                        format!("verdict {} for a proof that is {}", v[k], if k == bad { "altered" } else { "honest" })
                    });
                }
            }
        }
    }
    amcl_wrapper::vp::swap(old);
}

/// a whole unit run inside a randomized callback of another prover / verifier
fn nested(ctx: &mut Ctx, refs: &Refs, pool: &[(u64, usize)]) {
    let mut r = ctx.rng.fork();
    let tw = r.below(TWISTS);
    let u = family_unit(&mut r, pool, tw);
    let e = match refs.get(&u, ctx) {
        Some(e) => e,
        None => return,
    };
    let gn = gens(8);
    let (a, ra, k, seed) = (r.fe(), r.fe(), r.range(0, 2), r.next());
    fn body<CS: RandomizedConstraintSystem>(cs: &mut CS, v: Variable, k: usize, inner: &dyn Fn()) {
        for _ in 0..k {
            cs.multiply(v.into(), v + FE::one());
        }
        inner();
        let c = cs.challenge_scalar(b"c");
        inner();
        let (l, _, o) = cs.multiply(v + c.clone(), v.into());
        cs.constrain(l - (v + c));
        let (_, _, o2) = cs.multiply(o.into(), FE::one().into());
        cs.constrain(o - o2);
    }
    let got: std::rc::Rc<std::cell::RefCell<Vec<Out>>> = Default::default();
    let run = |nest: bool| {
        let old = amcl_wrapper::vp::swap(None);
        amcl_wrapper::vp::set_seed(Some(seed));
        let g2 = got.clone();
        let inner = move || {
            if nest {
                g2.borrow_mut().push(run_unit(&u));
            }
        };
        let inner2 = inner.clone();
        let mut t = Transcript::new(b"outer");
        let mut p = Prover::new(&gn.g, &gn.h, &mut t);
        let (c, v) = p.commit(a.clone(), ra.clone());
        p.multiply(v.into(), v.into());
        let _ = p.specify_randomized_constraints(move |cs| {
            body(cs, v, k, &inner);
            Ok(())
        });
        let pf = p.prove(&gn.G, &gn.H);
        let mut t = Transcript::new(b"outer");
        let mut w = Verifier::new(&mut t);
        let v = w.commit(c);
        w.multiply(v.into(), v.into());
        let _ = w.specify_randomized_constraints(move |cs| {
            body(cs, v, k, &inner2);
            Ok(())
        });
        let o = pf.map(|pf| (pj(&pf).to_string(), w.verify(&pf, &gn.g, &gn.h, &gn.G, &gn.H).is_ok()));
        amcl_wrapper::vp::swap(old);
        o
    };
    let rs = ctx.total("nested", || (run(false), run(false), run(true)));
    if let Some((x, y, z)) = rs {
        let sig = format!("{:?} nested k={}", u, k);
        ctx.count("nested runs", 1);
        match (x, y, z) {
            (Ok(x), Ok(y), Ok(z)) => {
                ctx.check(x.1 && z.1, &format!("{} verdict", sig), &|| format!("accepted {} without and {} with work nested in the callback", x.1, z.1));
                if x.0 == y.0 {
                    ctx.check(x.0 == z.0, &sig, &|| "the outer proof differs when other work runs inside its callback".into());
                }
            }
            (x, _, z) => {
                ctx.check(false, &sig, &|| format!("honest prove failed: {:?} {:?}", x.is_ok(), z.is_ok()));
            }
        }
        for (i, o) in got.borrow().iter().enumerate() {
            compare(ctx, &u, &e, o, &format!("{} inner {}", sig, i), "inside a callback");
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new("one evaluation = one unit of work (prove + several verifications, tree history, hashes, generators) compared with the result of a fresh process, or one interleaved / nested run compared with the same run alone; distinct by schedule position and unit");
    let t = o.thorough;
    let refs = Arc::new(Refs { map: Mutex::new(BTreeMap::new()) });
    let mut r = Rng::new(o.seed ^ 0xc21);
    let mut pool = vec![];
    for f in 0..FAMILIES {
        for _ in 0..if t { 6 } else { 2 } {
            pool.push((r.next() % 100_000, f));
        }
    }
    let pool = Arc::new(pool);
    for i in 0..if t { 60 } else { 16 } {
        let (p, q) = (pool.clone(), refs.clone());
        s.add(format!("history #{}", i), move |c| history(c, &q, &p, if t { 120 } else { 40 }));
    }
    for i in 0..if t { 40 } else { 6 } {
        let (p, q) = (pool.clone(), refs.clone());
        s.add(format!("threads #{}", i), move |c| threads(c, &q, &p, [2, 8, 16][i % 3], if t { 30 } else { 12 }));
    }
    for i in 0..if t { 400 } else { 60 } {
        let p = pool.clone();
        s.add(format!("interleaved #{}", i), move |c| interleaved(c, &p));
    }
    for i in 0..if t { 200 } else { 30 } {
        let (p, q) = (pool.clone(), refs.clone());
        s.add(format!("nested #{}", i), move |c| nested(c, &q, &p));
    }
    for c in s.cases.iter_mut() {
        // a failure may depend on what else the process was doing
        c.confirm = false;
    }
    s.assume("where two fresh processes give different proofs for the same seed (randomness not under the harness's control) only verdicts, roots, hashes and commitments are compared");
    s
}
