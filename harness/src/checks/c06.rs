//! C06: proofs hide the witness - every mask is fresh, independent and full-size.
use crate::gadgets::*;
use crate::prog::*;
use crate::runner::*;
use crate::subject::*;
use crate::util::*;
use serde_json::Value;
use std::collections::HashMap;

/// discrete logarithm of a simulated group element
fn dl(p: &G1) -> FE {
    let b = p.to_bytes();
    let mut o = FE::zero();
    // two candidates of the fixed-width encoding: value sits in the first block after the tag
    let n = amcl_wrapper::constants::MODBYTES;
    let mut x = [0u8; amcl_wrapper::constants::MODBYTES];
    if b.len() >= n + 1 {
        x.copy_from_slice(&b[1..n + 1]);
        o = FE::from(&x);
    }
    o
}
fn unit() -> G1 {
    let g = G1::from_msg_hash(b"vp unit");
    &g * &dl(&g).inverse()
}
/// all generators trivial but the chosen ones
#[derive(Clone, Copy, PartialEq)]
enum Only {
    H,
    Gi(usize),
    Hi(usize),
}
fn probe(n: usize, o: Only) -> Gens {
    let id = G1::identity();
    let mut G = vec![id.clone(); n];
    let mut H = vec![id.clone(); n];
    let u = unit();
    let mut h = id.clone();
    match o {
        Only::H => h = u,
        Only::Gi(i) => G[i] = u,
        Only::Hi(i) => H[i] = u,
    }
    Gens { g: id, h, G: vec_from(&G), H: vec_from(&H) }
}

#[derive(Clone)]
enum W {
    P(Prog),
    G(Gd, Option<Vec<FE>>),
}
fn prove(w: &W, gn: &Gens, seed: Option<u64>) -> Option<(Value, Vec<G1>, usize, usize)> {
    amcl_wrapper::vp::set_seed(seed);
    let r = guard(|| match w {
        W::P(p) => {
            let (r, st) = prove_prog(p, gn, b"hide", &POpts::default());
            r.ok().map(|p| (pj(&p.proof), p.comms, st.n1, st.gates))
        }
        W::G(g, rnd) => {
            let mut rr = Rng::new(seed.unwrap_or(77) ^ 0x55);
            let r = g.prove(rnd.clone(), Some(&mut rr), b"hide", gn);
            r.ok().map(|(p, c)| (pj(&p), c, usize::max_value(), usize::max_value()))
        }
    });
    r.ok().and_then(|x| x)
}
/// names of proof elements that carry witness data, given what phases have gates
fn carriers(n1: usize, n: usize) -> Vec<&'static str> {
    let mut v = vec![];
    if n1 > 0 {
        v.extend_from_slice(&["A_I1", "A_O1", "S1"]);
    }
    if n > n1 {
        v.extend_from_slice(&["A_I2", "A_O2", "S2"]);
    }
    if n > 0 {
        v.extend_from_slice(&["T_1", "T_3", "T_4", "T_5", "T_6"]);
    }
    v
}
fn small_chunk(m: &FE) -> Option<usize> {
    // a 64-bit limb of a uniform scalar is zero with probability 2^-64
    let b = m.to_bytes();
    let b = &b[b.len() - 32..];
    (0..4).find(|i| b[8 * i..8 * i + 8].iter().all(|x| *x == 0))
}

/// All the masks of one proof, by name.
struct Masks {
    m: Vec<(String, FE)>,
}
/// judge a family of masks collected from several proofs: (proof number, name, value)
fn judge(ctx: &mut Ctx, desc: &str, all: &[Masks], known: &[(String, FE)]) {
    let mut flat: Vec<(usize, &String, &FE)> = vec![];
    for (i, ms) in all.iter().enumerate() {
        for (n, v) in &ms.m {
            flat.push((i, n, v));
        }
    }
    ctx.count("masks", flat.len() as u64);
    for (i, n, v) in &flat {
        let bad = small_chunk(v);
        let neg = small_chunk(&v.negation());
        ctx.check(bad.is_none() && neg.is_none(), &format!("{} full-size {} {}", desc, i, n), &|| {
            format!("mask of {} is missing or not full-size: {} ({})", n, hex(v), desc)
        });
    }
    // pairwise relations: equal, negated, off by a small constant, small multiple
    let mut seen: HashMap<String, String> = HashMap::new();
    for (n, v) in known {
        seen.insert(hex(v), n.clone());
    }
    let mut clash: Option<String> = None;
    for (i, n, v) in &flat {
        let me = format!("proof {} {}", i, n);
        if let Some(o) = seen.get(&hex(v)) {
            clash = clash.or(Some(format!("{} equals {}", me, o)));
        }
        seen.insert(hex(v), me);
    }
    for (i, n, v) in &flat {
        let me = format!("proof {} {}", i, n);
        let mut rel = |what: &str, x: FE| {
            if let Some(o) = seen.get(&hex(&x)) {
                if *o != me {
                    clash = clash.take().or(Some(format!("{} of {} equals {}", what, me, o)));
                }
            }
        };
        rel("negation", v.negation());
        for k in 1..=4u64 {
            rel("small offset", *v + &fe(k));
        }
        for k in 2..=5u64 {
            rel("small multiple", *v * &fe(k));
        }
        rel("square", *v * *v);
        rel("inverse", v.inverse());
    }
    // sums of two masks of the same proof
    for (i, ms) in all.iter().enumerate().take(2) {
        let s: Vec<&(String, FE)> = ms.m.iter().take(40).collect();
        for a in 0..s.len() {
            for b in 0..a {
                for (w, x) in vec![("sum", &s[a].1 + &s[b].1), ("difference", &s[a].1 - &s[b].1), ("product", &s[a].1 * &s[b].1)] {
                    if let Some(o) = seen.get(&hex(&x)) {
                        clash = clash.take().or(Some(format!("{} of masks {} and {} in proof {} equals {}", w, s[a].0, s[b].0, i, o)));
                    }
                }
            }
        }
    }
    ctx.check(clash.is_none(), &format!("{} independent", desc), &|| format!("masks are related: {} ({})", clash.clone().unwrap_or_default(), desc));
}
/// a vector of masks must not follow a progression
fn progression(ctx: &mut Ctx, desc: &str, name: &str, v: &[FE]) {
    let mut bad = None;
    for i in 2..v.len() {
        if &v[i] + &v[i - 2] == &v[i - 1] + &v[i - 1] {
            bad = Some("arithmetic");
        }
        if &v[i] * &v[i - 2] == &v[i - 1] * &v[i - 1] {
            bad = Some("geometric");
        }
    }
    ctx.check(bad.is_none(), &format!("{} {} progression", desc, name), &|| format!("{} follows a {:?} progression ({})", name, bad, desc));
}

fn masks_of(ctx: &mut Ctx, w: &W, gates: (usize, usize), np: usize, desc: &str, vectors: bool) {
    let (n1, n) = gates;
    let known: Vec<(String, FE)> = match w {
        W::P(p) => p
            .ops
            .iter()
            .filter_map(|o| match o {
                Op::Commit(v, r) => Some(vec![("a committed value".to_string(), v.clone()), ("a commitment's randomness".to_string(), r.clone())]),
                _ => None,
            })
            .flatten()
            .collect(),
        W::G(g, rnd) => {
            let mut k: Vec<(String, FE)> = g.primaries().into_iter().map(|(_, v)| ("a committed value".to_string(), v)).collect();
            for x in rnd.clone().unwrap_or_default() {
                k.push(("the caller's randomness".into(), x));
            }
            k
        }
    };
    let primaries: Vec<usize> = match w {
        W::G(g, Some(_)) => g.primaries().into_iter().map(|x| x.0).collect(),
        _ => vec![],
    };
    let seeds = [Some(ctx.rng.next()), Some(ctx.rng.next()), None];
    let mut all = vec![];
    for sd in seeds.iter() {
        let (p, comms, _, _) = match prove(w, &probe(np, Only::H), *sd) {
            Some(x) => x,
            None => {
                ctx.count("probe_refused", 1);
                return;
            }
        };
        let mut m = vec![];
        for c in carriers(n1, n) {
            m.push((c.to_string(), dl(&json_g1(&p[c]))));
        }
        if let W::G(..) = w {
            for (i, c) in comms.iter().enumerate() {
                if !primaries.contains(&i) {
                    m.push((format!("commitment {}", i), dl(c)));
                }
            }
        }
        all.push(Masks { m });
    }
    if vectors {
        let sd = seeds[0];
        // only if the same entropy gives the same draws
        let a = prove(w, &probe(np, Only::H), sd).map(|x| x.0["S1"].clone());
        let b = prove(w, &probe(np, Only::H), sd).map(|x| x.0["S1"].clone());
        if a.is_some() && a == b {
            let (mut sl, mut sr) = (vec![], vec![]);
            for j in 0..n {
                for left in [true, false].iter() {
                    let o = if *left { Only::Gi(j) } else { Only::Hi(j) };
                    if let Some((p, _, _, _)) = prove(w, &probe(np, o), sd) {
                        let k = if j < n1 { "S1" } else { "S2" };
                        let x = dl(&json_g1(&p[k]));
                        (if *left { &mut sl } else { &mut sr }).push(x);
                    }
                }
            }
            ctx.count("blinding_vector_entries", (sl.len() + sr.len()) as u64);
            progression(ctx, desc, "s_L", &sl);
            progression(ctx, desc, "s_R", &sr);
            // all entries together with the scalar masks of the same proof
            for (i, x) in sl.into_iter().enumerate() {
                all[0].m.push((format!("s_L[{}]", i), x));
            }
            for (i, x) in sr.into_iter().enumerate() {
                all[0].m.push((format!("s_R[{}]", i), x));
            }
            // another proof's entries
            let mut m2 = vec![];
            for j in (0..n).take(3) {
                for o in vec![Only::Gi(j), Only::Hi(j)] {
                    if let Some((p, _, _, _)) = prove(w, &probe(np, o), seeds[1]) {
                        let k = if j < n1 { "S1" } else { "S2" };
                        m2.push((format!("blinding vector entry {}", j), dl(&json_g1(&p[k]))));
                    }
                }
            }
            all[1].m.extend(m2);
        } else {
            ctx.count("uncontrolled_randomness", 1);
        }
    }
    judge(ctx, desc, &all, &known);
}

/// repeated proofs of the same statement with the same supplied randomness share nothing
fn repeat(ctx: &mut Ctx, w: &W, gates: (usize, usize), gn: &Gens, desc: &str) {
    let mut seen: HashMap<String, String> = HashMap::new();
    let primaries: Vec<usize> = match w {
        W::G(g, Some(_)) => g.primaries().into_iter().map(|x| x.0).collect(),
        _ => vec![],
    };
    let seeds = [Some(ctx.rng.next()), Some(ctx.rng.next()), None, None];
    let mut clash = None;
    for (k, sd) in seeds.iter().enumerate() {
        let (p, comms, _, _) = match prove(w, gn, *sd) {
            Some(x) => x,
            None => {
                ctx.check(false, &format!("{} prove", desc), &|| format!("honest proving failed ({})", desc));
                return;
            }
        };
        let mut el: Vec<(String, String)> = vec![];
        for c in carriers(gates.0, gates.1) {
            el.push((c.to_string(), p[c].to_string()));
        }
        if gates.1 > 0 {
            for c in SCALARS.iter() {
                el.push((c.to_string(), p[*c].to_string()));
            }
            el.push(("a".into(), p["ipp_proof"]["a"].to_string()));
            el.push(("b".into(), p["ipp_proof"]["b"].to_string()));
            for l in ["L", "R"].iter() {
                for (i, x) in lr(&p, l).iter().enumerate() {
                    el.push((format!("{}[{}]", l, i), x.to_string()));
                }
            }
        }
        if let W::G(..) = w {
            if *sd != None {
                // auxiliary commitments; under OS entropy the harness hands in the same RNG
                for (i, c) in comms.iter().enumerate() {
                    if !primaries.contains(&i) {
                        el.push((format!("commitment {}", i), g1_json(c).to_string()));
                    }
                }
            }
        }
        for (n, v) in el {
            ctx.count("elements_compared", 1);
            if let Some(o) = seen.insert(v, format!("proof {} {}", k, n)) {
                clash = Some(format!("{} of proof {} equals {}", n, k, o));
            }
        }
    }
    ctx.check(clash.is_none(), &format!("{} repeat", desc), &|| format!("proofs of one statement share an element: {} ({})", clash.clone().unwrap_or_default(), desc));
}

fn case(ctx: &mut Ctx, kind: usize, size: usize, vectors: bool) {
    let mut r = ctx.rng.fork();
    let (w, gates, desc) = if kind < KINDS {
        let gd = gen(&mut r, kind, size);
        let rnd = if r.chance(2, 3) { gd.rnd(&mut r) } else { None };
        let desc = gd.desc();
        let gn = gens(1);
        let mut tr = merlin::Transcript::new(b"size");
        let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
        let mut rng = Rng::new(3);
        let _ = gd.prove_into(None, Some(&mut rng), &mut p);
        let n = p.num_multipliers();
        (W::G(gd, rnd), (n, n), desc)
    } else {
        let cfg = random_cfg(&mut r, size > 2);
        let prog = gen_prog(&mut r, &cfg);
        let gn = gens(pow2((cfg.n1 + cfg.n2 + 2).max(1)) * 2);
        let (_, st) = prove_prog(&prog, &gn, b"hide", &POpts::default());
        let d = prog.desc.clone();
        (W::P(prog), (st.n1, st.gates), d)
    };
    let np = pow2(gates.1.max(1));
    ctx.count(&format!("gates_{}", if gates.1 <= 1 { gates.1 } else { np }), 1);
    if gates.1 > gates.0 {
        ctx.count("two_phase_with_gates", 1);
    }
    if SIM {
        masks_of(ctx, &w, gates, np, &desc, vectors && gates.1 <= 140);
    }
    repeat(ctx, &w, gates, &gens(np), &desc);
}

/// all-zero and all-equal witnesses: masks must not depend on the data
fn degenerate(ctx: &mut Ctx, n1: usize, n2: usize, v: u64) {
    let mut ops = vec![Op::Commit(fe(v), FE::zero())];
    for _ in 0..n1 {
        ops.push(Op::AllocMul(lc_const(fe(v)), lc_const(fe(v))));
    }
    if n2 > 0 {
        let mut inner = vec![];
        for _ in 0..n2 {
            inner.push(Op::AllocMul(lc_const(fe(v)), lc_const(fe(v))));
        }
        ops.push(Op::Rand(std::sync::Arc::new(inner)));
    }
    let desc = format!("{}+{} gates all {}", n1, n2, v);
    let prog = Prog { ops, desc: desc.clone() };
    let w = W::P(prog);
    let np = pow2((n1 + n2).max(1));
    if SIM {
        masks_of(ctx, &w, (n1, n1 + n2), np, &desc, true);
    }
    repeat(ctx, &w, (n1, n1 + n2), &gens(np), &desc);
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Mask monitor: on the simulated group the real prover is run with all generators trivial but one, so that each proof element and \
         auxiliary commitment equals its mask (h only) or one entry of a blinding vector (one G_i or H_i only); the masks of several proofs \
         (seeded and OS entropy) must be full-size, pairwise distinct and free of simple relations. On both groups repeated proofs of one \
         statement must share no element. Distinct by statement, proof and mask.",
    );
    s.assume("a bad random generator of the operating system or of the field library is out of scope");
    s.assume("relations between masks are looked for among: equality, negation, offsets, multiples, squares, inverses, pairwise sums, differences and products, progressions");
    let reps = match (SIM, o.thorough) {
        (true, false) => 24,
        (true, true) => 400,
        (false, false) => 3,
        (false, true) => 40,
    };
    for rep in 0..reps {
        for kind in 0..KINDS + 10 {
            s.add(format!("masks kind {} rep {}", kind, rep), move |c| {
                let size = if SIM { 1 + rep % 4 } else { 1 };
                case(c, kind, size, rep % 3 == 0)
            });
        }
    }
    let ns: Vec<(usize, usize)> = if SIM {
        vec![(1, 0), (2, 0), (3, 0), (4, 0), (0, 1), (1, 1), (0, 3), (3, 2), (8, 0), (9, 7), (16, 16), (33, 3), (64, 0), (100, 10)]
    } else {
        vec![(1, 0), (2, 0), (0, 2), (3, 1)]
    };
    for (a, b) in ns {
        for v in 0..2 {
            s.add(format!("degenerate {} {} {}", a, b, v), move |c| degenerate(c, a, b, v));
        }
    }
    s
}
