//! C04: verification is total.
use crate::gadgets::*;
use crate::prog::*;
use crate::refp::*;
use crate::runner::*;
use crate::subject::*;
use crate::util::*;
use bulletproofs_amcl::ipp::IPP;
use merlin::Transcript;
use serde_json::Value;

fn rand_point(r: &mut Rng) -> G1 {
    match r.below(4) {
        0 => G1::identity(),
        1 => G1::generator(),
        _ => r.g1(),
    }
}
fn rand_proof(r: &mut Rng, l: usize, rr: usize) -> Value {
    let mut p = blank(0);
    let mode = r.below(3);
    for k in POINTS.iter() {
        p[*k] = g1_json(&if mode == 0 { G1::identity() } else { rand_point(r) });
    }
    for k in SCALARS.iter() {
        p[*k] = fe_json(&if mode == 0 { FE::zero() } else { r.fe_mixed() });
    }
    for k in ["a", "b"].iter() {
        p["ipp_proof"][*k] = fe_json(&if mode == 0 { FE::zero() } else { r.fe_mixed() });
    }
    for _ in 0..l {
        let x = if mode == 0 { G1::identity() } else { rand_point(r) };
        lr_mut(&mut p, "L").push(g1_json(&x));
    }
    for _ in 0..rr {
        let x = if mode == 0 { G1::identity() } else { rand_point(r) };
        lr_mut(&mut p, "R").push(g1_json(&x));
    }
    p
}
fn resize(v: &mut Vec<Value>, n: usize, r: &mut Rng) {
    while v.len() > n {
        let i = r.below(v.len());
        v.remove(i);
    }
    while v.len() < n {
        v.push(g1_json(&rand_point(r)));
    }
}
fn cut(g: &Gens, a: usize, b: usize) -> Gens {
    Gens {
        g: g.g.clone(),
        h: g.h.clone(),
        G: vec_from(&g.G.iter().take(a).cloned().collect::<Vec<_>>()),
        H: vec_from(&g.H.iter().take(b).cloned().collect::<Vec<_>>()),
    }
}

fn malformed(ctx: &mut Ctx, s: &Subj, n_rand: usize, dense: bool) {
    let mut r = ctx.rng.fork();
    let k = rounds(&s.proof);
    let kind = match &s.what {
        What::G(g) => g.name(),
        _ => "prog".into(),
    };
    let must_err = |ctx: &mut Ctx, p: &Value, c: &[G1], gn: &Gens, sig: String| {
        let v = match ctx.total(&format!("{} {}", kind, sig), || s.verify_with(p, c, s.label, gn)) {
            Some(v) => v,
            None => return,
        };
        ctx.count("malformed_inputs", 1);
        ctx.check(v.is_err(), &format!("{} {} {}", kind, s.desc, sig), &|| format!("malformed input accepted: {} ({})", sig, s.desc));
    };
    // numbers of rounds, L and R independently
    let mut lens: Vec<usize> = (0..k + 4).collect();
    lens.extend_from_slice(&[31, 32, 33, 63, 64, 65, 100]);
    for a in &lens {
        for b in &lens {
            if (*a, *b) == (k, k) {
                continue;
            }
            let near = *a <= k + 3 && *b <= k + 3;
            if !(near && dense || a == b || r.chance(1, if dense { 4 } else { 12 })) {
                continue;
            }
            let mut q = s.proof.clone();
            resize(lr_mut(&mut q, "L"), *a, &mut r);
            resize(lr_mut(&mut q, "R"), *b, &mut r);
            must_err(ctx, &q, &s.comms, &s.gn, format!("{} L, {} R instead of {}", a, b, k));
        }
    }
    // arbitrary contents
    for i in 0..n_rand {
        let (a, b) = if r.chance(2, 3) { (k, k) } else { (r.range(0, k + 2), r.range(0, k + 2)) };
        let q = rand_proof(&mut r, a, b);
        let c: Vec<G1> = s.comms.iter().map(|x| if r.chance(1, 2) { x.clone() } else { rand_point(&mut r) }).collect();
        must_err(ctx, &q, &c, &s.gn, format!("arbitrary proof {}", i));
    }
    // wrong numbers of commitments
    if s.is_gadget() {
        let m = s.comms.len();
        let mut ls: Vec<usize> = (0..=m + 3).collect();
        if !dense && ls.len() > 8 {
            r.shuffle(&mut ls);
            ls.truncate(8);
        }
        ls.push(0);
        for l in ls {
            if l == m {
                continue;
            }
            let mut c = s.comms.clone();
            while c.len() > l {
                if r.chance(1, 2) {
                    c.remove(0);
                } else {
                    c.pop();
                }
            }
            while c.len() < l {
                c.push(rand_point(&mut r));
            }
            must_err(ctx, &s.proof, &c, &s.gn, format!("{} commitments instead of {}", l, m));
            let q = rand_proof(&mut r, k, k);
            must_err(ctx, &q, &c, &s.gn, format!("arbitrary proof, {} commitments instead of {}", l, m));
        }
    }
    // short generator vectors
    let np = pow2(s.n);
    let mut cuts = vec![(np - 1, np), (np, np - 1), (np - 1, np - 1), (0, 0), (0, np), (np, 0), (np / 2, np), (np, np / 2)];
    cuts.push((r.below(np), r.below(np)));
    cuts.sort();
    cuts.dedup();
    for (a, b) in cuts {
        if a >= np && b >= np {
            continue;
        }
        let gn = cut(&s.gn, a, b);
        let sig = format!("verify with {} G and {} H for {}", a, b, np);
        if let Some(v) = ctx.total(&format!("{} {}", kind, sig), || s.verify_with(&s.proof, &s.comms, s.label, &gn)) {
            ctx.count("short_generators", 1);
            ctx.check(v == Err(R1CSError::InvalidGeneratorsLength), &format!("{} {} {}", kind, s.desc, sig), &|| format!("{}: {:?} ({})", sig, v, s.desc));
        }
        let sig = format!("prove with {} G and {} H for {}", a, b, np);
        let res = ctx.total(&format!("{} {}", kind, sig), || match &s.what {
            What::P(p) => prove_prog(p, &gn, s.label, &POpts::default()).0.map(|_| ()),
            What::G(g) => {
                let mut rr = Rng::new(5);
                g.prove(None, Some(&mut rr), s.label, &gn).map(|_| ())
            }
        });
        if let Some(v) = res {
            ctx.count("short_generators", 1);
            ctx.check(v == Err(R1CSError::InvalidGeneratorsLength), &format!("{} {} {}", kind, s.desc, sig), &|| format!("{}: {:?} ({})", sig, v, s.desc));
        }
    }
}

/// proofs, commitments and statements of different kinds mixed
fn mixed(ctx: &mut Ctx, size: usize) {
    let mut r = ctx.rng.fork();
    let mut subs = vec![];
    for _ in 0..4 {
        let k = r.below(KINDS + 1);
        if let Ok(s) = any_subj(&mut r, k, size) {
            subs.push(s);
        }
    }
    for i in 0..subs.len() {
        for j in 0..subs.len() {
            if i == j || !subs[i].is_gadget() {
                continue;
            }
            if ptext(&jp(&subs[i].proof)) == ptext(&jp(&subs[j].proof)) {
                continue;
            }
            let (a, b) = (&subs[i], &subs[j]);
            let gn = gens(pow2(a.n.max(b.n)));
            for (what, c) in vec![("own", &a.comms), ("foreign", &b.comms)] {
                let sig = format!("proof of [{}] for [{}] with {} commitments", b.desc, a.desc, what);
                if let Some(v) = ctx.total(&sig, || a.verify_with(&b.proof, c, a.label, &gn)) {
                    ctx.count("mixed", 1);
                    ctx.check(v.is_err(), &sig, &|| format!("accepted: {}", sig));
                }
            }
        }
    }
}

fn ipp(ctx: &mut Ctx, n_cases: usize) {
    let mut r = ctx.rng.fork();
    for i in 0..n_cases {
        let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 1 << 32, usize::max_value()]);
        let pick = |r: &mut Rng| if n < 64 && r.chance(3, 4) { n } else { r.range(0, 9) };
        let (gl, hl, gf, hf) = (pick(&mut r), pick(&mut r), pick(&mut r), pick(&mut r));
        let kk = if n > 0 && n < 64 { n.trailing_zeros() as usize } else { 2 };
        let lens = [0usize, 1, 2, 3, 5, 31, 32, 33, 63, 64, 65];
        let ll = if r.chance(2, 3) { kk } else { *r.pick(&lens) };
        let rl = if r.chance(2, 3) { ll } else { *r.pick(&lens) };
        let g = gens(16);
        let mut vecf = |k: usize| -> FieldElementVector { (0..k).map(|_| r.fe_mixed()).collect::<Vec<_>>().into() };
        let (gfv, hfv) = (vecf(gf), vecf(hf));
        let pts = |r: &mut Rng, k: usize| -> G1Vector { (0..k).map(|_| rand_point(r)).collect::<Vec<_>>().into() };
        let (lv, rv) = (pts(&mut r, ll), pts(&mut r, rl));
        let (gv, hv) = (cut(&g, gl, hl).G, cut(&g, gl, hl).H);
        let (p, q, a, b) = (r.g1(), r.g1(), r.fe_mixed(), r.fe_mixed());
        let sig = format!("verify_ipp n={} |G|={} |H|={} factors {} {} L {} R {}", n, gl, hl, gf, hf, ll, rl);
        let res = ctx.total(&sig, || {
            let mut t = Transcript::new(b"ipp");
            IPP::verify_ipp(n, &mut t, &gfv, &hfv, &p, &q, &gv, &hv, &a, &b, &lv, &rv)
        });
        if let Some(v) = res {
            ctx.count("ipp_inputs", 1);
            ctx.check(v.is_err(), &format!("{} {}", sig, i), &|| format!("accepted: {}", sig));
        }
        let sig = format!("verification_scalars n={} L {} R {}", n, ll, rl);
        // a caller that asks for 2^31 gates gets the memory for them; not a question of totality
        let n = if n > 64 { 64 } else { n };
        ctx.total(&sig, || {
            let mut t = Transcript::new(b"ipp");
            IPP::verification_scalars(&lv, &rv, n, &mut t).map(|_| ())
        });
    }
}

macro_rules! native {
    ($ctx:expr, $r:expr, $tree:ident, $params:expr, $arity:expr, $kids:expr) => {{
        let d = $r.range(1, 3);
        let n = ($arity as u64).pow(d as u32);
        let cont: Vec<(FE, FE)> = (0..3).map(|_| (fe($r.next() % n), $r.fe())).collect();
        let (t, db) = $tree(&$params, d, &cont);
        let idx = cont[0].0.clone();
        let mut pr = Some(vec![]);
        let val = t.get(&idx, &mut pr, &db).expect("get");
        let path = pr.unwrap();
        for len in (0..=d + 4).chain(vec![40]) {
            let mut p = path.clone();
            while p.len() > len {
                if $r.chance(1, 2) {
                    p.remove(0);
                } else {
                    p.pop();
                }
            }
            while p.len() < len {
                let x = path[$r.below(d)].clone();
                p.push(x);
            }
            if len == d {
                continue;
            }
            for root in vec![None, Some(t.root.clone()), Some(val.clone())] {
                // with no path at all the value itself is the root; the tree has a depth, so refuse
                for i in vec![idx.clone(), $r.fe(), FE::minus_one()] {
                    let sig = format!("verify_proof {}-ary depth {} with {} nodes", $arity, d, len);
                    if let Some(v) = $ctx.total(&sig, || t.verify_proof(&i, &val, &p, root.as_ref())) {
                        $ctx.count("native_merkle", 1);
                        $ctx.check(!v, &format!("{} {} {}", sig, shex(&i), root.is_some()), &|| format!("accepted: {}", sig));
                    }
                }
            }
        }
    }};
}

/// nodes missing in the store: an error, on every entry point that reads it
fn missing_nodes(ctx: &mut Ctx) {
    use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
    let mut r = ctx.rng.fork();
    let z = match gen(&mut r, 10, 2) {
        Gd::Randomizer(z) => z,
        _ => unreachable!(),
    };
    let sj = match gadget_subj(&mut r, Gd::Randomizer(z.clone()), b"m") {
        Ok(s) => s,
        Err(e) => {
            ctx.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
            return;
        }
    };
    let gn = &sj.gn;
    let (t, db) = tree4(&z.params, z.depth, &z.orig);
    let (mut nt, mut ndb) = tree4(&z.params, z.depth, &z.new);
    let vals: Vec<FE> = z.idx.iter().map(|i| t.get(i, &mut None, &db).expect("get")).collect();
    let mut e1 = Db4::new();
    let e2 = Db4::new();
    let err = |v: &Result<(), R1CSError>| match v {
        Err(R1CSError::HashNotFoundInDB { .. }) => true,
        _ => false,
    };
    if let Some(v) = ctx.total("verify randomizer, empty store", || {
        verify_proof_for_randomizer(&mut nt, &mut e1, &z.idx, z.depth, &z.params, &SB, jp(&sj.proof), sj.comms.clone(), b"m", &gn.g, &gn.h, &gn.G, &gn.H)
    }) {
        ctx.check(err(&v), "verify randomizer, empty store", &|| format!("{:?}", v));
    }
    if let Some(v) = ctx.total("prove randomizer, empty new store", || {
        gen_proof_for_randomizer(&t, &db, &mut nt, &mut e1, &z.idx, &vals, z.depth, &z.params, &SB, b"m", &gn.g, &gn.h, &gn.G, &gn.H).map(|_| ())
    }) {
        ctx.check(err(&v), "prove randomizer, empty new store", &|| format!("{:?}", v));
    }
    if let Some(v) = ctx.total("prove randomizer, empty original store", || {
        gen_proof_for_randomizer(&t, &e2, &mut nt, &mut ndb, &z.idx, &vals, z.depth, &z.params, &SB, b"m", &gn.g, &gn.h, &gn.G, &gn.H).map(|_| ())
    }) {
        ctx.check(err(&v), "prove randomizer, empty original store", &|| format!("{:?}", v));
    }
    let mut t2 = t.clone();
    if let Some(v) = ctx.total("tree update, empty store", || t2.update(&z.idx[0], FE::one(), &mut e1).map(|_| ())) {
        ctx.check(err(&v), "tree update, empty store", &|| format!("{:?}", v));
    }
    if let Some(v) = ctx.total("tree get, empty store", || t.get(&z.idx[0], &mut None, &e2).map(|_| ())) {
        ctx.check(err(&v), "tree get, empty store", &|| format!("{:?}", v));
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "A case feeds malformed but well-typed input to a verification entry point (round counts for L and R \
         independently, arbitrary points and scalars, wrong commitment counts, mixed-up proofs, short generator \
         vectors, wrong Merkle path lengths) and observes that it returns an error rather than accepting or panicking. \
         Distinct by entry point, statement and malformation.",
    );
    s.assume("public parameters (sets, bounds, round constants, trees) are well-formed; proofs and commitments are arbitrary");
    let reps = match (SIM, o.thorough) {
        (true, false) => 24,
        (true, true) => 400,
        (false, false) => 5,
        (false, true) => 50,
    };
    for rep in 0..reps {
        for kind in 0..KINDS + 3 {
            s.add(format!("malformed kind {} rep {}", kind, rep), move |c| {
                let size = if SIM { c.rng.range(1, 2) } else { 1 };
                let mut r = c.rng.fork();
                match any_subj(&mut r, kind, size) {
                    Ok(sj) => malformed(c, &sj, if SIM { 20 } else { 4 }, SIM),
                    Err(e) => {
                        c.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
                    }
                }
            });
        }
        s.add(format!("missing nodes {}", rep), |c| missing_nodes(c));
        s.add(format!("mixed {}", rep), move |c| mixed(c, 1));
        s.add(format!("ipp {}", rep), move |c| ipp(c, if SIM { 200 } else { 30 }));
        s.add(format!("native merkle {}", rep), move |c| {
            let mut r = c.rng.fork();
            let p4 = params(5, 1, 1, 1);
            native!(c, r, tree4, p4, 4, 3);
            let p8 = params(9, 1, 1, 1);
            native!(c, r, tree8, p8, 8, 7);
        });
    }
    // every tiny program
    for n1 in 0..4 {
        for n2 in 0..3 {
            s.add(format!("tiny {} {}", n1, n2), move |c| {
                let mut r = c.rng.fork();
                let m = r.range(0, 2);
                let cfg = GenCfg { commits: m, n1, n2, constraints: 1, callbacks: if n2 > 0 { 1 } else { 0 }, max_terms: 3 };
                match prog_subj(&mut r, &cfg, b"tiny") {
                    Ok(sj) => malformed(c, &sj, 10, SIM),
                    Err(e) => {
                        c.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
                    }
                }
            });
        }
    }
    s
}
