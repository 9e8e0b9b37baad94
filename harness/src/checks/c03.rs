//! C03: a proof is bound to every element of it and to its context.
use crate::gadgets::*;
use crate::runner::*;
use crate::subject::*;
use crate::util::*;
use serde_json::Value;
use std::sync::Arc;

/// variations of a point, without the point itself
pub fn points(r: &mut Rng, p: &G1, gn: &Gens) -> Vec<(&'static str, G1)> {
    let two = fe(2);
    let v = vec![
        ("+g", p + &gn.g),
        ("+h", p + &gn.h),
        ("neg", p.negation()),
        ("zero", G1::identity()),
        ("double", p * &two),
        ("random", r.g1()),
        ("-G0", p - &gn.G[0]),
    ];
    v.into_iter().filter(|x| x.1 != *p).collect()
}
pub fn scalars(r: &mut Rng, s: &FE) -> Vec<(&'static str, FE)> {
    let v = vec![
        ("+1", s + &FE::one()),
        ("-1", s - &FE::one()),
        ("neg", s.negation()),
        ("zero", FE::zero()),
        ("+2^k", s + &fe_pow2(r.range(1, 250))),
        ("random", r.fe()),
    ];
    v.into_iter().filter(|x| x.1 != *s).collect()
}
fn some<T>(r: &mut Rng, mut v: Vec<T>, cap: usize) -> Vec<T> {
    if v.len() > cap {
        r.shuffle(&mut v);
        v.truncate(cap);
    }
    v
}

pub fn tamper(ctx: &mut Ctx, s: &Subj, cap: usize, pos_cap: usize) {
    let mut r = ctx.rng.fork();
    let kind = match &s.what {
        What::G(g) => g.name(),
        _ => "prog".to_string(),
    };
    let ok = s.verify();
    if !ctx.check(ok.is_ok(), &format!("{} honest {}", kind, s.desc), &|| format!("honest proof rejected: {:?} {}", ok, s.desc)) {
        return;
    }
    let mut rej = |ctx: &mut Ctx, p: &Value, comms: &[G1], label: &'static [u8], gn: &Gens, sig: String| {
        let v = match ctx.total(&sig, || s.verify_with(p, comms, label, gn)) {
            Some(v) => v,
            None => return,
        };
        ctx.count("tampered_proofs", 1);
        ctx.check(v.is_err(), &format!("{} {} {}", kind, s.desc, sig), &|| format!("accepted after change: {} ({})", sig, s.desc));
    };
    let (comms, label, gn) = (&s.comms, s.label, &s.gn);
    // proof elements
    for name in POINTS.iter() {
        let orig = json_g1(&s.proof[*name]);
        let c = points(&mut r, &orig, gn);
        for (how, p) in some(&mut r, c, cap) {
            let mut q = s.proof.clone();
            q[*name] = g1_json(&p);
            rej(ctx, &q, comms, label, gn, format!("{} {}", name, how));
        }
    }
    for name in SCALARS.iter() {
        let orig = json_fe(&s.proof[*name]);
        let c = scalars(&mut r, &orig);
        for (how, p) in some(&mut r, c, cap) {
            let mut q = s.proof.clone();
            q[*name] = fe_json(&p);
            rej(ctx, &q, comms, label, gn, format!("{} {}", name, how));
        }
    }
    for name in ["a", "b"].iter() {
        let orig = json_fe(&s.proof["ipp_proof"][*name]);
        let c = scalars(&mut r, &orig);
        for (how, p) in some(&mut r, c, cap) {
            let mut q = s.proof.clone();
            q["ipp_proof"][*name] = fe_json(&p);
            rej(ctx, &q, comms, label, gn, format!("ipp {} {}", name, how));
        }
    }
    // pairs whose change could cancel
    {
        let mut q = s.proof.clone();
        let (a, b) = (json_fe(&q["ipp_proof"]["a"]), json_fe(&q["ipp_proof"]["b"]));
        if !(a.is_zero() && b.is_zero()) {
            q["ipp_proof"]["a"] = fe_json(&a.negation());
            q["ipp_proof"]["b"] = fe_json(&b.negation());
            rej(ctx, &q, comms, label, gn, "ipp a,b negated".into());
            if a != b {
                let mut q = s.proof.clone();
                q["ipp_proof"]["a"] = fe_json(&b);
                q["ipp_proof"]["b"] = fe_json(&a);
                rej(ctx, &q, comms, label, gn, "ipp a,b swapped".into());
            }
        }
        for (x, y) in some(&mut r, vec![("T_1", "T_3"), ("T_3", "T_4"), ("T_4", "T_5"), ("T_5", "T_6"), ("A_I1", "A_O1"), ("A_I1", "A_I2"), ("A_O1", "A_O2"), ("S1", "S2"), ("A_O1", "S1"), ("A_I1", "S1")], cap * 3) {
            if s.proof[x] != s.proof[y] && json_g1(&s.proof[x]) != json_g1(&s.proof[y]) {
                let mut q = s.proof.clone();
                q[x] = s.proof[y].clone();
                q[y] = s.proof[x].clone();
                rej(ctx, &q, comms, label, gn, format!("{} and {} swapped", x, y));
            }
        }
        // one phase's commitments shifted into the other's
        for base in ["A_I", "A_O", "S"].iter() {
            let (k1, k2) = (format!("{}1", base), format!("{}2", base));
            let d = r.g1();
            let mut q = s.proof.clone();
            q[&k1] = g1_json(&(json_g1(&s.proof[&k1]) + &d));
            q[&k2] = g1_json(&(json_g1(&s.proof[&k2]) - &d));
            rej(ctx, &q, comms, label, gn, format!("{} moved from one phase to the other", base));
        }
        // blindings moved
        let d = r.fe_nonzero();
        let mut q = s.proof.clone();
        q["t_x_blinding"] = fe_json(&(&json_fe(&q["t_x_blinding"]) + &d));
        q["e_blinding"] = fe_json(&(&json_fe(&q["e_blinding"]) - &d));
        rej(ctx, &q, comms, label, gn, "blinding moved between the scalars".into());
    }
    // inner product rounds
    let k = rounds(&s.proof);
    let pos: Vec<usize> = some(&mut r, (0..k).collect(), pos_cap);
    for i in pos.iter().cloned() {
        for w in ["L", "R"].iter() {
            let orig = json_g1(&lr(&s.proof, w)[i]);
            let c = points(&mut r, &orig, gn);
            for (how, p) in some(&mut r, c, cap.min(3)) {
                let mut q = s.proof.clone();
                lr_mut(&mut q, w)[i] = g1_json(&p);
                rej(ctx, &q, comms, label, gn, format!("{}[{}] {}", w, i, how));
            }
        }
        let (l, rr) = (lr(&s.proof, "L")[i].clone(), lr(&s.proof, "R")[i].clone());
        if json_g1(&l) != json_g1(&rr) {
            let mut q = s.proof.clone();
            lr_mut(&mut q, "L")[i] = rr.clone();
            lr_mut(&mut q, "R")[i] = l.clone();
            rej(ctx, &q, comms, label, gn, format!("L[{0}] and R[{0}] swapped", i));
        }
        for what in 0..4 {
            let mut q = s.proof.clone();
            for w in ["L", "R"].iter() {
                let v = lr_mut(&mut q, w);
                match what {
                    0 => {
                        v.remove(i);
                    }
                    1 => {
                        let x = v[i].clone();
                        v.insert(i, x);
                    }
                    2 => v.insert(i, g1_json(&G1::identity())),
                    _ => {
                        if i + 1 < k {
                            v.swap(i, i + 1);
                        }
                    }
                }
            }
            if lr(&q, "L") != lr(&s.proof, "L") || lr(&q, "R") != lr(&s.proof, "R") {
                rej(ctx, &q, comms, label, gn, format!("round {} {}", i, ["dropped", "duplicated", "identity round inserted", "swapped with the next"][what]));
            }
        }
    }
    for (kl, kr) in vec![(1, 1), (1, 0), (0, 1)] {
        for idp in 0..2 {
            let x = if idp == 0 { G1::identity() } else { r.g1() };
            let mut q = s.proof.clone();
            for _ in 0..kl {
                lr_mut(&mut q, "L").push(g1_json(&x));
            }
            for _ in 0..kr {
                lr_mut(&mut q, "R").push(g1_json(&x));
            }
            rej(ctx, &q, comms, label, gn, format!("appended {} L and {} R", kl, kr));
        }
    }
    // context: label
    for l in LABELS.iter() {
        if *l != label {
            rej(ctx, &s.proof, comms, l, gn, format!("label {:?}", std::str::from_utf8(l)));
        }
    }
    // commitments
    let m = comms.len();
    for i in some(&mut r, (0..m).collect(), pos_cap) {
        let c = points(&mut r, &comms[i], gn);
        for (how, p) in some(&mut r, c, cap.min(3)) {
            let mut c = comms.clone();
            c[i] = p;
            rej(ctx, &s.proof, &c, label, gn, format!("commitment {} {}", i, how));
        }
        let j = r.below(m);
        if comms[i] != comms[j] {
            let mut c = comms.clone();
            c.swap(i, j);
            rej(ctx, &s.proof, &c, label, gn, format!("commitments {} and {} swapped", i, j));
        }
        if s.is_gadget() {
            let mut c = comms.clone();
            c.remove(i);
            rej(ctx, &s.proof, &c, label, gn, format!("commitment {} missing", i));
            let mut c = comms.clone();
            c.insert(i, r.g1());
            rej(ctx, &s.proof, &c, label, gn, format!("commitment inserted at {}", i));
        }
    }
    if s.is_gadget() {
        for x in vec![G1::identity(), r.g1(), comms[m - 1].clone()] {
            let mut c = comms.clone();
            c.push(x);
            rej(ctx, &s.proof, &c, label, gn, "commitment appended".into());
        }
    }
    // a shift of two commitments that keeps their sum
    if m >= 2 {
        let (i, j) = (r.below(m), r.below(m));
        if i != j {
            let d = r.g1();
            let mut c = comms.clone();
            c[i] = &c[i] + &d;
            c[j] = &c[j] - &d;
            rej(ctx, &s.proof, &c, label, gn, format!("commitments {} and {} shifted against each other", i, j));
        }
    }
    // generators
    if s.n >= 1 {
        for which in 0..2 {
            let mut g2 = gn.clone();
            let x = r.g1();
            if which == 0 {
                g2.g = x;
            } else {
                g2.h = x;
            }
            rej(ctx, &s.proof, comms, label, &g2, format!("other {}", ["g", "h"][which]));
        }
        let np = pow2(s.n);
        for i in some(&mut r, (0..np).collect(), pos_cap) {
            for which in 0..2 {
                let mut g2 = gn.clone();
                let x = r.g1();
                let v = if which == 0 { &mut g2.G } else { &mut g2.H };
                *v = vec_from(&v.iter().enumerate().map(|(j, y)| if j == i { x.clone() } else { y.clone() }).collect::<Vec<_>>());
                rej(ctx, &s.proof, comms, label, &g2, format!("other {}[{}]", ["G", "H"][which], i));
            }
        }
        let mut g2 = gn.clone();
        std::mem::swap(&mut g2.g, &mut g2.h);
        rej(ctx, &s.proof, comms, label, &g2, "g and h swapped".into());
        let mut g2 = gn.clone();
        std::mem::swap(&mut g2.G, &mut g2.H);
        rej(ctx, &s.proof, comms, label, &g2, "G and H swapped".into());
    }
    // other statements the witness does not satisfy
    if let What::G(gd) = &s.what {
        for (how, other) in others(&mut r, gd) {
            let v = match ctx.total(&how, || other.verify(&jp(&s.proof), comms, label, &gens(np_of(&other).max(pow2(s.n))))) {
                Some(v) => v,
                None => continue,
            };
            ctx.count("other_statements", 1);
            ctx.check(v.is_err(), &format!("{} {} other: {}", kind, s.desc, how), &|| format!("proof of {} accepted for another statement: {}", s.desc, how));
        }
    }
}
fn np_of(g: &Gd) -> usize {
    guard(|| g.size()).unwrap_or(1)
}
/// false statements near a true one
fn others(r: &mut Rng, gd: &Gd) -> Vec<(String, Gd)> {
    let mut out = vec![];
    match gd {
        Gd::Bound { v, lo, hi, n } => {
            if *v < u64::max_value() {
                out.push(("lower bound above the value".to_string(), Gd::Bound { v: *v, lo: *v + 1, hi: (*hi).max(*v + 1), n: *n }));
            }
            if *v > *lo {
                out.push(("upper bound below the value".to_string(), Gd::Bound { v: *v, lo: *lo, hi: *v - 1, n: *n }));
            }
        }
        Gd::Set { v, set } => {
            let s2: Vec<FE> = set.iter().map(|x| if x == v { x + &FE::one() } else { x.clone() }).filter(|x| x != v).collect();
            if s2.len() == set.len() {
                out.push(("value removed from the set".into(), Gd::Set { v: v.clone(), set: s2 }));
            }
        }
        Gd::SetAlt { v, set } => {
            for i in 0..set.len() {
                if set[i] == *v {
                    let mut s2 = set.clone();
                    s2[i] = loop {
                        let x = r.next() % 1000;
                        if !set.contains(&x) {
                            break x;
                        }
                    };
                    out.push(("value removed from the set".into(), Gd::SetAlt { v: *v, set: s2 }));
                }
            }
        }
        Gd::NonMember { v, set } => {
            let i = r.below(set.len());
            let mut s2 = set.clone();
            s2[i] = v.clone();
            out.push((format!("value put into the set at {}", i), Gd::NonMember { v: v.clone(), set: s2 }));
        }
        Gd::Mimc { inp, out: o, consts, rounds } => {
            out.push(("other image".into(), Gd::Mimc { inp: inp.clone(), out: o + &FE::one(), consts: consts.clone(), rounds: *rounds }));
            let mut c2 = (**consts).clone();
            let i = r.below(*rounds);
            c2[i] = &c2[i] + &FE::one();
            if ref_mimc(inp, &c2, *rounds) != *o {
                out.push((format!("other round constant {}", i), Gd::Mimc { inp: inp.clone(), out: o.clone(), consts: Arc::new(c2), rounds: *rounds }));
            }
            if *rounds > 1 && ref_mimc(inp, consts, rounds - 1) != *o {
                out.push(("one round less".into(), Gd::Mimc { inp: inp.clone(), out: o.clone(), consts: consts.clone(), rounds: rounds - 1 }));
            }
        }
        Gd::Poseidon { inp, out: o, params: p, sbox } => {
            out.push(("other image".into(), Gd::Poseidon { inp: inp.clone(), out: o + &FE::one(), params: p.clone(), sbox: *sbox }));
            for sb in [SboxType::Cube, SboxType::Inverse, SboxType::Quint].iter() {
                if ref_hash(inp, p, sb) != *o {
                    out.push((format!("S-box {:?}", sb), Gd::Poseidon { inp: inp.clone(), out: o.clone(), params: p.clone(), sbox: *sb }));
                }
            }
            let p2 = params(p.width, p.full_rounds_beginning, p.full_rounds_end, p.partial_rounds + 1);
            out.push(("one partial round more".into(), Gd::Poseidon { inp: inp.clone(), out: o.clone(), params: p2, sbox: *sbox }));
        }
        Gd::Merkle4 { leaf, idx, path, root, depth, params } => {
            let root2 = root + &FE::one();
            out.push(("other root".into(), Gd::Merkle4 { leaf: leaf.clone(), idx: idx.clone(), path: path.clone(), root: root2, depth: *depth, params: params.clone() }));
        }
        Gd::Merkle8 { leaf, idx, path, root, depth, params } => {
            let root2 = root + &FE::one();
            out.push(("other root".into(), Gd::Merkle8 { leaf: leaf.clone(), idx: idx.clone(), path: path.clone(), root: root2, depth: *depth, params: params.clone() }));
        }
        Gd::Hamming { orig, new, count } => {
            out.push(("count + 1".into(), Gd::Hamming { orig: orig.clone(), new: new.clone(), count: count + 1 }));
            if *count > 0 {
                out.push(("count - 1".into(), Gd::Hamming { orig: orig.clone(), new: new.clone(), count: count - 1 }));
            }
            let i = r.below(new.len());
            let mut n2 = new.clone();
            n2[i] = if orig[i] == new[i] { &orig[i] + &FE::one() } else { orig[i].clone() };
            out.push((format!("new vector changed at {}", i), Gd::Hamming { orig: orig.clone(), new: n2, count: *count }));
        }
        Gd::Randomizer(z) => {
            let mut z2 = z.clone();
            let n = 4u64.pow(z.depth as u32);
            let others: Vec<u64> = (0..n).filter(|i| !z.idx.contains(&fe(*i))).collect();
            if !others.is_empty() {
                let i = *r.pick(&others);
                z2.new.push((fe(i), r.fe()));
                out.push((format!("new tree also changed at {}", i), Gd::Randomizer(z2)));
            }
        }
        _ => {}
    }
    out
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "A case proves a random statement (constraint program or gadget), checks that the proof is accepted, and then \
         applies single changes - every proof point and scalar, every inner-product round, every commitment, label, \
         generators, near-by false statements - each of which must be rejected. Distinct by statement and change.",
    );
    s.assume("changes that leave the element equal are skipped; generators not entering the proof are not changed");
    let reps = match (SIM, o.thorough) {
        (true, false) => 20,
        (true, true) => 400,
        (false, false) => 4,
        (false, true) => 40,
    };
    for rep in 0..reps {
        for kind in 0..KINDS + 4 {
            s.add(format!("tamper kind {} rep {}", kind, rep), move |c| {
                let size = if SIM { c.rng.range(1, 3) } else { 1 };
                let mut r = c.rng.fork();
                let sj = match any_subj(&mut r, kind, size) {
                    Ok(s) => s,
                    Err(e) => {
                        c.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
                        return;
                    }
                };
                if SIM {
                    tamper(c, &sj, 7, 12)
                } else {
                    tamper(c, &sj, 1, 2)
                }
            });
        }
    }
    // tiny circuits: with zero or one gate there are no rounds
    for n1 in 0..3 {
        for n2 in 0..3 {
            for m in 0..3 {
                if SIM || (n1 + n2 + m) % 3 == 0 || o.thorough {
                    s.add(format!("tiny {} {} {}", n1, n2, m), move |c| {
                        let mut r = c.rng.fork();
                        let cfg = crate::prog::GenCfg { commits: m, n1, n2, constraints: 1, callbacks: if n2 > 0 { 1 } else { 0 }, max_terms: 3 };
                        match prog_subj(&mut r, &cfg, b"tiny") {
                            Ok(sj) => tamper(c, &sj, if SIM { 7 } else { 2 }, 8),
                            Err(e) => {
                                c.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
                            }
                        }
                    });
                }
            }
        }
    }
    s
}
