//! C02: unsatisfied statements are rejected.
use crate::mock::*;
use crate::prog::*;
use crate::refp::*;
use crate::runner::*;
use crate::util::*;
use serde_json::Value;
use std::sync::Arc;

pub fn prove_ok(ctx: &mut Ctx, prog: &Prog, gn: &Gens, label: &'static [u8], po: &POpts) -> Option<(Proved, St)> {
    let (p, st) = prove_prog(prog, gn, label, po);
    match p {
        Ok(p) => Some((p, st)),
        Err(e) => {
            // proving may refuse a false statement; that is no acceptance
            ctx.count("prover_refused", 1);
            let _ = e;
            None
        }
    }
}
fn expect_reject(ctx: &mut Ctx, prog: &Prog, gn: &Gens, p: &Proved, sig: &str, what: &str) {
    let (v, _) = verify_prog(prog, gn, L, &p.proof, &p.comms, false);
    ctx.count("rejections_checked", 1);
    ctx.check(v.is_err(), sig, &|| format!("accepted a false statement: {} ({})", what, prog.desc));
}
const L: &[u8] = b"c02";

fn delta(r: &mut Rng) -> FE {
    match r.below(4) {
        0 => FE::one(),
        1 => FE::minus_one(),
        2 => fe_pow2(r.range(0, 250)),
        _ => r.fe_nonzero(),
    }
}

/// every constraint of a random program, one at a time
fn sweep(ctx: &mut Ctx, cfg: &GenCfg, cap: usize) {
    let mut r = ctx.rng.fork();
    let prog = gen_prog(&mut r, cfg);
    let gn = gens(pow2((cfg.n1 + cfg.n2 + 2).max(1)) * 2);
    let honest = match prove_ok(ctx, &prog, &gn, L, &POpts::default()) {
        Some(x) => x,
        None => return,
    };
    let mut paths = constrain_paths(&prog.ops);
    if paths.len() > cap {
        r.shuffle(&mut paths);
        paths.truncate(cap);
    }
    for path in &paths {
        let ph = if path.len() > 1 { 2 } else { 1 };
        let d = delta(&mut r);
        let bad = with_const(&prog, path, &d);
        expect_reject(ctx, &bad, &gn, &honest.0, &format!("vconst p{} {:?}", ph, path), "verifier has another constant");
        if let Some((p, st)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
            if st.evals.iter().any(|e| !e.is_zero()) {
                expect_reject(ctx, &bad, &gn, &p, &format!("const p{} {:?}", ph, path), "constant off in one constraint");
            }
        }
        // one coefficient off, on both sides
        let nt = match op_at(&prog.ops, path) {
            Op::Constrain(l) => l.t.len(),
            _ => 0,
        };
        if nt > 0 {
            let k = r.below(nt);
            let d = delta(&mut r);
            let bad = Prog {
                ops: edit_at(&prog.ops, path, &mut |v, i| {
                    if let Op::Constrain(l) = &v[i] {
                        let mut l = l.clone();
                        let t = (l.t[k].0, Coef::K(d.clone()));
                        l.t.insert(k, t);
                        v[i] = Op::Constrain(l);
                    }
                }),
                desc: prog.desc.clone(),
            };
            if let Some((p, st)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
                if st.evals.iter().any(|e| !e.is_zero()) {
                    expect_reject(ctx, &bad, &gn, &p, &format!("coef p{} {:?} {}", ph, path, k), "coefficient off in one constraint");
                    // and the verifier with the wrong system against the honest proof
                    expect_reject(ctx, &bad, &gn, &honest.0, &format!("vcoef p{} {:?} {}", ph, path, k), "verifier has another coefficient");
                }
            }
        }
    }
    if HOOKS {
        let n = honest.1.gates;
        let mut idx: Vec<usize> = (0..n).collect();
        if n > cap {
            r.shuffle(&mut idx);
            idx.truncate(cap);
        }
        for i in idx {
            let d = delta(&mut r);
            let po = POpts { force: vec![(i, d)], ..Default::default() };
            if let Some((p, _)) = prove_ok(ctx, &prog, &gn, L, &po) {
                expect_reject(ctx, &prog, &gn, &p, &format!("gate {}", i), "output of a gate is not the product");
            }
        }
    }
}
pub fn op_at(ops: &[Op], path: &[usize]) -> Op {
    if path.len() == 1 {
        ops[path[0]].clone()
    } else if let Op::Rand(i) = &ops[path[0]] {
        op_at(i, &path[1..])
    } else {
        unreachable!()
    }
}

/// n1 free gates in phase 1 and n2 in phase 2, no constraints on them at all
fn free_gates(r: &mut Rng, n1: usize, n2: usize) -> Prog {
    let mut ops = vec![];
    let g = |r: &mut Rng| Op::AllocMul(lc_const(r.fe()), lc_const(r.fe()));
    for _ in 0..n1 {
        ops.push(g(r));
    }
    if n2 > 0 {
        let mut inner = vec![Op::Challenge(b"c")];
        for _ in 0..n2 {
            inner.push(g(r));
        }
        ops.push(Op::Rand(Arc::new(inner)));
    }
    Prog { ops, desc: format!("{}+{} free gates", n1, n2) }
}
fn gates_free(ctx: &mut Ctx, n1: usize, n2: usize, max_pairs: usize) {
    let mut r = ctx.rng.fork();
    let prog = free_gates(&mut r, n1, n2);
    let n = n1 + n2;
    let gn = gens(pow2(n));
    let run = |ctx: &mut Ctx, force: Vec<(usize, FE)>, sig: String| {
        if HOOKS {
            let po = POpts { force, ..Default::default() };
            if let Some((p, _)) = prove_ok(ctx, &prog, &gn, L, &po) {
                expect_reject(ctx, &prog, &gn, &p, &sig, "gate outputs are not products");
            }
        } else {
            let bb = Bb { prog: &prog, gn: &gn, label: L, comms: &[], shape: Shape::Full };
            let mut r2 = Rng::new(5);
            if let Some((p, _, _)) = ref_prove(&bb, &[], &force, &Adv::Honest, &mut r2) {
                let ok = bb.run(&p).0.is_ok();
                ctx.check(!ok, &sig, &|| "accepted a false gate (reference prover)".into());
            }
        }
    };
    for i in 0..n {
        let d = delta(&mut r);
        run(ctx, vec![(i, d)], format!("single {}", i));
    }
    let mut pairs = vec![];
    for i in 0..n {
        for j in i + 1..n {
            pairs.push((i, j));
        }
    }
    if pairs.len() > max_pairs {
        r.shuffle(&mut pairs);
        // structured ones first
        pairs.sort_by_key(|(i, j)| if (j - i).is_power_of_two() || *j == n1 + *i { 0 } else { 1 });
        let head = max_pairs * 3 / 4;
        let mut t: Vec<_> = pairs[..head].to_vec();
        let rest = &pairs[head..];
        for _ in 0..max_pairs - head {
            t.push(rest[r.below(rest.len())]);
        }
        pairs = t;
    }
    for (i, j) in pairs {
        let d = delta(&mut r);
        run(ctx, vec![(i, d.clone()), (j, d.negation())], format!("pair {} {}", i, j));
        if j == i + 1 {
            run(ctx, vec![(i, d.clone()), (j, d.clone())], format!("pair+ {} {}", i, j));
        }
    }
    // all at once, sum zero
    if n >= 3 {
        let mut f: Vec<(usize, FE)> = vec![];
        let mut s = FE::zero();
        for i in 0..n - 1 {
            let d = r.fe_nonzero();
            s = &s + &d;
            f.push((i, d));
        }
        f.push((n - 1, s.negation()));
        run(ctx, f, "all".into());
    }
}

/// q constraints, each about a wire of its own kind; pairs of violations that cancel
fn constraint_pairs(ctx: &mut Ctx, q1: usize, q2: usize, with_mul: bool, max_pairs: usize) {
    let mut r = ctx.rng.fork();
    let mut ops = vec![];
    for _ in 0..3 {
        ops.push(Op::Commit(r.fe_mixed(), r.fe()));
    }
    // handles 0..3 committed; 3..6, 6..9 wires of two gates
    let vals: Vec<FE> = {
        let (a, b, c, d) = (r.fe(), r.fe(), r.fe(), r.fe());
        ops.push(Op::AllocMul(lc_const(a.clone()), lc_const(b.clone())));
        ops.push(Op::AllocMul(lc_const(c.clone()), lc_const(d.clone())));
        let cv: Vec<FE> = ops.iter().filter_map(|o| if let Op::Commit(v, _) = o { Some(v.clone()) } else { None }).collect();
        let mut v = cv;
        v.extend(vec![a.clone(), b.clone(), &a * &b, c.clone(), d.clone(), &c * &d]);
        v
    };
    let mk = |r: &mut Rng, k: usize| -> Lc {
        let h = k % 9;
        let c = r.fe_nonzero();
        let e = &c * &vals[h];
        Lc { t: vec![(Some(h), Coef::K(c)), (None, Coef::K(e.negation()))], style: r.below(14) as u8 }
    };
    for k in 0..q1 {
        if with_mul && k % 3 == 1 {
            ops.push(Op::Mul(lc_var(r.below(9)), lc_var(r.below(9))));
        }
        ops.push(Op::Constrain(mk(&mut r, k)));
    }
    if q2 > 0 {
        let mut inner = vec![Op::Challenge(b"c")];
        for k in 0..q2 {
            if with_mul && k % 3 == 1 {
                inner.push(Op::Mul(lc_var(r.below(9)), lc_var(r.below(9))));
            }
            inner.push(Op::Constrain(mk(&mut r, k + 2)));
        }
        ops.push(Op::Rand(Arc::new(inner)));
    }
    let prog = Prog { ops, desc: format!("pairs q1={} q2={}", q1, q2) };
    let gn = gens(pow2(2 + q1 / 3 + q2 / 3 + 4));
    if prove_ok(ctx, &prog, &gn, L, &POpts::default()).is_none() {
        return;
    }
    let paths = constrain_paths(&prog.ops);
    let q = paths.len();
    let mut pairs = vec![];
    for i in 0..q {
        for j in i + 1..q {
            pairs.push((i, j));
        }
    }
    r.shuffle(&mut pairs);
    pairs.sort_by_key(|(i, j)| if *j == i + 1 || (j - i).is_power_of_two() || *j == q1 + i { 0 } else { 1 });
    pairs.truncate(max_pairs);
    for (i, j) in pairs {
        let d = delta(&mut r);
        let bad = with_const(&with_const(&prog, &paths[i], &d), &paths[j], &d.negation());
        if let Some((p, _)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
            expect_reject(ctx, &bad, &gn, &p, &format!("cpair {} {}", i, j), "two violated constraints that cancel in sum");
        }
        if j == i + 1 {
            let bad = with_const(&with_const(&prog, &paths[i], &d), &paths[j], &d);
            if let Some((p, _)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
                expect_reject(ctx, &bad, &gn, &p, &format!("cpair+ {} {}", i, j), "two violated constraints");
            }
        }
    }
}

/// Constraints of every length (one term upwards) and kind of wire, violated through the witness
/// alone, in pairs whose errors cancel.
fn witness_pairs(ctx: &mut Ctx, q1: usize, q2: usize, max_pairs: usize) {
    let mut r = ctx.rng.fork();
    // kind of wire a constraint owns, its coefficient, number of terms
    let q = q1 + q2;
    let mut kinds: Vec<usize> = (0..q).map(|_| r.below(if HOOKS { 6 } else { 4 })).collect();
    for k in q1..q {
        if kinds[k] == 3 {
            kinds[k] = 0; // no commitments in the second phase
        }
    }
    let lens: Vec<usize> = (0..q).map(|_| if r.chance(1, 2) { 1 } else { r.range(2, 7) }).collect();
    let coef: Vec<FE> = (0..q).map(|_| if r.chance(1, 3) { FE::one() } else { r.fe_mixed_nonzero() }).collect();
    let base: Vec<FE> = (0..q).map(|k| if lens[k] == 1 { FE::zero() } else { r.fe_mixed() }).collect();
    let sv: Vec<FE> = (0..3).map(|_| r.fe_nonzero()).collect();
    let seed = r.next();
    let build = |add: &dyn Fn(usize) -> FE| -> (Prog, Vec<usize>) {
        let mut r = Rng::new(seed);
        let mut ops = vec![];
        for v in &sv {
            ops.push(Op::Commit(v.clone(), r.fe()));
        }
        let mut nh = 3;
        let mut com = vec![0; q];
        for k in 0..q1 {
            if kinds[k] == 3 {
                ops.push(Op::Commit(&base[k] + &add(k), r.fe()));
                com[k] = nh;
                nh += 1;
            }
        }
        let mut gates = 0;
        let mut gate_of = vec![0; q];
        let mut inner = vec![Op::Challenge(b"c")];
        for k in 0..q {
            let out = if k < q1 { &mut ops } else { &mut inner };
            if kinds[k] >= 4 {
                let l = Lc { t: vec![(Some(r.below(3)), Coef::K(r.fe_nonzero())), (None, Coef::K(r.fe()))], style: r.below(14) as u8 };
                out.push(Op::Mul(l, lc_var(r.below(3))));
                gate_of[k] = gates;
                gates += 1;
                nh += 3;
                continue;
            }
            let w = &base[k] + &add(k);
            let other = r.fe_nonzero();
            let h = match kinds[k] {
                0 => {
                    out.push(Op::AllocMul(lc_const(w), lc_const(other)));
                    nh += 3;
                    nh - 3
                }
                1 => {
                    out.push(Op::AllocMul(lc_const(other), lc_const(w)));
                    nh += 3;
                    nh - 2
                }
                2 => {
                    out.push(Op::AllocMul(lc_const(w), lc_const(FE::one())));
                    nh += 3;
                    nh - 1
                }
                _ => com[k],
            };
            if kinds[k] < 3 {
                gate_of[k] = gates;
                gates += 1;
            }
            let mut t = vec![(Some(h), Coef::K(coef[k].clone()))];
            let mut sum = &coef[k] * &base[k];
            for x in 1..lens[k] {
                if x + 1 == lens[k] {
                    let j = r.below(4);
                    if j < 3 {
                        t.push((Some(j), Coef::K(&sum.negation() * &sv[j].inverse())));
                    } else {
                        t.push((None, Coef::K(sum.negation())));
                    }
                } else {
                    let j = r.below(3);
                    let c = r.fe_mixed();
                    sum = &sum + &(&c * &sv[j]);
                    t.push((Some(j), Coef::K(c)));
                }
            }
            if r.chance(1, 2) {
                t.reverse();
            }
            out.push(Op::Constrain(Lc { t, style: r.below(14) as u8 }));
            if r.chance(1, 12) {
                out.push(Op::Constrain(Lc { t: vec![], style: 0 }));
            }
        }
        if q2 > 0 {
            ops.push(Op::Rand(Arc::new(inner)));
        }
        (Prog { ops, desc: format!("witness pairs {}+{}", q1, q2) }, gate_of)
    };
    let zero = |_: usize| FE::zero();
    let (good, gate_of) = build(&zero);
    let gn = gens(pow2((q + 1).max(2)) * 2);
    if let Some((p, st)) = prove_ok(ctx, &good, &gn, L, &POpts::default()) {
        let (v, _) = verify_prog(&good, &gn, L, &p.proof, &p.comms, false);
        if v.is_err() || st.evals.iter().any(|e| !e.is_zero()) {
            ctx.check(v.is_err(), "generator", &|| "accepted a violated system".into());
            ctx.count("witness_pairs_not_applicable", 1);
            return;
        }
    } else {
        return;
    }
    let mut pairs = vec![];
    for i in 0..q {
        for j in i + 1..q {
            pairs.push((i, j));
        }
    }
    r.shuffle(&mut pairs);
    pairs.sort_by_key(|(i, j)| if *j == i + 1 || (j - i).is_power_of_two() || *j == q1 + i { 0 } else { 1 });
    pairs.truncate(max_pairs);
    for k in 0..q {
        pairs.push((k, k));
    }
    for (i, j) in pairs {
        let d = delta(&mut r);
        for plus in 0..2 {
            if plus == 1 && j != i + 1 {
                continue;
            }
            let e = if plus == 1 { d.clone() } else { d.negation() };
            let add = |k: usize| {
                let x = if k == i { &d } else if k == j { &e } else { return FE::zero() };
                x * &coef[k].inverse()
            };
            let (bad, _) = build(&add);
            let mut po = POpts::default();
            for (k, x) in vec![(i, &d), (j, &e)] {
                // the constraint is input - wire
                match kinds[k] {
                    4 => po.inputs.push((gate_of[k], x.negation(), FE::zero())),
                    5 => po.inputs.push((gate_of[k], FE::zero(), x.negation())),
                    _ => {}
                }
                if i == j {
                    break;
                }
            }
            if let Some((p, _)) = prove_ok(ctx, &bad, &gn, L, &po) {
                expect_reject(ctx, &bad, &gn, &p, &format!("wpair {} {} {} {}/{} {}/{}", i, j, plus, kinds[i], lens[i], kinds[j], lens[j]),
                    "assignment violates constraints whose errors cancel in sum");
            }
        }
    }
}

/// a wrong gate against a violated constraint, and two phases against each other
fn gate_vs_constraint(ctx: &mut Ctx, n1: usize, n2: usize, q: usize) {
    if !HOOKS {
        return;
    }
    let mut r = ctx.rng.fork();
    let mut prog = free_gates(&mut r, n1, n2);
    for _ in 0..q {
        prog.ops.insert(0, Op::Constrain(Lc { t: vec![(None, Coef::K(FE::zero()))], style: 0 }));
    }
    prog.desc = format!("{}+{} free gates and {} constraints", n1, n2, q);
    let gn = gens(pow2(n1 + n2));
    for k in 0..q {
        let d = delta(&mut r);
        let bad = with_const(&prog, &[k], &d);
        for i in 0..n1 + n2 {
            for (how, f) in vec![("-", d.negation()), ("+", d.clone())] {
                let po = POpts { force: vec![(i, f)], ..Default::default() };
                if let Some((p, _)) = prove_ok(ctx, &bad, &gn, L, &po) {
                    expect_reject(ctx, &bad, &gn, &p, &format!("gate {} {} constraint {}", i, how, k), "a wrong gate cancels a violated constraint");
                }
            }
        }
    }
}

/// the verifier holds a commitment to another value than the prover used
fn commitments(ctx: &mut Ctx, m: usize, phase2: bool, gated: bool) {
    let mut r = ctx.rng.fork();
    let mut ops = vec![];
    let mut vals = vec![];
    for _ in 0..m {
        let v = r.fe_nonzero();
        vals.push(v.clone());
        ops.push(Op::Commit(v, r.fe()));
    }
    let mut cons = vec![];
    for j in 0..m {
        if gated {
            let nh = m + 3 * j;
            cons.push(Op::Mul(lc_var(j), lc_const(r.fe_nonzero())));
            let _ = nh;
        } else {
            let c = r.fe_nonzero();
            let e = &c * &vals[j];
            cons.push(Op::Constrain(Lc { t: vec![(Some(j), Coef::K(c)), (None, Coef::K(e.negation()))], style: r.below(14) as u8 }));
        }
    }
    if phase2 {
        cons.insert(0, Op::Challenge(b"q"));
        ops.push(Op::Rand(Arc::new(cons)));
    } else {
        ops.extend(cons);
    }
    let prog = Prog { ops: ops.clone(), desc: format!("commitments m={} p2={} gated={}", m, phase2, gated) };
    let gn = gens(pow2(m + 1));
    // prover and verifier transcripts both contain the false commitment: the prover commits
    // to v+d but assigns wires as if the value was v
    for j in 0..m {
        let d = delta(&mut r);
        if gated {
            // wires computed from v, commitment to v + d: gate input constraint is violated
            let mut o2 = ops.clone();
            if let Op::Commit(v, b) = &ops[j] {
                o2[j] = Op::Commit(v + &d, b.clone());
            }
            let bad = replace_muls(&Prog { ops: o2, desc: prog.desc.clone() }, j, &vals[j], m);
            if let Some((p, st)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
                if st.evals.iter().any(|e| !e.is_zero()) {
                    expect_reject(ctx, &bad, &gn, &p, &format!("commit-gated {}", j), "committed value differs from the wire tied to it");
                }
            }
        } else {
            let mut o2 = ops.clone();
            if let Op::Commit(v, b) = &ops[j] {
                o2[j] = Op::Commit(v + &d, b.clone());
            }
            let bad = Prog { ops: o2, desc: prog.desc.clone() };
            if let Some((p, _)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
                expect_reject(ctx, &bad, &gn, &p, &format!("commit {}", j), "committed value violates its constraint");
            }
        }
    }
    if let Some((p, _)) = prove_ok(ctx, &prog, &gn, L, &POpts::default()) {
        for j in 0..m {
            let mut comms = p.comms.clone();
            let d = delta(&mut r);
            comms[j] = &comms[j] + &(&gn.g * &d);
            let (v, _) = verify_prog(&prog, &gn, L, &p.proof, &comms, false);
            ctx.check(v.is_err(), &format!("other commitment {}", j), &|| "accepted another commitment".into());
        }
    }
}
/// turn `Mul(var j, k)` into a multiplier with explicit assignments plus constraints
fn replace_muls(p: &Prog, j: usize, v: &FE, m: usize) -> Prog {
    let f = |ops: &[Op]| -> Vec<Op> {
        let mut out = vec![];
        let mut nh = m;
        for op in ops {
            match op {
                Op::Mul(l, k) => {
                    let var = l.t[0].0.unwrap();
                    if var == j {
                        out.push(Op::AllocMul(lc_const(v.clone()), k.clone()));
                    } else {
                        out.push(Op::AllocMul(l.clone(), k.clone()));
                    }
                    out.push(Op::Constrain(Lc { t: vec![(Some(var), Coef::K(FE::one())), (Some(nh), Coef::K(FE::minus_one()))], style: 1 }));
                    nh += 3;
                }
                o => out.push(o.clone()),
            }
        }
        out
    };
    let mut ops = vec![];
    for op in &p.ops {
        if let Op::Rand(i) = op {
            ops.push(Op::Rand(Arc::new(f(i))));
        } else {
            ops.push(op.clone());
        }
    }
    let (c, rest): (Vec<Op>, Vec<Op>) = ops.into_iter().partition(|o| if let Op::Commit(..) = o { true } else { false });
    let mut ops = c;
    ops.extend(f(&rest));
    Prog { ops, desc: p.desc.clone() }
}

/// false permutation argument through a randomized constraint
fn shuffle(ctx: &mut Ctx, k: usize) {
    let mut r = ctx.rng.fork();
    let xs: Vec<FE> = (0..k).map(|_| r.fe_mixed()).collect();
    let mut ys = xs.clone();
    r.shuffle(&mut ys);
    let build = |xs: &[FE], ys: &[FE], r: &mut Rng| -> Prog {
        let mut ops = vec![];
        for v in xs.iter().chain(ys.iter()) {
            ops.push(Op::Commit(v.clone(), r.fe()));
        }
        let mut inner = vec![Op::Challenge(b"shuffle challenge")];
        let mut nh = 2 * k;
        let mut outs = vec![];
        for s in 0..2 {
            let minus = |h: usize| Lc { t: vec![(Some(h), Coef::K(FE::one())), (None, Coef::Ch(0, 1, FE::minus_one()))], style: 0 };
            let mut acc = minus(s * k);
            for i in 1..k {
                inner.push(Op::Mul(acc, minus(s * k + i)));
                acc = lc_var(nh + 2);
                nh += 3;
            }
            outs.push(acc);
        }
        let mut t = outs[0].t.clone();
        for (h, c) in &outs[1].t {
            let c = match c {
                Coef::K(k) => Coef::K(k.negation()),
                Coef::Ch(i, p, k) => Coef::Ch(*i, *p, k.negation()),
            };
            t.push((*h, c));
        }
        inner.push(Op::Constrain(Lc { t, style: 0 }));
        ops.push(Op::Rand(Arc::new(inner)));
        Prog { ops, desc: format!("shuffle {}", k) }
    };
    let gn = gens(pow2(2 * k));
    let good = build(&xs, &ys, &mut r);
    if let Some((p, _)) = prove_ok(ctx, &good, &gn, L, &POpts::default()) {
        let (v, _) = verify_prog(&good, &gn, L, &p.proof, &p.comms, false);
        ctx.check(v.is_ok(), "true shuffle", &|| format!("true permutation rejected: {:?}", v));
    }
    for i in 0..k {
        let mut bad = ys.clone();
        bad[i] = &bad[i] + &delta(&mut r);
        if k > 1 {
            // keep the sum: a mere sum check would not notice
            let j = (i + 1) % k;
            let d = &bad[i] - &ys[i];
            bad[j] = &bad[j] - &d;
        }
        let mut a: Vec<String> = xs.iter().map(hex).collect();
        let mut b: Vec<String> = bad.iter().map(hex).collect();
        a.sort();
        b.sort();
        if a == b {
            continue;
        }
        let pr = build(&xs, &bad, &mut r);
        if let Some((p, _)) = prove_ok(ctx, &pr, &gn, L, &POpts::default()) {
            expect_reject(ctx, &pr, &gn, &p, &format!("false shuffle {}", i), "not a permutation");
        }
    }
}

/// Malicious provers against the real verifier, and agreement of its verdict with the reference
/// equations.
fn adversary(ctx: &mut Ctx, cfg: &GenCfg) {
    let mut r = ctx.rng.fork();
    let prog = gen_prog(&mut r, cfg);
    let (m, _) = model(&prog, &[]);
    let gn = gens(pow2(m.gates.max(1)));
    let blinds: Vec<FE> = prog.ops.iter().filter_map(|o| if let Op::Commit(_, b) = o { Some(b.clone()) } else { None }).collect();
    let comms: Vec<G1> = prog.ops.iter().filter_map(|o| if let Op::Commit(v, b) = o { Some(pedersen(&gn, v, b)) } else { None }).collect();
    let mut found = vec![];
    for shape in shapes() {
        let bb = Bb { prog: &prog, gn: &gn, label: L, comms: &comms, shape };
        if let Some(x) = ref_prove(&bb, &blinds, &[], &Adv::Honest, &mut r) {
            if bb.run(&x.0).0.is_ok() {
                found.push((shape, x));
                if shape == Shape::Full {
                    break;
                }
            }
        }
    }
    if found.is_empty() {
        // the protocol has another shape than the reference: nothing to judge here
        ctx.count("reference_not_applicable", 1);
    }
    for (shape, cal) in found {
        adversary_with(ctx, &prog, &m, &gn, &blinds, &comms, shape, cal, &mut r);
    }
}
fn adversary_with(ctx: &mut Ctx, prog: &Prog, m: &Mock, gn: &Gens, blinds: &[FE], comms: &[G1], shape: Shape, cal: (Value, Stmt, Chals), r: &mut Rng) {
    let mut r = r.fork();
    let bb = Bb { prog: &prog, gn: &gn, label: L, comms: &comms, shape };
    ctx.count("reference_calibrated", 1);
    oracle(ctx, &bb, &cal.0, &cal.1, "honest");
    // random tampering: the verdict must agree with the equations
    for k in 0..6 {
        let mut p = cal.0.clone();
        let what = tamper(&mut p, &mut r);
        oracle(ctx, &bb, &p, &cal.1, &format!("tamper {} {}", k, what));
    }
    // a false statement
    let paths = constrain_paths(&prog.ops);
    let mut variants: Vec<(Prog, Vec<(usize, FE)>)> = vec![];
    if !paths.is_empty() {
        variants.push((with_const(&prog, r.pick(&paths), &delta(&mut r.clone())), vec![]));
    }
    if m.gates > 0 {
        variants.push((prog.clone(), vec![(r.below(m.gates), delta(&mut r))]));
    }
    if m.gates > 0 {
        // a wrong first gate, paid for by a g-component in one of the vector commitments
        let force = vec![(0, delta(&mut r))];
        for name in ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter() {
            for neg in vec![false, true] {
                if let Some((p, s, _)) = ref_prove(&bb, &blinds, &force, &Adv::Comp(name, neg), &mut r) {
                    let ok = bb.run(&p).0.is_ok();
                    ctx.count("component_attacks", 1);
                    ctx.check(!ok, &format!("component {} {}", name, neg), &|| {
                        "forged proof of a wrong gate accepted: the claimed value of the polynomial is not bound to the inner product".into()
                    });
                    oracle(ctx, &bb, &p, &s, &format!("component {} {}", name, neg));
                }
            }
        }
    }
    late(ctx, shape);
    scaled(ctx, shape);
    for (bad, force) in variants {
        let bb = Bb { prog: &bad, gn: &gn, label: L, comms: &comms, shape };
        let base = match ref_prove(&bb, &blinds, &force, &Adv::Honest, &mut r) {
            Some(x) => x,
            None => continue,
        };
        let kind = if force.is_empty() { "constraint" } else { "gate" };
        oracle(ctx, &bb, &base.0, &base.1, &format!("false {}", kind));
        let ok = bb.run(&base.0).0.is_ok();
        ctx.check(!ok, &format!("false {} plain", kind), &|| "accepted a false statement (reference prover)".into());
        forge(ctx, &bb, &base, kind);
        for rk in vec![
            RKind::Const(FE::one()),
            RKind::Const(FE::minus_one()),
            RKind::Const(fe(2)),
            RKind::Y,
            RKind::Z,
            RKind::X,
            RKind::U,
        ] {
            if let Some((p, s, _)) = ref_prove(&bb, &blinds, &force, &Adv::Join(rk.clone()), &mut r) {
                let ok = bb.run(&p).0.is_ok();
                ctx.count("join_attacks", 1);
                ctx.check(!ok, &format!("join {} {:?}", kind, rkname(&rk)), &|| {
                    format!("forged proof of a false statement accepted: the verifier joins its equations with a predictable factor {:?}", rkname(&rk))
                });
                oracle(ctx, &bb, &p, &s, &format!("join {} {:?}", kind, rkname(&rk)));
            }
        }
    }
}
/// wires of the first phase must equal challenges drawn after their commitment
fn late(ctx: &mut Ctx, shape: Shape) {
    let mut r = ctx.rng.fork();
    let n1 = r.range(1, 3);
    let n2 = r.range(0, 2);
    let i = r.below(n1);
    let right = r.chance(1, 2);
    let mut prog = free_gates(&mut r, n1, n2);
    let mut inner = vec![Op::Challenge(b"c")];
    let h = 3 * i + if right { 1 } else { 0 };
    inner.push(Op::Constrain(Lc { t: vec![(Some(h), Coef::K(FE::one())), (None, Coef::Ch(0, 1, FE::minus_one()))], style: 0 }));
    if n2 > 0 {
        let k = prog.ops.len() - 1;
        if let Op::Rand(v) = &prog.ops[k] {
            inner.extend_from_slice(&v[1..]);
        }
        prog.ops[k] = Op::Rand(Arc::new(inner));
    } else {
        prog.ops.push(Op::Rand(Arc::new(inner)));
    }
    let gn = gens(pow2(n1 + n2));
    let bb = Bb { prog: &prog, gn: &gn, label: L, comms: &[], shape };
    let ch = if right { (i, LateVal::Keep, LateVal::Chal(0)) } else { (i, LateVal::Chal(0), LateVal::Keep) };
    for u in vec![FE::one(), FE::minus_one(), fe(2)] {
        if let Some((p, s, _)) = ref_prove(&bb, &[], &[], &Adv::Late(u.clone(), vec![ch.clone()]), &mut r) {
            let ok = bb.run(&p).0.is_ok();
            ctx.count("late_attacks", 1);
            ctx.check(!ok, &format!("late {}+{} gate {} right {} factor {}", n1, n2, i, right, shex(&u)), &|| {
                "forged proof accepted: a wire committed in the first phase was changed after its challenge".into()
            });
            oracle(ctx, &bb, &p, &s, "late");
        }
    }
}
/// a wrong gate of the second phase, its weight removed by a component in a first-phase commitment
fn scaled(ctx: &mut Ctx, shape: Shape) {
    let mut r = ctx.rng.fork();
    let (n1, n2) = (r.range(0, 3), r.range(1, 3));
    let prog = free_gates(&mut r, n1, n2);
    let gn = gens(pow2(n1 + n2));
    let bb = Bb { prog: &prog, gn: &gn, label: L, comms: &[], shape };
    let i = n1 + r.below(n2);
    let d = delta(&mut r);
    let o = &model(&prog, &[fe(3)]).0.ao[i] + &d;
    if o.is_zero() {
        return;
    }
    let b = &d * &o.inverse();
    for name in ["A_I1", "A_O1", "S1"].iter() {
        if let Some((p, s, _)) = ref_prove(&bb, &[], &[(i, d.clone())], &Adv::Scale(name, i, b.clone()), &mut r) {
            let ok = bb.run(&p).0.is_ok();
            ctx.count("scale_attacks", 1);
            ctx.check(!ok, &format!("scaled {}+{} gate {} {}", n1, n2, i, name), &|| {
                "forged proof of a wrong gate accepted: the second phase enters with a predictable factor".into()
            });
            oracle(ctx, &bb, &p, &s, "scaled");
        }
    }
}
fn rkname(k: &RKind) -> String {
    match k {
        RKind::Const(f) => format!("const {}", shex(f)),
        o => format!("{:?}", o),
    }
}
/// verdict == reference equations
pub fn oracle(ctx: &mut Ctx, bb: &Bb, p: &Value, s: &Stmt, sig: &str) {
    if bb.shape != Shape::Full {
        return;
    }
    let (v, ch) = bb.run(p);
    let k = lr(p, "L").len();
    if k != lr(p, "R").len() {
        return;
    }
    let d = bb.shape.drawn();
    let nu = if ch.len() >= d + k { ch.len() - d - k } else { return };
    let c = match split(&ch, nu, k, bb.shape) {
        Some(c) => c,
        None => return,
    };
    // constraints of randomized callbacks depend on the challenges of this very run
    let s2 = if nu > 0 { Stmt::of(&model(bb.prog, &c.user).0) } else { s.clone() };
    let (rt, rp) = residuals(&s2, bb.gn, bb.comms, p, &c);
    let want = rt.is_identity() && rp.is_identity();
    ctx.count(if want { "oracle_accept" } else { "oracle_reject" }, 1);
    ctx.check(v.is_ok() == want, &format!("oracle {}", sig), &|| {
        format!("verifier says {:?}; polynomial identity holds: {}, opening and inner product hold: {}", v, rt.is_identity(), rp.is_identity())
    });
}
pub fn tamper(p: &mut Value, r: &mut Rng) -> String {
    let k = rounds(p);
    match r.below(4) {
        0 => {
            let n = *r.pick(&POINTS);
            let q = &pt(p, n) + &r.g1();
            p[n] = g1_json(&q);
            n.into()
        }
        1 => {
            let n = *r.pick(&SCALARS);
            let q = &sc(p, n) + &delta(r);
            p[n] = fe_json(&q);
            n.into()
        }
        2 if k > 0 => {
            let w = *r.pick(&["L", "R"]);
            let j = r.below(k);
            let q = &json_g1(&lr(p, w)[j]) + &r.g1();
            lr_mut(p, w)[j] = g1_json(&q);
            format!("{}{}", w, j)
        }
        _ => {
            let n = *r.pick(&["a", "b"]);
            let q = &json_fe(&p["ipp_proof"][n]) + &delta(r);
            p["ipp_proof"][n] = fe_json(&q);
            n.into()
        }
    }
}
/// Choose one element last, so that the equations hold for the challenges seen before.
fn forge(ctx: &mut Ctx, bb: &Bb, base: &(Value, Stmt, Chals), kind: &str) {
    let (p, s, c) = base;
    let (rt, rp) = residuals(s, bb.gn, bb.comms, p, c);
    if rt.is_identity() && rp.is_identity() {
        return;
    }
    let xp = |e: u64| fe_pow(&c.x, e);
    let try_it = |ctx: &mut Ctx, q: &Value, sig: String| {
        let ok = bb.run(q).0.is_ok();
        ctx.count("forgeries", 1);
        ctx.check(!ok, &format!("forge {} {}", kind, sig), &|| {
            format!("forged proof of a false statement accepted: {} was chosen after the challenges", sig)
        });
    };
    // polynomial identity through a T commitment
    let fix_t = |q: &mut Value, n: &str, e: u64, rt: &G1| {
        let v = &pt(q, n) - &(rt * &xp(e).inverse());
        q[n] = g1_json(&v);
    };
    for (n, e) in vec![("T_1", 1), ("T_3", 3), ("T_4", 4), ("T_5", 5), ("T_6", 6)] {
        let mut q = p.clone();
        fix_t(&mut q, n, e, &rt);
        try_it(ctx, &q, n.to_string());
    }
    // through t_x, moving the error into the opening, repaired there by another element
    // residual of the identity is E*g; find E from the statement is not needed: t_x' = t_x + E
    // only when the residual is a multiple of g, which it is for honest-form proofs
    let e = identity_error(s, c, p, bb);
    if let Some(e) = e {
        let mut q0 = p.clone();
        q0["t_x"] = fe_json(&(&sc(p, "t_x") + &e));
        try_it(ctx, &q0, "t_x".into());
        let (_, rp2) = residuals(s, bb.gn, bb.comms, &q0, c);
        let k = c.uk.len();
        for (n, co) in vec![
            ("A_I1", c.x.clone()),
            ("A_O1", xp(2)),
            ("S1", xp(3)),
            ("A_I2", &c.u * &c.x),
            ("A_O2", &c.u * &xp(2)),
            ("S2", &c.u * &xp(3)),
        ] {
            let mut q = q0.clone();
            let v = &pt(&q, n) - &(&rp2 * &co.inverse());
            q[n] = g1_json(&v);
            try_it(ctx, &q, format!("t_x and {}", n));
        }
        for j in 0..k {
            for (w, inv) in vec![("L", false), ("R", true)] {
                let u2 = &c.uk[j] * &c.uk[j];
                let co = if inv { u2 } else { u2.inverse() };
                let mut q = q0.clone();
                let v = &json_g1(&lr(&q, w)[j]) - &(&rp2 * &co);
                lr_mut(&mut q, w)[j] = g1_json(&v);
                try_it(ctx, &q, format!("t_x and {}{}", w, j));
            }
        }
    }
}
/// E with residual of the polynomial identity = E*g, if the witness is known: computed from the
/// honest-form values by solving on the generator g.
fn identity_error(s: &Stmt, c: &Chals, p: &Value, bb: &Bb) -> Option<FE> {
    let (rt, _) = residuals(s, bb.gn, bb.comms, p, c);
    // sum_q z^{q+1} * (value of constraint q) and gate errors, times x^2
    let (m, _) = model(bb.prog, &c.user);
    let w = weights(s, &c.z);
    let mut e = w.c.clone();
    for i in 0..s.m {
        e = e + &w.v[i] * &m.v[i];
    }
    // expected t2 minus actual; gate errors enter with -y^i, unknown here: handle constraints only
    let mut act = FE::zero();
    for i in 0..s.n {
        act = act + &w.l[i] * &m.al[i] + &w.r[i] * &m.ar[i] + &w.o[i] * &m.ao[i];
    }
    let e = &(&e - &act) * &(&c.x * &c.x);
    if &bb.gn.g * &e == rt {
        Some(e)
    } else {
        None
    }
}

/// Long constraint lists and many gates: pairs of violations at a distance, where a weight that
/// comes back (a power of a challenge reset or taken modulo something) makes them cancel.
fn distance(ctx: &mut Ctx, q1: usize, q2: usize, gates: bool, tries: usize) {
    let mut r = ctx.rng.fork();
    let val = r.fe();
    let con = |e: FE| Op::Constrain(Lc { t: vec![(Some(0), Coef::K(FE::one())), (None, Coef::K(&e - &val))], style: 0 });
    let gate = |_: usize| Op::AllocMul(lc_const(fe(3)), lc_const(fe(5)));
    let build = |errs: &[(usize, FE)]| -> Prog {
        let err = |i: usize| errs.iter().find(|e| e.0 == i).map(|e| e.1.clone()).unwrap_or_else(FE::zero);
        let item = |i: usize| if gates { gate(i) } else { con(err(i)) };
        let mut ops = vec![Op::Commit(val.clone(), fe(77))];
        ops.extend((0..q1).map(|i| item(i)));
        if q2 > 0 {
            let mut inner = vec![Op::Challenge(b"c")];
            inner.extend((q1..q1 + q2).map(|i| item(i)));
            ops.push(Op::Rand(Arc::new(inner)));
        }
        Prog { ops, desc: format!("{}+{} {}", q1, q2, if gates { "gates" } else { "constraints" }) }
    };
    let n = q1 + q2;
    let gn = gens(if gates { pow2(n) } else { 1 });
    let kind = if gates { "gates" } else { "constraints" };
    match prove_ok(ctx, &build(&[]), &gn, L, &POpts::default()) {
        Some((p, _)) => {
            let ok = verify_prog(&build(&[]), &gn, L, &p.proof, &p.comms, false).0;
            ctx.check(ok.is_ok(), &format!("{} {} true", n, kind), &|| format!("honest proof of {} {} rejected: {:?}", n, kind, ok));
        }
        None => return,
    }
    let mut dist: Vec<usize> = vec![1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 300, 512, 1000, 1024];
    dist.push(q1);
    for k in 0..tries {
        let d = dist[k % dist.len()];
        if d >= n || d == 0 {
            continue;
        }
        let i = match k / dist.len() {
            0 => 0,
            1 => n - 1 - d,
            _ => r.below(n - d),
        };
        let e = r.fe_nonzero();
        let errs = if k % 7 == 6 { vec![(i, e)] } else { vec![(i, e.clone()), (i + d, e.negation())] };
        let sig = format!("{} {} {:?}", n, kind, errs.iter().map(|x| x.0).collect::<Vec<_>>());
        if !gates {
            let bad = build(&errs);
            if let Some((p, _)) = prove_ok(ctx, &bad, &gn, L, &POpts::default()) {
                expect_reject(ctx, &bad, &gn, &p, &sig, "violated constraints far apart in a long list");
            }
        } else if HOOKS {
            let good = build(&[]);
            let po = POpts { force: errs, ..Default::default() };
            if let Some((p, _)) = prove_ok(ctx, &good, &gn, L, &po) {
                expect_reject(ctx, &good, &gn, &p, &sig, "false gates far apart in a large circuit");
            }
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Fault injection: a case takes a satisfied random program and breaks one constraint (constant or coefficient, both sides or \
         verifier only), one gate output (forced in the real prover through the hook), one committed value, or a pair whose errors \
         cancel, and the real verifier must reject; plus malicious reference provers (elements chosen after the challenges, wire changes \
         hidden in T_1) and agreement of every verdict with independently evaluated verification equations. Distinct by program and fault site.",
    );
    s.assume("group elements named as generators have no known discrete-log relation; acceptance by chance has probability about 2^-250");
    let t = o.thorough;
    let (nsweep, cap) = match (SIM, t) {
        (true, false) => (260, 40),
        (true, true) => (4000, 80),
        (false, false) => (24, 10),
        (false, true) => (300, 20),
    };
    for i in 0..nsweep {
        s.add(format!("sweep {}", i), move |c| {
            let cfg = random_cfg(&mut c.rng, SIM && i % 4 == 0);
            sweep(c, &cfg, cap);
        });
    }
    let sizes: Vec<(usize, usize)> = if SIM {
        vec![(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (8, 0), (13, 0), (16, 0), (33, 0), (64, 0), (0, 1), (0, 4), (0, 7), (1, 1), (4, 4), (3, 5), (8, 1), (9, 7), (16, 16), (20, 30)]
    } else {
        vec![(2, 0), (5, 0), (0, 3), (3, 3)]
    };
    for (n1, n2) in sizes {
        let cap = if SIM { if t { 4000 } else { 400 } } else { 12 };
        s.add(format!("gates {}+{}", n1, n2), move |c| gates_free(c, n1, n2, cap));
    }
    let qs: Vec<(usize, usize, bool)> = if SIM {
        vec![(4, 0, false), (24, 0, false), (0, 16, false), (12, 12, true), (40, 10, true), (130, 0, false), (70, 70, false)]
    } else {
        vec![(3, 3, true)]
    };
    for (q1, q2, mu) in qs {
        let cap = if SIM { if t { 4000 } else { 500 } } else { 10 };
        s.add(format!("pairs {}+{} {}", q1, q2, mu), move |c| constraint_pairs(c, q1, q2, mu, cap));
    }
    let ws: Vec<(usize, usize)> = if SIM {
        vec![(3, 0), (6, 0), (6, 0), (10, 0), (16, 0), (24, 0), (40, 0), (0, 8), (0, 16), (8, 8), (6, 12), (20, 20)]
    } else {
        vec![(4, 0), (2, 3)]
    };
    for (k, (q1, q2)) in ws.into_iter().enumerate() {
        let cap = if SIM { if t { 3000 } else { 250 } } else { 8 };
        for rep in 0..if SIM { if t { 20 } else { 2 } } else { 1 } {
            s.add(format!("witness pairs {}+{} #{}.{}", q1, q2, k, rep), move |c| witness_pairs(c, q1, q2, cap));
        }
    }
    for (n1, n2, q) in if SIM { vec![(2, 0, 3), (5, 0, 8), (3, 3, 4), (8, 8, 10), (0, 4, 6), (12, 0, 16)] } else { vec![(3, 1, 3)] } {
        s.add(format!("gate against constraint {}+{} {}", n1, n2, q), move |c| gate_vs_constraint(c, n1, n2, q));
    }
    for m in if SIM { vec![1, 2, 3, 8, 17, 40] } else { vec![2] } {
        for p2 in vec![false, true] {
            for g in vec![false, true] {
                s.add(format!("commitments {} {} {}", m, p2, g), move |c| commitments(c, m, p2, g));
            }
        }
    }
    for k in if SIM { vec![1, 2, 3, 5, 9] } else { vec![2, 3] } {
        s.add(format!("shuffle {}", k), move |c| shuffle(c, k));
    }
    if SIM {
        for (q1, q2) in vec![(300, 0), (1100, 0), (0, 600), (500, 600), (1, 300)] {
            s.add(format!("distance constraints {}+{}", q1, q2), move |c| distance(c, q1, q2, false, if t { 400 } else { 70 }));
            s.add(format!("distance gates {}+{}", q1, q2), move |c| distance(c, q1, q2, true, if t { 200 } else { 24 }));
        }
    } else {
        s.add("distance constraints 300+0", move |c| distance(c, 300, 0, false, 24));
    }
    let nadv = match (SIM, t) {
        (true, false) => 150,
        (true, true) => 2500,
        (false, false) => 10,
        (false, true) => 120,
    };
    for i in 0..nadv {
        s.add(format!("adversary {}", i), move |c| {
            let mut cfg = random_cfg(&mut c.rng, false);
            cfg.constraints = cfg.constraints.max(1);
            if i % 2 == 0 {
                cfg.n1 = cfg.n1.max(1);
            }
            adversary(c, &cfg);
        });
    }
    s
}
