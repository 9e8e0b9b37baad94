//! C09: the constraint-system API and linear combinations follow their algebra.
use crate::mock::*;
use crate::prog::*;
use crate::runner::*;
use crate::util::*;
use merlin::Transcript;
use std::collections::BTreeMap;
use std::sync::Arc;

type LC = LinearCombination;

fn var_key(v: &Variable) -> (u8, usize) {
    match v {
        Variable::One() => (0, 0),
        Variable::Committed(i) => (1, *i),
        Variable::MultiplierLeft(i) => (2, *i),
        Variable::MultiplierRight(i) => (3, *i),
        Variable::MultiplierOutput(i) => (4, *i),
    }
}

struct Env {
    vars: Vec<(Variable, FE)>,
}
impl Env {
    fn var(&self, r: &mut Rng) -> (Variable, FE) {
        r.pick(&self.vars).clone()
    }
    fn ev(&self, l: &LC) -> FE {
        let mut s = FE::zero();
        for (v, c) in &l.terms {
            let x = self
                .vars
                .iter()
                .find(|(w, _)| w == v)
                .map(|(_, x)| x.clone())
                .unwrap_or_else(|| panic!("a variable appeared from nowhere: {:?}", v));
            s = s + &x * c;
        }
        s
    }
}

/// random expression: the library's value, the field value, and which operators were used
fn expr(r: &mut Rng, e: &Env, depth: usize, ops: &mut Vec<&'static str>) -> (LC, FE) {
    if depth == 0 || r.chance(1, 6) {
        let (v, x) = e.var(r);
        let (w, y) = e.var(r);
        let k = r.fe_mixed();
        let mut op = |s: &'static str| ops.push(s);
        return match r.below(16) {
            0 => {
                op("default");
                (LC::default(), FE::zero())
            }
            1 => {
                op("from var");
                (LC::from(v), x)
            }
            2 => {
                op("from scalar");
                (LC::from(k.clone()), k)
            }
            3 | 4 => {
                op("scalar*var");
                (k.clone() * v, &k * &x)
            }
            5 => {
                op("scalar+var");
                (k.clone() + v, k + x)
            }
            6 => {
                op("scalar-var");
                (k.clone() - v, k - x)
            }
            7 => {
                op("-var");
                (-v, x.negation())
            }
            8 => {
                op("var+var");
                (v + w, x + y)
            }
            9 => {
                op("var-var");
                (v - w, x - y)
            }
            10 => {
                op("var+scalar");
                (v + k.clone(), x + k)
            }
            11 => {
                op("var-scalar");
                (v - k.clone(), x - k)
            }
            12 => {
                op("collect owned");
                if r.chance(1, 6) {
                    let n = *r.pick(&[15, 16, 17, 33, 64, 100, 257, 700]);
                    let (mut t, mut sum) = (vec![], FE::zero());
                    for _ in 0..n {
                        let ((v, x), k) = (e.var(r), r.fe_mixed());
                        sum = sum + &x * &k;
                        t.push((v, k));
                    }
                    return (t.into_iter().collect(), sum);
                }
                let t = vec![(v, k.clone()), (w, FE::one()), (v, k.clone())];
                (t.into_iter().collect(), &x * &k + &y + &x * &k)
            }
            13 => {
                op("collect refs");
                let t = vec![(v, k.clone()), (w, FE::minus_one()), (Variable::One(), k.clone())];
                (t.iter().collect(), &x * &k - &y + &k)
            }
            14 => {
                op("collect empty");
                let t: Vec<(Variable, FE)> = vec![];
                (t.iter().collect(), FE::zero())
            }
            _ => {
                op("terms field");
                (LC { terms: vec![(v, k.clone()), (w, k.clone())] }, &k * &(x + y))
            }
        };
    }
    let (a, x) = expr(r, e, depth - 1, ops);
    let (v, vx) = e.var(r);
    let k = r.fe_mixed();
    match r.below(17) {
        0 | 1 => {
            let (b, y) = expr(r, e, depth - 1, ops);
            ops.push("lc+lc");
            (a + b, x + y)
        }
        2 | 3 => {
            let (b, y) = expr(r, e, depth - 1, ops);
            ops.push("lc-lc");
            (a - b, x - y)
        }
        4 => {
            ops.push("lc+var");
            (a + v, x + vx)
        }
        5 => {
            ops.push("lc-var");
            (a - v, x - vx)
        }
        6 => {
            ops.push("lc+scalar");
            (a + k.clone(), x + k)
        }
        7 => {
            ops.push("lc-scalar");
            (a - k.clone(), x - k)
        }
        8 => {
            ops.push("lc+=lc");
            let (b, y) = expr(r, e, depth - 1, ops);
            let mut a = a;
            a += b;
            (a, x + y)
        }
        9 => {
            ops.push("lc+=var");
            let mut a = a;
            a += v;
            (a, x + vx)
        }
        10 => {
            ops.push("lc+=scalar");
            let mut a = a;
            a += k.clone();
            (a, x + k)
        }
        11 => {
            ops.push("-lc");
            (-a, x.negation())
        }
        12 => {
            ops.push("scalar*lc");
            (k.clone() * a, &k * &x)
        }
        13 => {
            ops.push("&scalar*lc");
            (&k * a, &k * &x)
        }
        14 => {
            ops.push("simplify");
            (a.simplify(), x)
        }
        15 => {
            ops.push("var+lc");
            (v + a, vx + x)
        }
        _ => {
            ops.push("var-lc");
            (v - a, vx - x)
        }
    }
}

fn algebra(ctx: &mut Ctx, rounds: usize) {
    let mut r = ctx.rng.fork();
    let gn = gens(2);
    let mut tr = Transcript::new(b"alg");
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut env = Env { vars: vec![(Variable::One(), FE::one())] };
    for _ in 0..r.range(0, 4) {
        let x = r.fe_mixed();
        let (_, v) = p.commit(x.clone(), r.fe());
        env.vars.push((v, x));
    }
    let wide = if r.chance(1, 4) { *r.pick(&[10, 50, 150]) } else { 0 };
    for _ in 0..r.range(0, 4) + wide {
        let (a, b) = (r.fe_mixed(), r.fe_mixed());
        let (l, rr, o) = p.allocate_multiplier(Some((a.clone(), b.clone()))).unwrap();
        env.vars.push((l, a.clone()));
        env.vars.push((rr, b.clone()));
        env.vars.push((o, &a * &b));
    }
    for _ in 0..rounds {
        let mut ops = vec![];
        let depth = r.range(0, 6);
        let (l, x) = expr(&mut r, &env, depth, &mut ops);
        let top = *ops.last().unwrap();
        for o in &ops {
            ctx.count(o, 1);
        }
        let sig = format!("{} {}", top, ops.len());
        let got = env.ev(&l);
        ctx.check(got == x, &sig, &|| format!("{:?}: terms add up to {} instead of {}", ops, shex(&got), shex(&x)));
        let api = p.evaluate_lc(&l);
        ctx.check(api.as_ref() == Some(&x), &format!("eval {}", sig), &|| {
            format!("{:?}: evaluate_lc gives {:?} instead of {}", ops, api.as_ref().map(shex), shex(&x))
        });
        // simplification: same value, every variable once, nothing new
        let before: Vec<Variable> = l.terms.iter().map(|t| t.0).collect();
        let len = l.len();
        ctx.check_trivial(len == before.len(), &sig, &|| format!("len() is {} for {} terms", len, before.len()));
        let s = l.clone().simplify();
        let mut seen = BTreeMap::new();
        for (v, c) in &s.terms {
            *seen.entry(var_key(v)).or_insert(0) += 1;
            let _ = c;
        }
        let sv = env.ev(&s);
        ctx.check(
            sv == x && seen.values().all(|c| *c == 1) && s.terms.iter().all(|(v, _)| before.contains(v)),
            &format!("simplify {}", sig),
            &|| format!("{:?}: simplify changed {} to {} or left duplicates: {:?}", ops, shex(&x), shex(&sv), seen),
        );
        // coefficients, not only the value: evaluate under another assignment too
        let mut want: BTreeMap<(u8, usize), FE> = BTreeMap::new();
        for (v, c) in &l.terms {
            let e = want.entry(var_key(v)).or_insert(FE::zero());
            *e = e.clone() + c.clone();
        }
        let mut have: BTreeMap<(u8, usize), FE> = BTreeMap::new();
        for (v, c) in &s.terms {
            have.insert(var_key(v), c.clone());
        }
        want.retain(|_, c| !c.is_zero());
        have.retain(|_, c| !c.is_zero());
        ctx.check_trivial(want == have, &sig, &|| format!("{:?}: simplify changed a coefficient", ops));
        let t = l.clone().get_terms();
        ctx.check_trivial(t.len() == len && t.iter().zip(l.terms.iter()).all(|(a, b)| a == b), &sig, &|| "get_terms".into());
    }
}

/// constraints up to order, merged duplicates, zero coefficients and a common factor
fn canon(lcs: &[Vec<(Variable, FE)>]) -> Vec<String> {
    let mut out: Vec<String> = lcs
        .iter()
        .map(|l| {
            let mut m: BTreeMap<(u8, usize), FE> = BTreeMap::new();
            for (v, c) in l {
                let e = m.entry(var_key(v)).or_insert(FE::zero());
                *e = e.clone() + c.clone();
            }
            m.retain(|_, c| !c.is_zero());
            let k = m.values().next().map(|c| c.inverse()).unwrap_or(FE::one());
            m.iter().map(|(v, c)| format!("{:?}{} ", v, shex(&(c * &k)))).collect()
        })
        .filter(|s: &String| !s.is_empty())
        .collect();
    out.sort();
    out
}

/// callbacks in the order they have to run
fn expected_log(ops: &[Op]) -> Vec<usize> {
    fn inner(ops: &[Op], id: usize, out: &mut Vec<usize>) {
        out.push(id);
        for (i, op) in ops.iter().enumerate() {
            if let Op::Rand(o) = op {
                inner(o, id * 100 + i + 1, out);
            }
        }
    }
    let (mut out, mut n) = (vec![], 0);
    for op in ops {
        if let Op::Rand(o) = op {
            n += 1;
            inner(o, n, &mut out);
        }
    }
    out
}

/// sprinkle refused allocations over the program (also inside callbacks)
fn sprinkle(r: &mut Rng, ops: &[Op]) -> Vec<Op> {
    let mut out = vec![];
    for op in ops {
        if r.chance(1, 3) {
            out.push(Op::Missing(r.below(3) as u8));
        }
        out.push(match op {
            Op::Rand(o) => Op::Rand(Arc::new(sprinkle(r, o))),
            o => o.clone(),
        });
    }
    if r.chance(1, 2) {
        out.push(Op::Missing(r.below(3) as u8));
    }
    out
}

fn programs(ctx: &mut Ctx, cfg: &GenCfg) {
    let mut r = ctx.rng.fork();
    let mut prog = gen_prog(&mut r, cfg);
    prog.ops = sprinkle(&mut r, &prog.ops);
    let gn = gens(pow2(cfg.n1 + cfg.n2 + 2) * 2);
    let (p, st) = prove_prog(&prog, &gn, b"api", &POpts { check_api: true, snap: true, ..Default::default() });
    ctx.count("refused_allocations", st.refused);
    ctx.count("lc_evaluations", st.lc_evals);
    ctx.count("callbacks", st.cb_log.len() as u64);
    let sig = format!("n={} m={} q={} cb={}", st.gates, st.commits, st.n_constraints, st.cb_log.len());
    ctx.check(st.bad.is_empty(), &format!("prover {}", sig), &|| format!("prover side: {:?} in {}", st.bad, prog.desc));
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ctx.check(false, &sig, &|| format!("prove failed with {:?}", e));
            return;
        }
    };
    let (v, sv) = verify_prog(&prog, &gn, b"api", &p.proof, &p.comms, true);
    ctx.check(v.is_ok(), &format!("verdict {}", sig), &|| {
        format!("after refused allocations the proof is rejected: {:?} in {}", v, prog.desc)
    });
    ctx.check(sv.bad.is_empty(), &format!("verifier {}", sig), &|| format!("verifier side: {:?} in {}", sv.bad, prog.desc));
    ctx.check(st.vars == sv.vars, &format!("variables {}", sig), &|| {
        format!("prover got {:?}, verifier {:?}", st.vars, sv.vars)
    });
    let want = expected_log(&prog.ops);
    ctx.check(st.cb_log == want && sv.cb_log == want, &format!("callbacks {}", sig), &|| {
        format!("callbacks ran as {:?} (prover) and {:?} (verifier), registered as {:?}", st.cb_log, sv.cb_log, want)
    });
    ctx.check(st.chals == sv.chals, &format!("challenges {}", sig), &|| "different challenges".into());
    let mut distinct = st.vars.iter().filter(|v| **v != Variable::One()).map(var_key).collect::<Vec<_>>();
    let n = distinct.len();
    distinct.sort();
    distinct.dedup();
    ctx.check(distinct.len() == n, &format!("distinct {}", sig), &|| "a variable was handed out twice".into());
    // against the reference constraint system
    let (m, ms) = model(&prog, &st.chals);
    ctx.check(ms.vars == st.vars, &format!("model vars {}", sig), &|| {
        format!("library handed out {:?}, model {:?}", st.vars, ms.vars)
    });
    if let Some(s) = &st.snap {
        ctx.check(
            s.al == m.al && s.ar == m.ar && s.ao == m.ao && s.v == m.v,
            &format!("wires {}", sig),
            &|| format!("wire values differ from the model ({} and {} gates) in {}", s.al.len(), m.al.len(), prog.desc),
        );
        let (a, b) = (canon(&s.lcs), canon(&m.lcs));
        ctx.check(a == b, &format!("constraints {}", sig), &|| {
            format!("prover constraints differ from the model: {:?}", a.iter().filter(|x| !b.contains(x)).take(2).collect::<Vec<_>>())
        });
    }
    if let Some(s) = &sv.snap {
        let (a, b) = (canon(&s.lcs), canon(&m.lcs));
        ctx.check(s.gates == m.gates, &format!("vgates {}", sig), &|| "verifier's multiplier count".into());
        ctx.check(a == b, &format!("vconstraints {}", sig), &|| {
            format!("verifier constraints differ from the model: {:?}", a.iter().filter(|x| !b.contains(x)).take(2).collect::<Vec<_>>())
        });
    }
}

fn fail_paths(ops: &[Op], inside: bool) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        if inside {
            out.push(vec![i]);
        }
        if let Op::Rand(o) = op {
            if o.is_empty() {
                continue;
            }
            for mut p in fail_paths(o, true) {
                p.insert(0, i);
                out.push(p);
            }
        }
    }
    out
}

fn failing_callbacks(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = GenCfg {
        commits: r.range(0, 3),
        n1: r.range(0, 5),
        n2: r.range(0, 5),
        constraints: r.range(0, 4),
        callbacks: r.range(1, 4),
        max_terms: 5,
    };
    let prog = gen_prog(&mut r, &cfg);
    let gn = gens(32);
    let (p, _) = prove_prog(&prog, &gn, b"fail", &POpts::default());
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ctx.check(false, "fail base", &|| format!("prove failed with {:?}", e));
            return;
        }
    };
    let errs = vec![
        R1CSError::InvalidGeneratorsLength,
        R1CSError::VerificationError,
        R1CSError::FormatError,
        R1CSError::MissingAssignment,
        R1CSError::GadgetError { description: format!("boom {}", r.next()) },
        R1CSError::HashNotFoundInDB { hash: vec![1, 2, r.next() as u8] },
    ];
    let paths = fail_paths(&prog.ops, false);
    if paths.is_empty() {
        return;
    }
    for _ in 0..8 {
        let path = r.pick(&paths).clone();
        let e = r.pick(&errs).clone();
        let bad = Prog {
            ops: edit_at(&prog.ops, &path, &mut |v, i| v.insert(i, Op::Fail(e.clone()))),
            desc: prog.desc.clone(),
        };
        let full = expected_log(&bad.ops);
        let sig = format!("path {:?} {:?}", path, std::mem::discriminant(&e));
        let (p2, st) = prove_prog(&bad, &gn, b"fail", &POpts::default());
        ctx.count("failing_callbacks", 1);
        ctx.check(p2.as_ref().err() == Some(&e), &format!("prove {}", sig), &|| {
            format!("callback returned {:?}, prove gave {:?}", e, p2.as_ref().map(|_| ()))
        });
        ctx.check(full.starts_with(&st.cb_log), &format!("order {}", sig), &|| format!("callbacks ran as {:?}", st.cb_log));
        let (v, sv) = verify_prog(&bad, &gn, b"fail", &p.proof, &p.comms, false);
        ctx.check(v == Err(e.clone()), &format!("verify {}", sig), &|| format!("callback returned {:?}, verify gave {:?}", e, v));
        ctx.check(st.cb_log == sv.cb_log, &format!("vorder {}", sig), &|| {
            format!("callbacks ran as {:?} on the prover side and {:?} on the verifier side", st.cb_log, sv.cb_log)
        });
    }
}

/// a whole circuit made of single allocations, in both phases
fn singles(ctx: &mut Ctx, k1: usize, k2: usize) {
    let mut r = ctx.rng.fork();
    let mut ops = vec![];
    let mk = |r: &mut Rng| {
        let x = lc_const(r.fe_mixed());
        if r.chance(1, 2) {
            Op::Alloc(x)
        } else {
            Op::AllocSingle(x)
        }
    };
    for _ in 0..k1 {
        ops.push(mk(&mut r));
        if r.chance(1, 4) {
            // must not disturb the pairing
            ops.push(Op::AllocMul(lc_const(r.fe()), lc_const(r.fe())));
        }
        if r.chance(1, 5) {
            ops.push(Op::Mul(lc_const(r.fe()), lc_const(r.fe())));
        }
    }
    let mut cb = vec![];
    for _ in 0..k2 {
        cb.push(mk(&mut r));
        if r.chance(1, 4) {
            cb.push(Op::AllocMul(lc_const(r.fe()), lc_const(r.fe())));
        }
        if r.chance(1, 6) {
            cb = vec![Op::Rand(Arc::new(cb))];
        }
    }
    if k2 > 0 {
        ops.insert(r.below(ops.len() + 1), Op::Rand(Arc::new(cb)));
    }
    let prog = Prog { ops, desc: format!("singles {} {}", k1, k2) };
    let gn = gens(pow2(2 * (k1 + k2) + 2) * 2);
    let (p, st) = prove_prog(&prog, &gn, b"s", &POpts { check_api: true, snap: true, ..Default::default() });
    let sig = format!("singles {} {}", k1, k2);
    ctx.check(st.bad.is_empty(), &sig, &|| format!("{:?}", st.bad));
    let (m, ms) = model(&prog, &st.chals);
    ctx.check(ms.vars == st.vars, &format!("vars {}", sig), &|| format!("{:?} instead of {:?}", st.vars, ms.vars));
    if let Some(s) = &st.snap {
        ctx.check(s.al == m.al && s.ar == m.ar && s.ao == m.ao, &format!("wires {}", sig), &|| "wires differ".into());
    }
    match p {
        Ok(p) => {
            let (v, sv) = verify_prog(&prog, &gn, b"s", &p.proof, &p.comms, true);
            ctx.check(v.is_ok() && sv.bad.is_empty() && sv.vars == st.vars, &format!("verify {}", sig), &|| {
                format!("{:?} {:?} {:?}", v, sv.bad, sv.vars)
            });
        }
        Err(e) => {
            ctx.check(false, &sig, &|| format!("prove failed with {:?}", e));
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Algebra: random expressions over every operator of the library, judged by the value their terms \
         take under a random assignment and by evaluate_lc (distinct by top operator and size). Programs: \
         every call of a random program is judged against an independent model (value of each variable, \
         counters, pairing of single allocations, callback order, refused allocations), the two sides \
         against each other, and through the hooks the recorded constraints and wires against a reference \
         constraint system.",
    );
    let (alg, rounds, prg, fl) = match (SIM, o.thorough) {
        (true, false) => (240, 150, 2500, 400),
        (true, true) => (600, 400, 30000, 4000),
        (false, false) => (40, 120, 40, 10),
        (false, true) => (60, 200, 600, 100),
    };
    for i in 0..alg {
        s.add(format!("algebra {}", i), move |c| algebra(c, rounds));
    }
    for i in 0..prg {
        s.add(format!("program {}", i), move |c| {
            let cfg = random_cfg(&mut c.rng, SIM);
            programs(c, &cfg);
        });
    }
    for i in 0..fl {
        s.add(format!("failing {}", i), failing_callbacks);
    }
    for k1 in 0..if SIM { 7 } else { 4 } {
        for k2 in 0..if SIM { 7 } else { 3 } {
            s.add(format!("singles {} {}", k1, k2), move |c| singles(c, k1, k2));
        }
    }
    s
}
