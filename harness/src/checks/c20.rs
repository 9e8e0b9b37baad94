//! C20: vector polynomials, generators, hash-derived challenges and digit helpers compared with
//! their definitions, recomputed here element by element.
use crate::runner::*;
use crate::util::*;
use amcl_wrapper::constants::MODBYTES;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::get_base_4_repr;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::get_base_8_repr;
use bulletproofs_amcl::utils::vector_poly::{Poly2, Poly6, VecPoly1, VecPoly3};
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use std::collections::HashMap;

fn vals(r: &mut Rng, n: usize, style: usize) -> Vec<FE> {
    (0..n)
        .map(|_| match style {
            0 => FE::zero(),
            1 => FE::one(),
            2 => FE::minus_one(),
            3 => r.fe(),
            _ => {
                if r.chance(1, 4) {
                    FE::zero()
                } else {
                    r.fe_mixed()
                }
            }
        })
        .collect()
}
fn ip(a: &[FE], b: &[FE]) -> FE {
    a.iter().zip(b).fold(FE::zero(), |s, (x, y)| s + x * y)
}
/// value of the vector polynomial with the given coefficients, power by power
fn vev(co: &[Vec<FE>], x: &FE) -> Vec<FE> {
    let n = co[0].len();
    (0..n)
        .map(|i| {
            let (mut s, mut p) = (FE::zero(), FE::one());
            for c in co {
                s = s + &c[i] * &p;
                p = &p * x;
            }
            s
        })
        .collect()
}
fn sev(co: &[FE], x: &FE) -> FE {
    let (mut s, mut p) = (FE::zero(), FE::one());
    for c in co {
        s = s + c * &p;
        p = &p * x;
    }
    s
}
fn conv(l: &[Vec<FE>], r: &[Vec<FE>]) -> Vec<FE> {
    let mut t = vec![FE::zero(); l.len() + r.len() - 1];
    for (i, a) in l.iter().enumerate() {
        for (j, b) in r.iter().enumerate() {
            t[i + j] = &t[i + j] + &ip(a, b);
        }
    }
    t
}
fn points(r: &mut Rng) -> Vec<FE> {
    vec![FE::zero(), FE::one(), FE::minus_one(), fe(2), fe(r.u64_mixed()), r.fe(), r.fe().negation()]
}
fn same(a: &FieldElementVector, b: &[FE]) -> bool {
    a.len() == b.len() && (0..b.len()).all(|i| a[i] == b[i])
}

fn poly_case(ctx: &mut Ctx, n: usize, reps: usize) {
    let mut r = ctx.rng.fork();
    for k in 0..reps {
        let st = |r: &mut Rng| if k < 5 { k } else { r.below(6) };
        // degree 1
        let l: Vec<Vec<FE>> = (0..2).map(|_| { let s = st(&mut r); vals(&mut r, n, s) }).collect();
        let q: Vec<Vec<FE>> = (0..2).map(|_| { let s = st(&mut r); vals(&mut r, n, s) }).collect();
        let (lp, rp) = (VecPoly1(fev(&l[0]), fev(&l[1])), VecPoly1(fev(&q[0]), fev(&q[1])));
        let want = conv(&l, &q);
        let sig = format!("deg1 n={} style={}", n, k.min(5));
        let t = match ctx.total(&sig, || lp.inner_product(&rp)) {
            Some(t) => t,
            None => return,
        };
        ctx.check(t.0 == want[0] && t.1 == want[1] && t.2 == want[2], &sig, &|| {
            format!("<l, r> coefficients are not those of the product: got {} {} {}", shex(&t.0), shex(&t.1), shex(&t.2))
        });
        for x in points(&mut r) {
            let (a, b, c) = match ctx.total(&sig, || (lp.eval(&x), rp.eval(&x), t.eval(&x))) {
                Some(v) => v,
                None => return,
            };
            let ok = same(&a, &vev(&l, &x)) && same(&b, &vev(&q, &x));
            ctx.check(ok, &format!("{} eval", sig), &|| format!("l(x) or r(x) wrong at x={}", shex(&x)));
            ctx.check(c == sev(&want, &x) && c == ip(&vev(&l, &x), &vev(&q, &x)), &format!("{} t(x)", sig), &|| {
                format!("<l(x), r(x)> is not t(x) at x={}", shex(&x))
            });
        }
        ctx.count("degree-1 polynomials", 1);
        // degree 3 of the special shape
        let mut l: Vec<Vec<FE>> = (0..4).map(|_| { let s = st(&mut r); vals(&mut r, n, s) }).collect();
        let mut q: Vec<Vec<FE>> = (0..4).map(|_| { let s = st(&mut r); vals(&mut r, n, s) }).collect();
        l[0] = vec![FE::zero(); n];
        q[2] = vec![FE::zero(); n];
        let mk = |v: &Vec<Vec<FE>>| VecPoly3(fev(&v[0]), fev(&v[1]), fev(&v[2]), fev(&v[3]));
        let (lp, rp) = (mk(&l), mk(&q));
        let want = conv(&l, &q);
        let sig = format!("deg3 n={} style={}", n, k.min(5));
        let t = match ctx.total(&sig, || VecPoly3::special_inner_product(&lp, &rp)) {
            Some(t) => t,
            None => return,
        };
        let got = [&t.t1, &t.t2, &t.t3, &t.t4, &t.t5, &t.t6];
        for i in 0..6 {
            ctx.check(*got[i] == want[i + 1], &format!("{} t{}", sig, i + 1), &|| {
                format!("t{} is {} instead of {}", i + 1, shex(got[i]), shex(&want[i + 1]))
            });
        }
        for x in points(&mut r) {
            let (a, b, c) = match ctx.total(&sig, || (lp.eval(&x), rp.eval(&x), t.eval(&x))) {
                Some(v) => v,
                None => return,
            };
            let ok = same(&a, &vev(&l, &x)) && same(&b, &vev(&q, &x));
            ctx.check(ok, &format!("{} eval", sig), &|| format!("l(x) or r(x) wrong at x={}", shex(&x)));
            ctx.check(c == ip(&vev(&l, &x), &vev(&q, &x)), &format!("{} t(x)", sig), &|| {
                format!("<l(x), r(x)> is not t(x) at x={}", shex(&x))
            });
        }
        ctx.count("degree-3 polynomials", 1);
        // a degree-3 polynomial of any shape still evaluates to its definition
        let l: Vec<Vec<FE>> = (0..4).map(|_| vals(&mut r, n, 5)).collect();
        let x = r.fe_mixed();
        if let Some(a) = ctx.total("deg3 general", || mk(&l).eval(&x)) {
            ctx.check(same(&a, &vev(&l, &x)), &format!("deg3 general n={}", n), &|| format!("wrong at x={}", shex(&x)));
        }
        // scalar polynomials on their own
        let co: Vec<FE> = (0..7).map(|i| if i == 0 { FE::zero() } else { vals(&mut r, 1, 5).remove(0) }).collect();
        let p6 = Poly6 { t1: co[1].clone(), t2: co[2].clone(), t3: co[3].clone(), t4: co[4].clone(), t5: co[5].clone(), t6: co[6].clone() };
        let p2 = Poly2(co[4].clone(), co[5].clone(), co[6].clone());
        for x in points(&mut r) {
            ctx.check(p6.eval(&x) == sev(&co, &x), "Poly6", &|| format!("wrong value at x={}", shex(&x)));
            ctx.check(p2.eval(&x) == sev(&co[4..], &x), "Poly2", &|| format!("wrong value at x={}", shex(&x)));
        }
    }
    let z = vec![FE::zero(); n];
    let x = r.fe();
    if let Some((a, b)) = ctx.total("zero", || (VecPoly1::zero(n), VecPoly3::zero(n))) {
        let ok = same(&a.0, &z) && same(&a.1, &z) && same(&b.0, &z) && same(&b.1, &z) && same(&b.2, &z) && same(&b.3, &z)
            && same(&a.eval(&x), &z) && same(&b.eval(&x), &z);
        ctx.check(ok, &format!("zero n={}", n), &|| "the zero polynomial is not zero of the asked length".into());
    }
}

const PREFIXES: [&str; 17] = ["", "g", "h", "G", "H", "GG", "prefix", "g_", "g-1-", "a longer generator prefix / with spaces", "é", "\u{0}", "G ", " G", "a longer generator prefix / with spaces too", "a longer generator prefix . with spaces", "A longer generator prefix / with spaces"];

fn gens_case(ctx: &mut Ctx, n: usize, prefixes: &[&str]) {
    // point -> (prefix, index)
    let mut seen: HashMap<Vec<u8>, (String, usize)> = HashMap::new();
    for p in prefixes {
        let v = match ctx.total("get_generators", || get_generators(p, n)) {
            Some(v) => v,
            None => return,
        };
        ctx.check(v.len() == n, &format!("count {:?} n={}", p, n), &|| format!("asked {} got {}", n, v.len()));
        for (i, g) in v.iter().enumerate() {
            let b = g.to_bytes();
            if g.is_identity() {
                ctx.check(false, "identity", &|| format!("generator {} of {:?} is the identity", i, p));
            }
            // a prefix ending in digits would be ambiguous with a longer index; none does here
            if let Some((q, j)) = seen.insert(b, (p.to_string(), i)) {
                ctx.check(false, "distinct", &|| format!("generator {} of {:?} equals generator {} of {:?}", i, p, j, q));
                return;
            }
        }
        ctx.count("generators", n as u64);
        ctx.check(true, &format!("distinct {:?} n={}", p, n), &|| String::new());
        // prefix-stable and deterministic
        for m in [0, 1, 2, 3, n / 3, n / 2, n.saturating_sub(1), n].iter().filter(|m| **m <= n.min(1200)) {
            if let Some(w) = ctx.total("get_generators", || get_generators(p, *m)) {
                ctx.check(w[..] == v[..w.len().min(v.len())] && w.len() == *m, &format!("stable {:?} {} of {}", p, m, n), &|| {
                    format!("the first {} generators depend on how many were asked", m)
                });
            }
        }
        // no relation anyone could write down: small multiples, constant differences or ratios, sums
        let k = n.min(40);
        let gg = G1::generator();
        let mut diffs: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
        let mut bad: Option<String> = None;
        let mut mult: HashMap<Vec<u8>, String> = HashMap::new();
        for i in 0..k.min(12) {
            let mut acc = v[i].clone();
            for m in 1..9 {
                for s in 0..2 {
                    let q = if s == 0 { acc.clone() } else { acc.negation() };
                    let nm = format!("{}{}*g{}", if s == 1 { "-" } else { "" }, m, i);
                    if let Some(o) = mult.insert(q.to_bytes(), nm.clone()) {
                        bad = Some(format!("{} = {}", o, nm));
                    }
                }
                acc = &acc + &v[i];
            }
        }
        let mut acc = gg.clone();
        for m in 1..200 {
            if let Some(o) = mult.get(&acc.to_bytes()) {
                bad = Some(format!("{} = {} * the group generator", o, m));
            }
            acc = &acc + &gg;
        }
        for i in 0..k {
            for j in 0..i {
                let d = &v[i] - &v[j];
                if let Some((a, b)) = diffs.insert(d.to_bytes(), (i, j)) {
                    bad = Some(format!("g{}-g{} = g{}-g{}", i, j, a, b));
                }
                if let Some(o) = mult.get(&d.to_bytes()) {
                    bad = Some(format!("g{}-g{} = {}", i, j, o));
                }
            }
        }
        // no generator is the sum or difference of two others (all pairs of a limited range)
        let lim = n.min(if SIM { 300 } else { 110 });
        let index: HashMap<Vec<u8>, usize> = v[..lim].iter().enumerate().map(|(i, g)| (g.to_bytes(), i)).collect();
        for i in 0..lim {
            for j in 0..i {
                if let Some(o) = index.get(&(&v[i] - &v[j]).to_bytes()) {
                    bad = Some(format!("g{}-g{} = g{}", i, j, o));
                }
            }
        }
        ctx.check(bad.is_none(), &format!("unrelated {:?}", p), &|| format!("generators are related: {}", bad.clone().unwrap()));
    }
}

fn challenges_case(ctx: &mut Ctx, reps: usize) {
    let mut r = ctx.rng.fork();
    let pool: Vec<G1> = (0..8).map(|_| r.g1()).chain(vec![G1::generator(), G1::identity()]).collect();
    let mut all: HashMap<String, String> = HashMap::new();
    for rep in 0..reps {
        let k = if rep < 4 { rep } else { r.range(0, 6) };
        let n = if rep < 6 { rep + 1 } else { r.range(1, 9) };
        let ins: Vec<&G1> = (0..k).map(|_| r.pick(&pool)).collect();
        let sl = *r.pick(&[0usize, 1, 2, 31, 32, 48, 97, 200, 1000]);
        let st0: Vec<u8> = (0..sl).map(|_| r.next() as u8).collect();
        if ins.is_empty() && st0.is_empty() {
            continue;
        }
        let run = |ins: &[&G1], st: &[u8], n: usize| {
            let mut s = st.to_vec();
            let c = gen_challenges(ins, &mut s, n);
            (c, s)
        };
        let sig = format!("inputs={} n={} state={}", k, n, sl);
        let (c, s) = match ctx.total(&sig, || run(&ins, &st0, n)) {
            Some(v) => v,
            None => return,
        };
        ctx.count("challenge runs", 1);
        ctx.check(c.len() == n, &format!("{} length", sig), &|| format!("{} challenges instead of {}", c.len(), n));
        let (c2, s2) = run(&ins, &st0, n);
        ctx.check(c == c2 && s == s2, &format!("{} deterministic", sig), &|| "two runs differ".into());
        for m in 1..n {
            let (cm, _) = run(&ins, &st0, m);
            ctx.check(cm[..] == c[..m], &format!("{} first {}", sig, m), &|| "the first challenges depend on how many were asked".into());
        }
        for i in 0..n {
            ctx.check(!c[..i].contains(&c[i]) && !c[i].is_zero(), &format!("{} distinct {}", sig, i), &|| "a challenge repeats or is zero".into());
        }
        // chained: the same inputs again give other challenges, which depend on the first run
        let mut s3 = s.clone();
        let again = gen_challenges(&ins, &mut s3, n);
        for i in 0..n {
            ctx.check(!c.contains(&again[i]) || ins.is_empty(), &format!("{} chained {}", sig, i), &|| {
                "a second run through the same state repeats a challenge".into()
            });
        }
        // every change of the inputs or of the state changes every challenge
        let mut variants: Vec<(String, Vec<&G1>, Vec<u8>)> = vec![];
        for i in 0..k {
            let mut w = ins.clone();
            let o = loop {
                let o = r.pick(&pool);
                if *o != *ins[i] {
                    break o;
                }
            };
            w[i] = o;
            variants.push((format!("input {} replaced", i), w, st0.clone()));
            let mut w = ins.clone();
            w.remove(i);
            if !(w.is_empty() && st0.is_empty()) {
                variants.push((format!("input {} dropped", i), w, st0.clone()));
            }
            let mut w = ins.clone();
            w.insert(i, ins[i]);
            variants.push((format!("input {} doubled", i), w, st0.clone()));
            if i > 0 && *ins[i] != *ins[i - 1] {
                let mut w = ins.clone();
                w.swap(i, i - 1);
                variants.push((format!("inputs {} and {} swapped", i - 1, i), w, st0.clone()));
            }
        }
        let mut ids: Vec<usize> = (0..sl).collect();
        r.shuffle(&mut ids);
        for i in ids.into_iter().take(6).chain(if sl > 0 { vec![0, sl - 1] } else { vec![] }) {
            let mut st = st0.clone();
            st[i] ^= 1 << r.below(8);
            variants.push((format!("state byte {} changed", i), ins.clone(), st));
        }
        let mut st = st0.clone();
        st.push(0);
        variants.push(("state extended".into(), ins.clone(), st));
        for (what, w, st) in variants {
            let (d, s2) = run(&w, &st, n);
            ctx.count("challenge perturbations", 1);
            for i in 0..n {
                ctx.check(d[i] != c[i], &format!("{} {} challenge {}", sig, what, i), &|| format!("{}: challenge {} did not change", what, i));
            }
            ctx.check(s2 != s, &format!("{} {} state", sig, what), &|| format!("{}: same state afterwards", what));
        }
        // what later runs do depends on this run
        let nxt = r.pick(&pool);
        let (mut a, mut b) = (s.clone(), st0.clone());
        let (ca, cb) = (gen_challenges(&[nxt], &mut a, 1), gen_challenges(&[nxt], &mut b, 1));
        ctx.check(ca != cb || (ins.is_empty() && n == 1), &format!("{} later", sig), &|| "a later run does not depend on this one".into());
        let key = format!("{:?}|{:?}", ins.iter().map(|g| g.to_bytes()).collect::<Vec<_>>(), st0);
        if let Some(o) = all.insert(hex(&c[0]), key.clone()) {
            ctx.check(o == key, "collision", &|| "different inputs gave the same challenge".into());
        }
    }
}

fn bits_of(s: &FE) -> Vec<u8> {
    // least significant first
    let b = s.to_bytes();
    let mut v = vec![];
    for x in b.iter().rev() {
        for i in 0..8 {
            v.push((x >> i) & 1);
        }
    }
    v
}
fn digits_case(ctx: &mut Ctx, w: usize, reps: usize) {
    let mut r = ctx.rng.fork();
    let max = MODBYTES * 8 / w;
    let mut scalars: Vec<FE> = vec![FE::zero(), FE::one(), FE::minus_one(), fe(u64::max_value()), fe(1 << 63), fe((1 << 32) - 1), fe(1 << 32)];
    for k in 0..254 {
        scalars.push(fe_pow2(k));
        scalars.push(&fe_pow2(k) - &FE::one());
        if k % 3 == 0 {
            scalars.push(&fe_pow2(k) + &fe(r.u64_mixed()));
        }
    }
    for _ in 0..reps {
        scalars.push(r.fe());
        scalars.push(r.fe_mixed());
    }
    for (si, s) in scalars.iter().enumerate() {
        let bits = bits_of(s);
        let mut ns: Vec<usize> = vec![0, 1, 2, 3, 10, 21, 22, 32, 42, 43, 64, 85, max / 2, max - 1, max];
        ns.push(r.range(0, max));
        for n in ns.into_iter().filter(|n| *n <= max) {
            let sig = format!("base {} digits={} scalar#{}", 1 << w, n, si);
            let d = match ctx.total(&sig, || if w == 2 { get_base_4_repr(s, n) } else { get_base_8_repr(s, n) }) {
                Some(d) => d,
                None => return,
            };
            let want: Vec<u8> = (0..n)
                .rev()
                .map(|i| (0..w).map(|j| bits.get(i * w + j).cloned().unwrap_or(0) << j).sum())
                .collect();
            ctx.check(d == want, &sig, &|| format!("digits of {} are {:?} instead of {:?}", shex(s), d, want));
        }
        ctx.count("scalars split into digits", 1);
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new("one evaluation = one polynomial identity, generator set, challenge run or digit split compared with its definition; distinct by helper, size, style and variation");
    let t = o.thorough;
    let mut sizes: Vec<usize> = (0..20).collect();
    sizes.extend(vec![31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024]);
    if t {
        sizes.extend(20..31);
        sizes.extend(vec![2048, 4097, 65537]);
    }
    for n in sizes {
        s.add(format!("polynomials of length {}", n), move |c| poly_case(c, n, if t { if n > 300 { 8 } else { 40 } } else if n > 200 { 5 } else { 8 }));
    }
    for p in PREFIXES.iter() {
        let p: &'static str = p;
        s.add(format!("generators {:?}", p), move |c| gens_case(c, if t { 3000 } else { 300 }, &[p]));
    }
    s.add("generators across prefixes", move |c| gens_case(c, if SIM { 600 } else if t { 300 } else { 64 }, &PREFIXES));
    if SIM || t {
        s.add("many generators", move |c| gens_case(c, if SIM { 70000 } else { 20000 }, &["many"]));
    }
    for i in 0..if t { 60 } else { 8 } {
        s.add(format!("challenges #{}", i), move |c| challenges_case(c, if t { 100 } else { 30 }));
    }
    for i in 0..if t { 30 } else { 2 } {
        s.add(format!("base 4 digits #{}", i), move |c| digits_case(c, 2, if t { 2000 } else { 500 }));
        s.add(format!("base 8 digits #{}", i), move |c| digits_case(c, 3, if t { 2000 } else { 500 }));
    }
    s.add("small integers".to_string(), |c| {
        let mut r = c.rng.fork();
        for i in 0..2000u64 {
            let x = if i < 200 { i } else { r.u64_mixed() };
            let f = bulletproofs_amcl::utils::field_elem_from_u64(x);
            c.check(f == fe(x), &format!("u64 {}", x.leading_zeros()), &|| format!("{} became {}", x, shex(&f)));
        }
    });
    s.assume("prefixes that end in a digit are excluded from the cross-prefix comparison (prefix \"a1\" index 1 and prefix \"a\" index 11 are the same string)");
    s
}
