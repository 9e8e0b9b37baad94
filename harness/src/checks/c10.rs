//! C10: range proofs accept exactly [min, max].
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::bound_check::bound_check_gadget;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use merlin::Transcript;

fn bits_for(span: u64) -> usize {
    (64 - span.leading_zeros() as usize).max(1)
}
fn as_u64(v: &FE) -> Option<u64> {
    let b = v.to_bytes();
    let k = b.len() - 8;
    if b[..k].iter().any(|x| *x != 0) {
        return None;
    }
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[k..]);
    Some(u64::from_be_bytes(a))
}
/// The library's own gadget with arbitrary committed field elements.
fn template(v: &FE, a: &FE, b: &FE, lo: u64, hi: u64, n: usize, r: &mut Rng) -> Option<(R1CSProof, Vec<G1>, Gens)> {
    let gn = gens(512);
    let mut tr = Transcript::new(b"t");
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut comms = vec![];
    let mut q = |p: &mut Prover, x: &FE| {
        let (c, variable) = p.commit(x.clone(), r.fe());
        comms.push(c);
        AllocatedQuantity { variable, assignment: Some(x.clone()) }
    };
    let (qv, qa, qb) = (q(&mut p, v), q(&mut p, a), q(&mut p, b));
    bound_check_gadget(&mut p, qv, qa, qb, hi, lo, n).ok()?;
    let proof = p.prove(&gn.G, &gn.H).ok()?;
    Some((proof, comms, gn))
}
/// v outside [lo, hi]: adversaries
fn outside(ctx: &mut Ctx, v: &FE, lo: u64, hi: u64, n: usize, budget: usize, sig: &str) {
    let claim = Gd::Bound { v: as_u64(v).unwrap_or(0), lo, hi, n };
    let (flo, fhi) = (fe(lo), fe(hi));
    let mut r = ctx.rng.fork();
    // differences as they are; b adjusted to the sum; a and b swapped; both clipped to the bits
    let (a, b) = (v - &flo, &fhi - v);
    let span = &fhi - &flo;
    let tries = vec![
        (a.clone(), b.clone()),
        (a.clone(), &span - &a),
        (&span - &b, b.clone()),
        (FE::zero(), span.clone()),
        (span.clone(), FE::zero()),
        (b.clone(), a.clone()),
        (a.negation(), b.clone()),
        (a.clone(), b.negation()),
    ];
    for (k, (a, b)) in tries.iter().enumerate() {
        if k > 1 && !ctx.thorough && !r.chance(1, if SIM { 3 } else { 8 }) {
            continue;
        }
        let t = guard(|| template(v, a, b, lo, hi, n, &mut r));
        if let Ok(Some((p, c, gn))) = t {
            let res = guard(|| claim.verify(&p, &c, b"t", &gn));
            ctx.count("outside_proofs", 1);
            ctx.check(match res { Ok(Ok(())) => false, _ => true }, &format!("{} t{}", sig, k), &|| {
                format!("{} accepted in [{}, {}] with {} bits", shex(v), lo, hi, n)
            });
        }
    }
    if budget > 0 {
        attack(ctx, &claim, &[(0, v.clone())], None, budget, &format!("{} search", sig));
    }
}

fn positive(ctx: &mut Ctx, v: &FE, n: usize, inside: bool, budget: usize, sig: &str) {
    let gd = Gd::Positive { v: v.clone(), n };
    if inside {
        honest(ctx, &gd, sig);
    } else {
        false_claim(ctx, &gd, &gd, sig);
        if budget > 0 {
            attack(ctx, &gd, &[(0, v.clone())], None, budget, &format!("{} search", sig));
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Inside: honest proofs over exhaustive small intervals, boundary values of large ones and random \
         ones, every bit size. Outside: the library's gadget run on out-of-range values and inconsistent \
         differences, and an adversarial witness search over the constraints the verifier recorded \
         (exhaustive for small bit sizes); whatever it finds is proved for real and must be rejected. \
         Distinct by interval, bit size, value and adversary.",
    );
    s.assume("bit size n <= 64, as the documentation's u64 values imply; far larger n would wrap around the field");
    let big = if o.thorough { 4 } else { 1 };
    // the single-bit constraint
    s.add("bit", move |c| {
        for v in vec![FE::zero(), FE::one()] {
            honest(c, &Gd::Bit { v: v.clone() }, &format!("bit {}", shex(&v)));
        }
        let mut vals = vec![fe(2), fe(3), FE::minus_one(), fe(2).inverse(), fe_pow2(64), fe_pow2(200)];
        for _ in 0..40 * big {
            let x = c.rng.fe_mixed();
            if x != FE::zero() && x != FE::one() {
                vals.push(x);
            }
        }
        for v in vals {
            let gd = Gd::Bit { v: v.clone() };
            false_claim(c, &gd, &gd, &format!("notbit {}", shex(&v)));
            attack(c, &gd, &[(0, v.clone())], None, 100, &format!("notbit {} search", shex(&v)));
        }
    });
    // non-negativity: exhaustive for few bits
    for n in 1..=(if SIM { 7 } else { 3 }) {
        s.add(format!("positive {}", n), move |c| {
            let top = 1u64 << n;
            for v in 0..top {
                positive(c, &fe(v), n, true, 0, &format!("in {} {}", n, v));
            }
            let mut out: Vec<FE> = (0..top.min(8)).map(|i| fe(top + i)).collect();
            out.extend(vec![FE::minus_one(), fe(2).negation(), fe(top).negation(), fe(2 * top), fe(2 * top - 1), fe(3 * top),
                fe_pow2(64), fe_pow2(100), fe(3).inverse(), fe(top).inverse(), &fe_pow2(250) + &fe(1)]);
            for _ in 0..6 {
                out.push(c.rng.fe());
            }
            for v in out {
                positive(c, &v, n, false, 4000, &format!("out {} {}", n, shex(&v)));
            }
        });
    }
    let sizes: Vec<usize> = if SIM || o.thorough { (8..=72).collect() } else { vec![8, 31, 32, 33, 63, 64] };
    for n in sizes {
        s.add(format!("positive {}", n), move |c| {
            let top = fe_pow2(n);
            let mut ins = vec![FE::zero(), FE::one(), &top - &FE::one(), fe_pow2(n - 1), &fe_pow2(n - 1) - &FE::one()];
            for _ in 0..if SIM { 12 } else { 1 } {
                let k = c.rng.range(1, n.min(64));
                ins.push(fe(c.rng.next() >> (64 - k)));
            }
            for i in 0..if SIM { n } else { 0 } {
                ins.push(fe_pow2(i));
            }
            for v in ins {
                positive(c, &v, n, true, 0, &format!("in {} {}", n, shex(&v)));
            }
            let mut out = vec![top.clone(), &top + &FE::one(), &(&top + &top) - &FE::one(), FE::minus_one(), top.negation(),
                &top * &fe(3), fe_pow2(n + 1), fe_pow2(n + 8), fe_pow2(n + 64), fe_pow2(250), fe_pow2(254), fe(2).inverse(), fe(3).inverse(), top.inverse()];
            for _ in 0..if SIM { 4 } else { 1 } {
                out.push(c.rng.fe());
                let x = fe(c.rng.next() >> (64 - n.min(64)));
                out.push(&top + &x);
            }
            for (i, v) in out.iter().enumerate() {
                let b = if SIM && i < 4 { 150 } else { 0 };
                positive(c, v, n, false, b, &format!("out {} {}", n, shex(v)));
            }
        });
    }
    // all small intervals
    let m = if SIM { 3 } else { 2 };
    for n in 1..=m {
        let top = 1u64 << n;
        for lo in 0..=top {
            s.add(format!("interval n={} lo={}", n, lo), move |c| {
                for hi in lo..lo + top {
                    for v in lo..=hi {
                        honest(c, &Gd::Bound { v, lo, hi, n }, &format!("in {} [{},{}] {}", n, lo, hi, v));
                    }
                    let mut out: Vec<FE> = vec![];
                    for d in 1..=(if SIM { top } else { 2 }) {
                        out.push(&fe(hi) + &fe(d));
                        out.push(&fe(lo) - &fe(d));
                    }
                    for v in out {
                        outside(c, &v, lo, hi, n, if SIM { 2000 } else { 0 }, &format!("out {} [{},{}] {}", n, lo, hi, shex(&v)));
                    }
                }
            });
        }
    }
    // boundaries of large intervals
    let max = u64::max_value();
    let specials: Vec<u64> = vec![0, 1, 2, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 52) + 1,
        (1 << 62) - 1, 1 << 62, i64::max_value() as u64, 1 << 63, (1 << 63) + 1, max - 1, max];
    let mut pairs = vec![];
    for lo in &specials {
        for hi in &specials {
            if lo <= hi {
                pairs.push((*lo, *hi));
            }
        }
    }
    let step = if SIM || o.thorough { 1 } else { 8 };
    for (k, (lo, hi)) in pairs.into_iter().enumerate() {
        if k % step != 0 {
            continue;
        }
        s.add(format!("special [{}, {}]", lo, hi), move |c| {
            let span = hi - lo;
            let n = bits_for(span);
            let ns = if n < 64 && SIM { vec![n, n + 1, 64] } else { vec![n] };
            for n in ns {
                let mut ins = vec![lo, hi, lo + span / 2];
                if span > 2 {
                    ins.push(lo + 1);
                    ins.push(hi - 1);
                }
                ins.dedup();
                for v in ins {
                    honest(c, &Gd::Bound { v, lo, hi, n }, &format!("in {} {}", n, v));
                }
                let mut out = vec![&fe(hi) + &FE::one(), &fe(lo) - &FE::one(), &fe(hi) + &fe_pow2(n), &fe(lo) - &fe_pow2(n),
                    fe(lo).negation(), &fe(hi) + &fe_pow2(64), &fe(lo) + &fe_pow2(64)];
                // far away: around half the field, and at every distance
                out.extend(vec![fe(2).inverse(), &fe(lo) + &fe(2).inverse(), &fe_pow2(254) - &FE::one(), &fe(hi) + &fe_pow2(253),
                    &(&fe(lo) + &fe_pow2(254)) - &fe_pow2(250)]);
                for _ in 0..3 {
                    let k = c.rng.range(n, 254);
                    out.push(&fe(hi) + &fe_pow2(k));
                    let k = c.rng.range(n, 254);
                    out.push(&fe(lo) - &fe_pow2(k));
                }
                if hi < max {
                    out.push(fe(max));
                }
                if lo > 0 {
                    out.push(fe(0));
                }
                let (l, h) = (fe(lo), fe(hi));
                for (i, v) in out.iter().enumerate() {
                    if *v == l || *v == h {
                        continue;
                    }
                    if as_u64(v).map(|x| x >= lo && x <= hi).unwrap_or(false) {
                        continue;
                    }
                    if !SIM && i > 1 {
                        break;
                    }
                    outside(c, v, lo, hi, n, if SIM && i < 2 { 60 } else { 0 }, &format!("out {} {}", n, shex(v)));
                }
            }
        });
    }
    // random intervals; a proof for one interval offered for another one
    for i in 0..match (SIM, o.thorough) { (true, false) => 300, (true, true) => 6000, (false, false) => 6, (false, true) => 150 } {
        s.add(format!("random {}", i), move |c| {
            let mut r = c.rng.fork();
            let sz = r.below(16);
            let g = gen(&mut r, 1, sz);
            let h = honest(c, &g, &format!("in {}", g.desc()));
            if let (Gd::Bound { v, lo, hi, n }, Some((p, comms, gn))) = (&g, h) {
                let (v, lo, hi, n) = (*v, *lo, *hi, *n);
                let mut others = vec![];
                if v < max {
                    others.push((v + 1, hi.max(v + 1), n));
                    others.push((v + 1, max, 64));
                }
                if v > 0 {
                    others.push((lo.min(v - 1), v - 1, n));
                    others.push((0, v - 1, 64));
                }
                for (lo2, hi2, n2) in others {
                    let res = guard(|| (Gd::Bound { v, lo: lo2, hi: hi2, n: n2 }).verify(&p, &comms, b"honest", &gens(128)));
                    c.check(match res { Ok(Ok(())) => false, _ => true }, &format!("other interval {} {} {}", v, lo2, hi2), &|| {
                        format!("proof that {} is in [{}, {}] accepted for [{}, {}]", v, lo, hi, lo2, hi2)
                    });
                }
                let _ = gn;
                // a random value outside
                let x = r.fe_mixed();
                if as_u64(&x).map(|x| x < lo || x > hi).unwrap_or(true) {
                    outside(c, &x, lo, hi, n, if SIM { 200 } else { 0 }, &format!("out {} {}", g.desc(), shex(&x)));
                }
            }
        });
    }
    s
}
