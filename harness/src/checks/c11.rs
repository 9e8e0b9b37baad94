//! C11: set membership, both constructions.
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;

fn not_in(r: &mut Rng, set: &[FE], k: usize) -> FE {
    let special = vec![FE::zero(), FE::one(), FE::minus_one()];
    if k < 3 && !set.contains(&special[k]) {
        return special[k].clone();
    }
    loop {
        let x = match r.below(6) {
            // near misses: next to an element, its negation, its inverse, sums of elements
            0 if !set.is_empty() => r.pick(set) + &FE::one(),
            1 if !set.is_empty() => r.pick(set).negation(),
            2 if set.len() > 1 => r.pick(set) + r.pick(set),
            3 if set.len() > 1 => (r.pick(set) + r.pick(set)) * fe(2).inverse(),
            4 if !set.is_empty() => r.pick(set) + &fe_pow2(64),
            _ => r.fe_mixed(),
        };
        if !set.contains(&x) {
            return x;
        }
    }
}
fn field_set(r: &mut Rng, n: usize) -> Vec<FE> {
    (0..n).map(|_| r.fe_mixed()).collect()
}
fn u64_set(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut s = vec![];
    while s.len() < n {
        let x = match r.below(4) {
            0 => r.next() % (4 * n as u64 + 2),
            1 => u64::max_value() - r.next() % (4 * n as u64 + 2),
            2 => (1 << 63) + r.next() % (4 * n as u64 + 2),
            _ => r.u64_mixed(),
        };
        if !s.contains(&x) {
            s.push(x);
        }
    }
    s
}
fn field(ctx: &mut Ctx, n: usize, positions: &[usize], misses: usize) {
    let mut r = ctx.rng.fork();
    let set = field_set(&mut r, n);
    for i in positions {
        honest(ctx, &Gd::Set { v: set[*i].clone(), set: set.clone() }, &format!("set {} at {}", n, i));
    }
    for k in 0..misses {
        let v = not_in(&mut r, &set, k);
        let gd = Gd::Set { v: v.clone(), set: set.clone() };
        false_claim(ctx, &gd, &gd, &format!("set {} miss {}", n, k));
        if n <= 40 || (SIM && n <= 130) {
            attack(ctx, &gd, &[(0, v.clone())], None, 2000, &format!("set {} miss {} search", n, k));
        }
        // a member of another set
        if n > 0 {
            let mut other = set.clone();
            let at = r.below(n);
            other[at] = v.clone();
            let wit = Gd::Set { v: v.clone(), set: other };
            false_claim(ctx, &wit, &gd, &format!("set {} other {}", n, k));
        }
    }
}
fn bitmap(ctx: &mut Ctx, n: usize, positions: &[usize], misses: usize) {
    let mut r = ctx.rng.fork();
    let set = u64_set(&mut r, n);
    let fset: Vec<FE> = set.iter().map(|x| fe(*x)).collect();
    for i in positions {
        honest(ctx, &Gd::SetAlt { v: set[*i], set: set.clone() }, &format!("alt {} at {}", n, i));
    }
    for k in 0..misses {
        // also values that are no u64 at all
        let v = not_in(&mut r, &fset, k);
        let claim = Gd::SetAlt { v: 0, set: set.clone() };
        if n <= 40 || (SIM && n <= 130) {
            attack(ctx, &claim, &[(n, v.clone())], None, 2000, &format!("alt {} miss {} search", n, k));
        }
        let x = loop {
            let x = match r.below(5) {
                4 => r.next() % 3,
                0 if n > 0 => r.pick(&set).wrapping_add(1),
                1 if n > 0 => r.pick(&set) ^ (1 << 63),
                2 if n > 1 => r.pick(&set).wrapping_add(*r.pick(&set)),
                _ => r.u64_mixed(),
            };
            if !set.contains(&x) {
                break x;
            }
        };
        let gd = Gd::SetAlt { v: x, set: set.clone() };
        false_claim(ctx, &gd, &gd, &format!("alt {} miss {}", n, k));
        if n > 0 {
            let mut other = set.clone();
            let at = r.below(n);
            other[at] = x;
            false_claim(ctx, &Gd::SetAlt { v: x, set: other }, &gd, &format!("alt {} other {}", n, k));
        }
        // two bits set: a value that is the sum of two elements
        if n > 1 {
            let (a, b) = (r.below(n), r.below(n));
            let v = &fset[a] + &fset[b];
            if a != b && !fset.contains(&v) && n <= if SIM { 130 } else { 40 } {
                let mut fix = vec![(n, v.clone())];
                for i in 0..n {
                    fix.push((i, if i == a || i == b { FE::one() } else { FE::zero() }));
                }
                attack(ctx, &claim, &fix, None, 200, &format!("alt {} two bits {}", n, k));
            }
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Every position of sets of every size up to the bound must have an accepted proof; values next to \
         elements, combinations of elements and random ones must not: the library's prover, a proof for a \
         set that differs in one element, and an adversarial witness search over the verifier's recorded \
         constraints (auxiliary commitments free). Distinct by construction, set size, position or miss.",
    );
    s.assume("bitmap construction: distinct set elements");
    let top = match (SIM, o.thorough) { (true, false) => 36, (true, true) => 72, (false, false) => 6, (false, true) => 20 };
    let miss = if SIM { 10 } else { 4 };
    for n in 0..=top {
        let all: Vec<usize> = (0..n).collect();
        let a2 = all.clone();
        s.add(format!("field set {}", n), move |c| field(c, n, &all, miss));
        s.add(format!("bitmap set {}", n), move |c| bitmap(c, n, &a2, miss));
    }
    if SIM {
        for n in vec![63, 64, 65, 100, 127, 128, 129, 200, 257] {
            s.add(format!("field set {}", n), move |c| field(c, n, &[0, 1, n / 2, n - 2, n - 1], 4));
            s.add(format!("bitmap set {}", n), move |c| bitmap(c, n, &[0, 1, n / 2, n - 2, n - 1], 4));
        }
        for i in 0..if o.thorough { 3000 } else { 150 } {
            s.add(format!("random {}", i), move |c| {
                let n = c.rng.range(1, 12);
                let p = vec![c.rng.below(n), n - 1];
                field(c, n, &p, 3);
                bitmap(c, n, &p, 3);
            });
        }
    }
    s
}
