//! C12: non-zero and non-membership proofs.
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;

fn zero_attacks(ctx: &mut Ctx) {
    let gd = Gd::NonZero { v: FE::zero() };
    attack(ctx, &gd, &[(0, FE::zero())], None, 1000, "zero search");
    // whatever the inverse is claimed to be
    let mut invs = vec![FE::zero(), FE::one(), FE::minus_one()];
    for _ in 0..10 {
        invs.push(ctx.rng.fe_mixed());
    }
    for (k, i) in invs.iter().enumerate() {
        attack(ctx, &gd, &[(0, FE::zero()), (1, i.clone())], None, 1000, &format!("zero inv {}", k));
    }
    false_claim(ctx, &gd, &gd, "zero library prover");
}
fn set_case(ctx: &mut Ctx, n: usize, hits: &[usize], misses: usize) {
    let mut r = ctx.rng.fork();
    let set: Vec<FE> = (0..n).map(|_| r.fe_mixed()).collect();
    for k in 0..misses {
        let v = loop {
            let x = match r.below(5) {
                0 if n > 0 => r.pick(&set) + &FE::one(),
                1 if n > 0 => r.pick(&set) - &FE::one(),
                2 if n > 0 => r.pick(&set) + &fe_pow2(64),
                3 if n > 0 => r.pick(&set).negation(),
                _ => r.fe_mixed(),
            };
            if !set.contains(&x) {
                break x;
            }
        };
        honest(ctx, &Gd::NonMember { v: v.clone(), set: set.clone() }, &format!("nonmember {} {}", n, k));
    }
    for i in hits {
        let v = set[*i].clone();
        let gd = Gd::NonMember { v: v.clone(), set: set.clone() };
        false_claim(ctx, &gd, &gd, &format!("member {} at {}", n, i));
        if n <= 40 || (SIM && n <= 130) {
            attack(ctx, &gd, &[(0, v.clone())], None, 1000, &format!("member {} at {} search", n, i));
        }
        // an honest proof for the set without that element (replaced)
        let mut other = set.clone();
        for x in other.iter_mut() {
            while *x == v {
                *x = r.fe();
            }
        }
        false_claim(ctx, &Gd::NonMember { v: v.clone(), set: other }, &gd, &format!("member {} at {} other", n, i));
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Non-zero: special and random values must have accepted proofs, zero none (library prover, every \
         claimed inverse, witness search over the verifier's constraints). Non-membership: for every set \
         size and every position, the member at that position must have no accepted proof, values next to \
         members must have one. Distinct by set size and position / value.",
    );
    s.add("zero", zero_attacks);
    for i in 0..if SIM { 60 } else { 6 } {
        s.add(format!("non-zero {}", i), move |c| {
            let mut vals = if i == 0 {
                let mut v = vec![FE::one(), FE::minus_one(), fe(2), fe(2).inverse(), fe(u64::max_value())];
                for k in 0..if SIM { 254 } else { 4 } {
                    v.push(fe_pow2(k));
                }
                v
            } else {
                vec![]
            };
            for _ in 0..4 {
                vals.push(c.rng.fe_mixed_nonzero());
            }
            for v in vals {
                honest(c, &Gd::NonZero { v: v.clone() }, &format!("nz {}", shex(&v)));
            }
        });
    }
    let top = match (SIM, o.thorough) { (true, false) => 32, (true, true) => 70, (false, false) => 5, (false, true) => 16 };
    for n in 0..=top {
        let all: Vec<usize> = (0..n).collect();
        s.add(format!("set {}", n), move |c| set_case(c, n, &all, 3));
    }
    if SIM {
        for n in vec![63, 64, 65, 127, 128, 129, 200, 256, 257, 300] {
            s.add(format!("set {}", n), move |c| set_case(c, n, &[0, 1, n / 2, n - 2, n - 1], 3));
        }
        for i in 0..if o.thorough { 3000 } else { 200 } {
            s.add(format!("random {}", i), move |c| {
                let n = c.rng.range(1, 10);
                let p = vec![c.rng.below(n)];
                set_case(c, n, &p, 3);
            });
        }
    }
    s
}
