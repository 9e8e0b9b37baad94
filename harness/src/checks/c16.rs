//! C16: Hamming-distance proofs.
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::hamming_distance_gadget;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use merlin::Transcript;

fn vectors(r: &mut Rng, n: usize, diff: &[bool]) -> Gd {
    let mut orig = vec![];
    let mut new = vec![];
    for i in 0..n {
        let a = r.fe_mixed();
        orig.push(a.clone());
        new.push(if diff[i] {
            loop {
                let b = match r.below(6) {
                    0 => &a + &FE::one(),
                    1 => &a - &FE::one(),
                    2 => a.negation(),
                    3 => &a + &fe_pow2(64),
                    4 => FE::zero(),
                    _ => r.fe_mixed(),
                };
                if b != a {
                    break b;
                }
            }
        } else {
            a
        });
    }
    let count = diff.iter().filter(|d| **d).count() as u64;
    Gd::Hamming { orig, new, count }
}
fn with_count(gd: &Gd, count: u64) -> Gd {
    match gd {
        Gd::Hamming { orig, new, .. } => Gd::Hamming { orig: orig.clone(), new: new.clone(), count },
        _ => unreachable!(),
    }
}
fn fixed(gd: &Gd) -> Vec<(usize, FE)> {
    gd.primaries()
}
fn case(ctx: &mut Ctx, n: usize, diff: Vec<bool>, deep: bool) {
    let mut r = ctx.rng.fork();
    let gd = vectors(&mut r, n, &diff);
    let c = diff.iter().filter(|d| **d).count() as u64;
    let tag = format!("len {} pattern {}", n, diff.iter().map(|d| if *d { '1' } else { '0' }).collect::<String>());
    honest(ctx, &gd, &tag);
    // every other count
    let mut claims: Vec<u64> = if n <= 12 { (0..=n as u64 + 1).collect() } else { vec![0, 1, n as u64 - 1, n as u64, n as u64 + 1] };
    claims.extend(vec![c + 1, c.wrapping_sub(1), c + 256, c + (1 << 32), 1 << 63, u64::max_value(), u64::max_value() - c]);
    claims.sort();
    claims.dedup();
    for k in claims {
        if k == c {
            continue;
        }
        let f = with_count(&gd, k);
        false_claim(ctx, &f, &f, &format!("{} claimed {}", tag, k));
        if deep && (k <= n as u64 + 1) {
            attack(ctx, &f, &fixed(&f), None, 2000, &format!("{} claimed {} search", tag, k));
        }
    }
    // the count becomes wrong because the committed vector is another one
    if n > 0 {
        if let Gd::Hamming { orig, new, count } = &gd {
            let i = r.below(n);
            let mut o2 = orig.clone();
            if diff[i] {
                o2[i] = new[i].clone();
            } else {
                o2[i] = &o2[i] + &r.fe_nonzero();
            }
            let f = Gd::Hamming { orig: o2, new: new.clone(), count: *count };
            false_claim(ctx, &f, &f, &format!("{} other vector", tag));
            if deep {
                attack(ctx, &f, &fixed(&f), None, 2000, &format!("{} other vector search", tag));
            }
        }
    }
}
fn lengths(ctx: &mut Ctx, n: usize, m: usize) {
    let mut r = ctx.rng.fork();
    let sig = format!("lengths {} {}", n, m);
    let gd = vectors(&mut r, n, &vec![false; n]);
    let (orig, new) = match &gd {
        Gd::Hamming { orig, .. } => {
            let mut b = orig.clone();
            b.truncate(m);
            while b.len() < m {
                b.push(r.fe());
            }
            (orig.clone(), b)
        }
        _ => unreachable!(),
    };
    for count in 0..=(n.max(m) as u64).min(3) {
        let bad = Gd::Hamming { orig: orig.clone(), new: new.clone(), count };
        let gn = gens(pow2(2 * n.max(m)));
        let a = guard(|| bad.prove(None, None, b"len", &gn));
        let refused = match &a { Ok(Err(_)) => true, _ => false };
        ctx.check(refused, &format!("{} prove {}", sig, count), &|| {
            format!("proving with lengths {} and {} is not refused with an error (panic: {:?})", n, m, a.as_ref().err())
        });
        let b = guard(|| {
            let mut tr = Transcript::new(b"len");
            let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
            bad.prove_into(None, None, &mut p).map(|_| ())
        });
        ctx.check(match &b { Ok(Err(_)) => true, _ => false }, &format!("{} prove into {}", sig, count), &|| {
            format!("adding lengths {} and {} to a prover is not refused: {:?}", n, m, b)
        });
    }
    // a prover that commits to n values but states nothing about those beyond the m public ones
    let (small, big) = (n.min(m), n.max(m));
    let gn = gens(pow2(2 * big));
    let mut tr = Transcript::new(b"len");
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut comms = vec![];
    let mut al = vec![];
    for v in &orig {
        let (c, var) = p.commit(v.clone(), r.fe());
        comms.push(c);
        al.push(AllocatedQuantity { variable: var, assignment: Some(v.clone()) });
    }
    al.truncate(small);
    let d = (0..small).filter(|i| orig[*i] != new[*i]).count() as u64;
    if let Ok(Ok(proof)) = guard(|| {
        hamming_distance_gadget(&mut p, al, &new[..small], d)?;
        p.prove(&gn.G, &gn.H)
    }) {
        let bad = Gd::Hamming { orig: orig.clone(), new: new.clone(), count: d };
        let v = guard(|| bad.verify(&proof, &comms, b"len", &gn));
        ctx.check(match &v { Ok(Err(_)) => true, _ => false }, &format!("{} partial", sig), &|| {
            format!("{} commitments against {} values, proof about {} of them: {:?}", n, m, small, v)
        });
    }
    // the gadget itself
    let mut tr = Transcript::new(b"len");
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut tv = Transcript::new(b"len");
    let mut vf = Verifier::new(&mut tv);
    let (mut pa, mut va) = (vec![], vec![]);
    for v in &orig {
        let (c, var) = p.commit(v.clone(), r.fe());
        pa.push(AllocatedQuantity { variable: var, assignment: Some(v.clone()) });
        va.push(AllocatedQuantity { variable: vf.commit(c), assignment: None });
    }
    let a = guard(|| hamming_distance_gadget(&mut p, pa, &new, 0));
    let b = guard(|| hamming_distance_gadget(&mut vf, va, &new, 0));
    ctx.check(match (&a, &b) { (Ok(Err(_)), Ok(Err(_))) => true, _ => false }, &format!("{} gadget", sig), &|| {
        format!("gadget with lengths {} and {}: prover {:?}, verifier {:?}", n, m, a, b)
    });
    // verifier: a valid proof for a vector of length n, checked against m public values
    if let Some((proof, comms, _)) = honest(ctx, &gd, &format!("{} base", sig)) {
        for count in 0..2 {
            let bad = Gd::Hamming { orig: orig.clone(), new: new.clone(), count };
            let gn = gens(pow2(2 * n.max(m)));
            let v = guard(|| bad.verify(&proof, &comms, b"honest", &gn));
            ctx.check(match &v { Ok(Err(_)) => true, _ => false }, &format!("{} verify {}", sig, count), &|| {
                format!("verifying {} commitments against {} values: {:?}", n, m, v)
            });
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Vectors of every length with every pattern of differing positions (up to 6, then sampled), special \
         and neighbouring values: the true count must be accepted, every other count rejected, both for the \
         library's prover and for a prover searching the verifier's recorded constraints with the committed \
         vector fixed; unequal lengths must be refused on both sides. Distinct by pattern and claimed count.",
    );
    let top = match (SIM, o.thorough) { (true, false) => 5, (true, true) => 7, (false, false) => 2, (false, true) => 3 };
    for n in 0..=top {
        for k in 0..1usize << n {
            s.add(format!("len {} pattern {}", n, k), move |c| {
                case(c, n, (0..n).map(|i| (k >> i) & 1 == 1).collect(), SIM)
            });
        }
    }
    if SIM {
        let mut ns: Vec<usize> = (6..=20).collect();
        ns.extend(vec![31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 300]);
        if o.thorough {
            ns.extend(vec![511, 512, 513, 600]);
        }
        for n in ns {
            for rep in 0..if o.thorough { 6 } else { 3 } {
                s.add(format!("len {} #{}", n, rep), move |c| {
                    let d: Vec<bool> = match rep {
                        0 => vec![true; n],
                        1 => (0..n).map(|i| i == n - 1).collect(),
                        _ => (0..n).map(|_| c.rng.chance(1, 2)).collect(),
                    };
                    case(c, n, d, n <= 12)
                });
            }
        }
        for rep in 0..if o.thorough { 2000 } else { 150 } {
            s.add(format!("random #{}", rep), move |c| {
                let n = c.rng.range(1, 8);
                let d = (0..n).map(|_| c.rng.chance(1, 2)).collect();
                case(c, n, d, n <= 5)
            });
        }
    }
    for n in 0..=if SIM { 6 } else { 2 } {
        for m in 0..=if SIM { 6 } else { 2 } {
            if n != m {
                s.add(format!("lengths {} {}", n, m), move |c| lengths(c, n, m));
            }
        }
    }
    s
}
