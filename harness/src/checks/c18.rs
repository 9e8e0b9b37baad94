//! C18: gadgets composed in one constraint system.
use crate::comp::*;
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;
use merlin::Transcript;
use std::cell::RefCell;
use std::rc::Rc;

const L: &[u8] = b"comp";
fn accept(ctx: &mut Ctx, c: &Comp, sig: &str) -> bool {
    let mut r = ctx.rng.fork();
    // room for constructions with other numbers of gates
    let gn = gens(2 * pow2(c.gates()));
    ctx.count("compositions", 1);
    ctx.count("gadgets_composed", c.gadgets().len() as u64);
    let p = guard(|| c.prove(L, &gn, &mut r));
    let (proof, comms) = match p {
        Ok(Ok(x)) => x,
        e => {
            let e = match e { Ok(Err(e)) => format!("{:?}", e), Err(p) => format!("panic {}", p), _ => unreachable!() };
            ctx.check(false, sig, &|| format!("no proof for the true composition {}: {}", c.desc, e));
            return false;
        }
    };
    let v = guard(|| c.verify(&proof, &comms, L, &gn));
    ctx.check(v == Ok(Ok(())), sig, &|| format!("proof of the true composition {}: {:?}", c.desc, v))
}
fn reject(ctx: &mut Ctx, c: &Comp, sig: &str) {
    let mut r = ctx.rng.fork();
    let gn = gens(2 * pow2(guard(|| c.gates()).unwrap_or(512)));
    match guard(|| c.prove(L, &gn, &mut r)) {
        Ok(Ok((proof, comms))) => {
            let v = guard(|| c.verify(&proof, &comms, L, &gn));
            ctx.count("false_compositions", 1);
            ctx.check(match v { Ok(Ok(())) => false, _ => true }, sig, &|| format!("accepted although one part is false: {}", c.desc));
        }
        _ => ctx.count("false_refused_by_prover", 1),
    }
}
#[cfg(vp_hooks)]
fn record_comp(c: &Comp) -> Option<(Sys, usize, usize)> {
    // room for constructions with other numbers of gates
    let gn = gens(2 * pow2(c.gates()));
    let n = c.n_comms();
    let dummy: Vec<G1> = (0..n).map(|i| &gn.g * &fe(1000 + i as u64)).collect();
    let mut tr = Transcript::new(b"record");
    let mut v = Verifier::new(&mut tr);
    c.build_verifier(&mut v, &dummy, &gn).ok()?;
    let (n1, q1) = (v.vp_num_multipliers(), v.vp_constraints().len());
    let vs = v.vp_commitments();
    let pos: Vec<usize> = dummy.iter().map(|d| vs.iter().position(|x| x == d)).collect::<Option<Vec<_>>>()?;
    let mut statics = vec![];
    for (i, x) in vs.iter().enumerate() {
        if !pos.contains(&i) {
            let k = (0..=256u64).find(|k| &gn.g * &fe(*k) == *x)?;
            statics.push((i, fe(k)));
        }
    }
    let m = vs.len();
    let (lcs, gates) = if c.has_cb() {
        let got = Rc::new(RefCell::new(None));
        let g2 = got.clone();
        v.specify_randomized_constraints(move |r| {
            let v = r.vp_verifier();
            *g2.borrow_mut() = Some((v.vp_constraints(), v.vp_num_multipliers()));
            Ok(())
        })
        .ok()?;
        let blank = jp(&crate::refp::blank(0));
        let _ = guard(|| v.verify(&blank, &gn.g, &gn.h, &gn.G, &gn.H));
        let x = got.borrow_mut().take()?;
        x
    } else {
        (v.vp_constraints(), v.vp_num_multipliers())
    };
    let lcs: Vec<Vec<(Variable, FE)>> = lcs.into_iter().map(|l| l.terms).collect();
    Some((Sys { m, gates, pubc: vec![FE::zero(); lcs.len()], lcs, pos, statics }, n1, q1))
}
#[cfg(not(vp_hooks))]
fn record_comp(_c: &Comp) -> Option<(Sys, usize, usize)> {
    None
}
/// search the recorded system for a witness with the false gadget's values fixed
fn search_comp(ctx: &mut Ctx, c: &Comp, k: usize, sig: &str) {
    let (sys, n1, q1) = match record_comp(c) {
        Some(x) => x,
        None => {
            ctx.count("not_recordable", 1);
            return;
        }
    };
    let fix = c.positions(k);
    let seed = ctx.rng.next();
    match search(&sys, &fix, None, seed, 600) {
        Found::None => {
            ctx.count("attack_refuted", 1);
            ctx.check(true, sig, &|| String::new());
        }
        Found::Unknown => ctx.count("attack_undecided", 1),
        Found::Sol(v) => {
            let gn = gens(pow2(sys.gates.max(1)));
            let mut r = ctx.rng.fork();
            let p = if c.has_cb() {
                raw_prove2(&sys, &v, n1, q1, c.draws(), b"comp", L, &gn, &mut r)
            } else {
                raw_prove(&sys, &v, L, &gn, &mut r)
            };
            ctx.count("attack_solutions", 1);
            let ok = match p {
                Some((p, comms)) => match guard(|| c.verify(&p, &comms, L, &gn)) { Ok(Ok(())) => true, _ => false },
                None => false,
            };
            if !ok {
                ctx.count("attack_solution_rejected", 1);
            }
            ctx.check(!ok, sig, &|| format!("a prover got {} accepted although gadget {} is false", c.desc, k));
        }
    }
}
fn run(ctx: &mut Ctx, kinds: &[usize], cbs: usize, deep: bool) {
    let mut r = ctx.rng.fork();
    let c = gen_comp(&mut r, kinds, cbs);
    if !accept(ctx, &c, &c.desc) {
        return;
    }
    let gs = c.gadgets();
    for k in 0..gs.len() {
        let bad = match falsify(&mut r, &gs[k]) {
            Some(b) => b,
            None => continue,
        };
        // another gadget may share its variables: its statement about them may become false too
        let f = c.with(k, bad).lowered();
        let sig = format!("{} false {}", c.desc, k);
        reject(ctx, &f, &sig);
        if deep {
            search_comp(ctx, &f, k, &format!("{} search", sig));
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "A case composes gadgets of all kinds (through prove_*/verify_* and through the gadget functions, in the first phase and in \
         randomized callbacks, committed in place or ahead, with shared committed variables and shared constants) among low-level \
         allocations that leave half-used gates; the proof of the true composition must be accepted, and with any one gadget made false \
         it must be rejected, also for a prover searching the recorded constraints of the whole composition. Distinct by composition and false part.",
    );
    let th = o.thorough;
    if SIM {
        // every ordered pair of kinds, in one and two phases
        for a in 0..COMP_KINDS {
            for b in 0..COMP_KINDS {
                for cb in 0..2 {
                    for rep in 0..if th { 8 } else { 1 } {
                        s.add(format!("pair {} {} callbacks {} #{}", a, b, cb, rep), move |c| run(c, &[a, b], cb, true));
                    }
                }
            }
        }
        for a in 0..COMP_KINDS {
            for rep in 0..if th { 60 } else { 8 } {
                s.add(format!("single {} #{}", a, rep), move |c| run(c, &[a], rep % 3, true));
            }
        }
        for rep in 0..if th { 6000 } else { 500 } {
            s.add(format!("random #{}", rep), move |c| {
                let n = c.rng.range(2, 6);
                let kinds: Vec<usize> = (0..n).map(|_| c.rng.below(COMP_KINDS)).collect();
                run(c, &kinds, rep % 4, rep % 2 == 0)
            });
        }
        s.add("everything", |c| {
            let mut kinds: Vec<usize> = (0..COMP_KINDS).collect();
            c.rng.shuffle(&mut kinds);
            run(c, &kinds, 2, false)
        });
    } else {
        for a in 0..COMP_KINDS {
            s.add(format!("single {}", a), move |c| run(c, &[a], a % 2, false));
        }
        for rep in 0..if th { 100 } else { 6 } {
            s.add(format!("random #{}", rep), move |c| {
                let kinds: Vec<usize> = (0..2).map(|_| *c.rng.pick(&[0, 1, 2, 3, 4, 5, 6, 9, 11, 12])).collect();
                run(c, &kinds, rep % 2, false)
            });
        }
    }
    s
}
