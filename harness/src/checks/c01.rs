//! C01: honest proofs verify.
use crate::prog::*;
use crate::runner::*;
use crate::util::*;

pub fn one(ctx: &mut Ctx, cfg: &GenCfg, sig: &str) {
    let mut r = ctx.rng.fork();
    let prog = gen_prog(&mut r, cfg);
    // dry run on a generous generator set to learn the size
    let gn_big = gens(pow2((cfg.n1 + cfg.n2 + 2).max(1)) * 2);
    let extra = r.below(3);
    let label: &'static [u8] = *r.pick(&[&b"L"[..], b"", b"r1cs", b"a longer transcript label"]);
    let (p, st) = prove_prog(&prog, &gn_big, label, &POpts::default());
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ctx.check(false, sig, &|| format!("prove failed with {:?} for {}", e, prog.desc));
            return;
        }
    };
    for e in &st.evals {
        assert!(e.is_zero(), "harness: generated program is unsatisfied");
    }
    let need = needed(&st);
    // the verifier needs only the padded number of generators; prove again with exactly those
    let mut proofs = vec![(p, gn_big)];
    let gn = gens(need + extra);
    let (p2, _) = prove_prog(&prog, &gn, label, &POpts::default());
    match p2 {
        Ok(p) => proofs.push((p, gens(need))),
        Err(e) => {
            ctx.check(false, sig, &|| {
                format!("prove failed with {:?} with {} generators for {}", e, need + extra, prog.desc)
            });
        }
    }
    for (p, gn) in proofs {
        let (v, stv) = verify_prog(&prog, &gn, label, &p.proof, &p.comms, false);
        let rounds = rounds(&pj(&p.proof));
        ctx.count("proofs_verified", 1);
        ctx.count(&format!("rounds_{}", rounds), 1);
        if st.phase2 {
            ctx.count("two_phase", 1);
        }
        ctx.check(
            v.is_ok(),
            &format!("{} n1={} n={} m={} q={} cb={}", sig, st.n1, st.gates, st.commits, st.n_constraints, st.cb_log.len()),
            &|| format!("honest proof rejected with {:?}: {} (gens {})", v, prog.desc, gn.G.len()),
        );
        ctx.check(
            rounds == (need.trailing_zeros() as usize),
            &format!("rounds {} {}", sig, need),
            &|| format!("{} inner product rounds for {} padded gates", rounds, need),
        );
        if stv.gates != st.gates {
            ctx.check(false, sig, &|| "prover and verifier disagree on the number of gates".into());
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "A case is a random constraint-system program (commit / multiply / allocate / allocate_single / \
         allocate_multiplier / constrain written through varied LC operators / randomized and nested callbacks) \
         whose witness satisfies it by construction; the honest proof must be produced and accepted. \
         Distinct by program shape (gates per phase, commitments, constraints, callbacks) and generator count.",
    );
    s.assume("deterministic entropy replaces the OS entropy source, per case");
    let (sweep, random) = if SIM {
        if o.thorough { (140, 60000) } else { (70, 6000) }
    } else {
        if o.thorough { (40, 3000) } else { (18, 160) }
    };
    // every multiplier count around the powers of two, one phase and two phases
    for n in 0..sweep {
        s.add(format!("sweep1 n={}", n), move |c| {
            one(c, &GenCfg { commits: n % 4, n1: n, n2: 0, constraints: n % 7, callbacks: 0, max_terms: 8 }, "s1");
            if SIM {
                one(c, &GenCfg { commits: 2, n1: 0, n2: n, constraints: 2, callbacks: 1, max_terms: 8 }, "s2");
                one(c, &GenCfg { commits: 3, n1: n, n2: 1, constraints: 2, callbacks: 1, max_terms: 8 }, "s3");
                one(c, &GenCfg { commits: 0, n1: 1, n2: n, constraints: 2, callbacks: 2, max_terms: 8 }, "s4");
                one(c, &GenCfg { commits: 1, n1: n, n2: 0, constraints: 1, callbacks: 1, max_terms: 8 }, "s5");
            } else if n % 2 == 0 {
                one(c, &GenCfg { commits: 2, n1: n / 2, n2: n - n / 2, constraints: 2, callbacks: 1, max_terms: 8 }, "s2");
            }
        });
    }
    for i in 0..random {
        s.add(format!("random {}", i), move |c| {
            let cfg = random_cfg(&mut c.rng, SIM);
            one(c, &cfg, "r");
        });
    }
    if SIM {
        for (m, n1, n2, q) in vec![(2, 1024, 0, 3), (1, 1025, 0, 1), (300, 3, 0, 300), (0, 500, 525, 20), (257, 257, 257, 257), (1, 0, 600, 5), (1, 2048, 1, 1)] {
            s.add(format!("huge {} {} {} {}", m, n1, n2, q), move |c| {
                one(c, &GenCfg { commits: m, n1, n2, constraints: q, callbacks: if n2 > 0 { 2 } else { 0 }, max_terms: 300 }, "h");
            });
        }
        // many commitments and long constraint lists, larger circuits
        for i in 0..if o.thorough { 60 } else { 8 } {
            s.add(format!("large {}", i), move |c| {
                let n1 = *c.rng.pick(&[100, 127, 128, 129, 200, 255, 256, 257, 300]);
                let n2 = *c.rng.pick(&[0, 0, 1, 40, 128]);
                let m = *c.rng.pick(&[0, 1, 30, 70]);
                let q = *c.rng.pick(&[0, 10, 100]);
                let cb = if n2 > 0 { 2 } else { 0 };
                one(c, &GenCfg { commits: m, n1, n2, constraints: q, callbacks: cb, max_terms: 60 }, "l");
            });
        }
    }
    s
}
