//! C07: commitments open to the given value and the supplied randomness.
use crate::gadgets::*;
use crate::runner::*;
use crate::util::*;
use merlin::Transcript;

fn is_gadget_err<T>(r: &Result<T, R1CSError>) -> bool {
    match r {
        Err(R1CSError::GadgetError { .. }) => true,
        _ => false,
    }
}
fn show<T>(r: &Result<T, R1CSError>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("{:?}", e),
    }
}
/// commitments through the standalone function and through the sub-protocol function
fn both(gd: &Gd, rnd: Option<Vec<FE>>, rng: Option<Rng>, gn: &Gens) -> Vec<(&'static str, Result<Vec<G1>, R1CSError>)> {
    let mut a = rng.clone();
    let x = gd.prove(rnd.clone(), a.as_mut(), b"open", gn).map(|x| x.1);
    let mut b = rng;
    let mut tr = Transcript::new(b"open");
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let y = gd.prove_into(rnd, b.as_mut(), &mut p);
    vec![("standalone", x), ("sub-protocol", y)]
}
fn case(ctx: &mut Ctx, kind: usize, size: usize) {
    let mut r = ctx.rng.fork();
    let gd = gen(&mut r, kind, size);
    let np = gd.size();
    let gn = gens(np);
    let d = gd.desc();
    let prim = gd.primaries();
    let rl = gd.rand_len();
    // supplied randomness, also degenerate and equal ones
    let mut rnds: Vec<(&str, Vec<FE>)> = vec![];
    if let Some(n) = rl {
        rnds.push(("random", (0..n).map(|_| r.fe()).collect()));
        rnds.push(("mixed", (0..n).map(|_| r.fe_mixed()).collect()));
        rnds.push(("zero", vec![FE::zero(); n]));
        let x = r.fe();
        rnds.push(("equal", vec![x; n]));
    }
    for (how, rnd) in &rnds {
        for with_rng in [false, true].iter() {
            let rng = if *with_rng { Some(r.fork()) } else { None };
            let rs = match ctx.total("prove", || both(&gd, Some(rnd.clone()), rng, &gn)) {
                Some(x) => x,
                None => continue,
            };
            for (path, res) in rs {
                let res = match res {
                    Ok(c) => c,
                    Err(e) => {
                        ctx.check(false, &format!("{} {} {}", d, how, path), &|| format!("honest proving failed: {:?} ({})", e, d));
                        continue;
                    }
                };
                ctx.check(res.len() == gd.comms_len(), &format!("{} count {}", d, path), &|| format!("{} commitments returned, {} expected ({})", res.len(), gd.comms_len(), d));
                for (k, (pos, v)) in prim.iter().enumerate() {
                    let want = pedersen(&gn, v, &rnd[k]);
                    ctx.count("openings", 1);
                    ctx.check(res.get(*pos) == Some(&want), &format!("{} {} {} value {}", d, how, path, k), &|| {
                        format!("{}: commitment {} is not g*value + h*randomness for the {} randomness supplied ({})", path, pos, how, d)
                    });
                }
            }
        }
    }
    // no randomness: drawn from the caller's RNG
    if rl.is_some() {
        let (r1, r2) = (r.fork(), r.fork());
        let (s1, s2) = (r.next(), r.next());
        let mut run = |rng: &Rng, seed: u64| {
            amcl_wrapper::vp::set_seed(Some(seed));
            both(&gd, None, Some(rng.clone()), &gn)
        };
        let (a, b, c) = (run(&r1, s1), run(&r1, s2), run(&r2, s1));
        for i in 0..2 {
            let path = a[i].0;
            match (&a[i].1, &b[i].1, &c[i].1) {
                (Ok(a), Ok(b), Ok(c)) => {
                    for (k, (pos, _)) in prim.iter().enumerate() {
                        ctx.count("rng_openings", 1);
                        ctx.check(a[*pos] == b[*pos], &format!("{} rng {} {}", d, path, k), &|| {
                            format!("{}: without supplied randomness, commitment {} is not determined by the caller's RNG ({})", path, pos, d)
                        });
                        ctx.check(a[*pos] != c[*pos], &format!("{} rng differs {} {}", d, path, k), &|| {
                            format!("{}: without supplied randomness, commitment {} ignores the caller's RNG ({})", path, pos, d)
                        });
                        // not the bare value
                        let bare = &gn.g * &prim[k].1;
                        ctx.check(a[*pos] != bare, &format!("{} rng blinded {} {}", d, path, k), &|| format!("{}: commitment {} is not blinded ({})", path, pos, d));
                    }
                }
                x => {
                    ctx.check(false, &format!("{} rng {}", d, path), &|| format!("honest proving with an RNG failed: {} {} {}", show(x.0), show(x.1), show(x.2)));
                }
            }
        }
        // neither
        if let Some(rs) = ctx.total("prove without randomness and RNG", || both(&gd, None, None, &gn)) {
            for (path, res) in rs {
                ctx.count("refusals", 1);
                ctx.check(is_gadget_err(&res), &format!("{} neither {}", d, path), &|| format!("{}: neither randomness nor RNG gave {} ({})", path, show(&res), d));
            }
        }
    }
    // wrong lengths
    if let (Some(n), true) = (rl, takes_vec(&gd)) {
        for m in vec![0, 1, n - 1, n + 1, n + 3, 2 * n] {
            if m == n {
                continue;
            }
            let rnd: Vec<FE> = (0..m).map(|_| r.fe()).collect();
            let rng = Some(r.fork());
            if let Some(rs) = ctx.total("prove with wrong number of randomness", || both(&gd, Some(rnd), rng, &gn)) {
                for (path, res) in rs {
                    ctx.count("refusals", 1);
                    ctx.check(is_gadget_err(&res), &format!("{} randomness len {} {}", d, m, path), &|| {
                        format!("{}: {} random values instead of {} gave {} ({})", path, m, n, show(&res), d)
                    });
                }
            }
        }
    }
    for (what, bad) in wrong_inputs(&gd, &mut r) {
        for rnd in vec![gd.rnd(&mut r), None] {
            let rng = Some(r.fork());
            if let Some(rs) = ctx.total("prove with wrong number of inputs", || both(&bad, rnd, rng, &gn)) {
                for (path, res) in rs {
                    ctx.count("refusals", 1);
                    ctx.check(is_gadget_err(&res), &format!("{} {} {}", d, what, path), &|| format!("{}: {} gave {} ({})", path, what, show(&res), d));
                }
            }
        }
        // randomness of the same wrong length as the inputs
        if let Gd::Mimc { inp, .. } | Gd::Poseidon { inp, .. } = &bad {
            let rnd: Vec<FE> = inp.iter().map(|_| r.fe()).collect();
            let rng = Some(r.fork());
            if let Some(rs) = ctx.total("prove with wrong number of inputs", || both(&bad, Some(rnd), rng, &gn)) {
                for (path, res) in rs {
                    ctx.check(is_gadget_err(&res), &format!("{} {} both {}", d, what, path), &|| format!("{}: {} and randomness gave {} ({})", path, what, show(&res), d));
                }
            }
        }
    }
}
fn takes_vec(gd: &Gd) -> bool {
    match gd {
        Gd::Mimc { .. } | Gd::Poseidon { .. } | Gd::Merkle4 { .. } | Gd::Merkle8 { .. } => true,
        _ => false,
    }
}
fn wrong_inputs(gd: &Gd, r: &mut Rng) -> Vec<(String, Gd)> {
    let mut out = vec![];
    let mut lens = |n: usize, inp: &Vec<FE>| -> Vec<Vec<FE>> {
        let mut v = vec![vec![], inp[..n - 1].to_vec()];
        let mut x = inp.clone();
        x.push(r.fe());
        v.push(x.clone());
        x.push(FE::zero());
        v.push(x);
        v
    };
    match gd {
        Gd::Mimc { inp, out: o, consts, rounds } => {
            for i in lens(2, inp) {
                out.push((format!("{} inputs", i.len()), Gd::Mimc { inp: i, out: o.clone(), consts: consts.clone(), rounds: *rounds }));
            }
        }
        Gd::Poseidon { inp, out: o, params, sbox } => {
            for i in lens(inp.len(), inp) {
                out.push((format!("{} inputs", i.len()), Gd::Poseidon { inp: i, out: o.clone(), params: params.clone(), sbox: *sbox }));
            }
        }
        Gd::Hamming { orig, new, count } => {
            for i in lens(orig.len(), orig) {
                if i.len() != new.len() {
                    out.push((format!("{} original values for {} new ones", i.len(), new.len()), Gd::Hamming { orig: i, new: new.clone(), count: *count }));
                }
            }
        }
        _ => {}
    }
    out
}
/// Gadgets that take no randomness: values sit where documented (opened on the simulated group)
fn values(ctx: &mut Ctx, kind: usize, size: usize) {
    if !SIM {
        return;
    }
    let mut r = ctx.rng.fork();
    let gd = gen(&mut r, kind, size);
    let mut gn = gens(gd.size());
    gn.h = G1::identity();
    let rnd = gd.rnd(&mut r);
    let rng = Some(r.fork());
    let d = gd.desc();
    let mut want: Vec<(usize, FE)> = gd.primaries();
    if let Gd::Randomizer(z) = &gd {
        let (t, db) = tree4(&z.params, z.depth, &z.orig);
        want.push((0, t.root.clone()));
        for (k, i) in z.idx.iter().enumerate() {
            want.push((1 + k * (1 + 3 * z.depth), t.get(i, &mut None, &db).expect("get")));
        }
    }
    for (path, res) in both(&gd, rnd, rng, &gn) {
        if let Ok(c) = res {
            for (pos, v) in &want {
                let w = &gn.g * v;
                ctx.count("values_opened", 1);
                ctx.check(c.get(*pos) == Some(&w), &format!("{} {} opens {}", d, path, pos), &|| format!("{}: commitment {} is not to the expected value ({})", path, pos, d));
            }
        } else {
            ctx.count("probe_refused", 1);
        }
    }
}
/// Prover::commit / Verifier::commit
fn low_level(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let gn = gens(1);
    let mut tr = Transcript::new(b"c");
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut trv = Transcript::new(b"c");
    let mut v = Verifier::new(&mut trv);
    for i in 0..r.range(1, 12) {
        let (x, b) = (r.fe_mixed(), r.fe_mixed());
        let (c, var) = p.commit(x.clone(), b.clone());
        ctx.check(c == pedersen(&gn, &x, &b), &format!("commit {} {} {}", i, shex(&x), shex(&b)), &|| "Prover::commit is not g*value + h*randomness".into());
        let vv = v.commit(c);
        ctx.check(var == Variable::Committed(i) && vv == var, &format!("var {}", i), &|| format!("variables {:?} and {:?} for commitment {}", var, vv, i));
        let ev = p.evaluate_lc(&var.into());
        ctx.check(ev == Some(x.clone()) && v.evaluate_lc(&vv.into()) == None, &format!("eval {}", i), &|| "committed variable does not evaluate to its value".into());
    }
}
pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Opening monitor: for every gadget, standalone and as sub-protocol, each commitment to a user-supplied value is recomputed from \
         value and supplied randomness with group operations only; with an RNG instead, commitments must be a function of the caller's RNG \
         alone; missing or wrong-length randomness and inputs must be refused with a gadget error. Distinct by statement and position.",
    );
    let reps = match (SIM, o.thorough) {
        (true, false) => 40,
        (true, true) => 1000,
        (false, false) => 4,
        (false, true) => 60,
    };
    for rep in 0..reps {
        for kind in 0..KINDS {
            let size = if SIM { 1 + rep % 3 } else { 1 };
            s.add(format!("open kind {} rep {}", kind, rep), move |c| case(c, kind, size));
            s.add(format!("values kind {} rep {}", kind, rep), move |c| values(c, kind, size));
        }
        s.add(format!("low level {}", rep), |c| low_level(c));
    }
    s
}
