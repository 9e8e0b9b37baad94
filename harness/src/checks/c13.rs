//! C13: MiMC and Poseidon, native and in circuit.
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_constants as pc;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::{allocate_statics_for_prover, allocate_statics_for_verifier};
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use merlin::Transcript;
use std::sync::Arc;

const SBOXES: [SboxType; 3] = [SboxType::Cube, SboxType::Inverse, SboxType::Quint];

/// field element from a published hex constant, through its bytes
fn from_hex(s: &str) -> FE {
    let s = s.trim_start_matches("0x");
    let mut acc = FE::zero();
    for c in s.chars() {
        acc = &(&acc * &fe(16)) + &fe(c.to_digit(16).expect("hex digit") as u64);
    }
    acc
}
fn published(w: usize) -> (Vec<FE>, Vec<Vec<FE>>) {
    fn m(v: Vec<Vec<&str>>) -> Vec<Vec<FE>> {
        v.iter().map(|r| r.iter().map(|x| from_hex(x)).collect()).collect()
    }
    match w {
        3 => (pc::ROUND_CONSTS_W_3.iter().map(|x| from_hex(x)).collect(), m(pc::MDS_ENTRIES_W_3.iter().map(|r| r.to_vec()).collect())),
        5 => (pc::ROUND_CONSTS_W_5.iter().map(|x| from_hex(x)).collect(), m(pc::MDS_ENTRIES_W_5.iter().map(|r| r.to_vec()).collect())),
        _ => (pc::ROUND_CONSTS_W_9.iter().map(|x| from_hex(x)).collect(), m(pc::MDS_ENTRIES_W_9.iter().map(|r| r.to_vec()).collect())),
    }
}
fn fingerprint<'a>(it: impl Iterator<Item = &'a FE>) -> String {
    let (mut a, mut b) = (0xcbf2_9ce4_8422_2325u64, 0x9e37_79b9_7f4a_7c15u64);
    for f in it {
        for x in f.to_bytes() {
            a = (a ^ x as u64).wrapping_mul(0x100_0000_01b3);
            b = (b.rotate_left(7) ^ x as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
        }
    }
    format!("{:016x}{:016x}", a, b)
}
/// (beginning, end, partial) rounds that the published constants allow
fn max_rounds(w: usize) -> usize {
    published(w).0.len() / w
}
/// independent reference with the published constants
fn ref_params(w: usize, fb: usize, fend: usize, p: usize) -> PoseidonParams {
    let (k, m) = published(w);
    PoseidonParams {
        width: w,
        full_rounds_beginning: fb,
        full_rounds_end: fend,
        partial_rounds: p,
        round_keys: k[..w * (fb + fend + p)].to_vec(),
        MDS_matrix: m,
    }
}
/// the reference never applies the inverse S-box to zero on this input
fn degenerate(inp: &[FE], p: &PoseidonParams, sb: &SboxType) -> bool {
    if let SboxType::Inverse = sb {
        let w = p.width;
        let mut s = inp.to_vec();
        let total = p.full_rounds_beginning + p.partial_rounds + p.full_rounds_end;
        for r in 0..total {
            for i in 0..w {
                s[i] = &s[i] + &p.round_keys[r * w + i];
            }
            let full = r < p.full_rounds_beginning || r >= p.full_rounds_beginning + p.partial_rounds;
            for i in 0..w {
                if full || i == w - 1 {
                    if s[i].is_zero() {
                        return true;
                    }
                    s[i] = s[i].inverse();
                }
            }
            let mut n = vec![FE::zero(); w];
            for i in 0..w {
                for j in 0..w {
                    n[i] = &n[i] + &(&s[j] * &p.MDS_matrix[j][i]);
                }
            }
            s = n;
        }
    }
    false
}

fn known_answers(ctx: &mut Ctx) {
    let mut lines = vec![];
    for w in vec![3usize, 5, 9] {
        let (k, m) = published(w);
        lines.push(format!("keys{} {} {}", w, k.len(), fingerprint(k.iter())));
        lines.push(format!("mds{} {}", w, fingerprint(m.iter().flat_map(|r| r.iter()))));
        for sb in &SBOXES {
            for (fb, fend, p) in vec![(4usize, 4usize, max_rounds(w) - 8), (1, 1, 0), (2, 3, 5)] {
                let pr = params(w, fb, fend, p);
                let inp: Vec<FE> = (1..w as u64).map(fe).collect();
                lines.push(format!("hash{} {:?} {}+{}+{} {}", w, sb, fb, p, fend, hex(&lib_hash(&inp, &pr, sb))));
            }
        }
    }
    let c: Vec<FE> = (0..40u64).map(|i| fe(i * i + 7)).collect();
    lines.push(format!("mimc {}", hex(&mimc(&fe(3), &fe(4), &c, 40))));
    if let Ok(p) = std::env::var("VP_GOLDEN") {
        std::fs::write(p, lines.join("\n") + "\n").unwrap();
    }
    let want: Vec<&str> = include_str!("golden_poseidon.txt").lines().collect();
    for (i, l) in lines.iter().enumerate() {
        ctx.check(want.get(i) == Some(&l.as_str()), &format!("known answer {}", i), &|| {
            format!("got {}, published value {:?}", l, want.get(i))
        });
    }
}

fn native_params(ctx: &mut Ctx, w: usize) {
    let (k, m) = published(w);
    let top = max_rounds(w);
    let mut shapes = vec![(0usize, 1usize, 0usize), (1, 0, 0), (0, 0, 1), (4, 4, top - 8), (top, 0, 0), (0, top, 0), (0, 0, top)];
    for _ in 0..20 {
        let a = ctx.rng.range(0, 6);
        let b = ctx.rng.range(0, 6);
        let c = ctx.rng.range(0, top - a - b);
        shapes.push((a, b, c));
    }
    for (a, b, c) in shapes {
        let p = PoseidonParams::new(w, a, b, c);
        let sig = format!("params {} {}+{}+{}", w, a, c, b);
        let n = w * (a + b + c);
        ctx.check(
            p.round_keys.len() >= n && p.round_keys[..n] == k[..n] && p.MDS_matrix == m
                && (p.width, p.full_rounds_beginning, p.full_rounds_end, p.partial_rounds) == (w, a, b, c),
            &sig,
            &|| "parameters are not the published constants".into(),
        );
    }
}

fn native(ctx: &mut Ctx, w: usize, sb: SboxType, n: usize) {
    let top = max_rounds(w);
    for t in 0..n {
        let (a, b, c) = match t % 4 {
            0 => (ctx.rng.range(0, 3), ctx.rng.range(0, 3), ctx.rng.range(0, 5)),
            1 => (4, 4, top - 8),
            2 => (ctx.rng.range(0, 8), ctx.rng.range(0, 8), ctx.rng.range(0, top - 16)),
            _ => (ctx.rng.range(0, 1), ctx.rng.range(0, 1), ctx.rng.range(0, 2)),
        };
        let p = params(w, a, b, c);
        let rp = ref_params(w, a, b, c);
        let full: Vec<FE> = (0..w).map(|_| ctx.rng.fe_mixed()).collect();
        if degenerate(&full, &rp, &sb) {
            continue;
        }
        let sig = format!("native {} {:?} {}+{}+{}", w, sb, a, c, b);
        let (got, want) = (Poseidon_permutation(&full, &p, &sb), ref_poseidon(&full, &rp, &sb));
        ctx.check(got == want, &format!("{} perm {}", sig, t), &|| format!("permutation differs from the specification for {:?}", full.iter().map(shex).collect::<Vec<_>>()));
        let mut inp = full.clone();
        inp.remove(0);
        let mut z = inp.clone();
        z.insert(0, FE::zero());
        if degenerate(&z, &rp, &sb) {
            continue;
        }
        let (got, want) = (lib_hash(&inp, &p, &sb), ref_hash(&inp, &rp, &sb));
        ctx.check(got == want, &format!("{} hash {}", sig, t), &|| format!("hash of {:?} differs from the specification", inp.iter().map(shex).collect::<Vec<_>>()));
        ctx.count("native_hashes", 1);
    }
}

fn native_mimc(ctx: &mut Ctx, rounds: usize) {
    for t in 0..4 {
        let c: Vec<FE> = (0..rounds).map(|_| ctx.rng.fe_mixed()).collect();
        let (a, b) = (ctx.rng.fe_mixed(), ctx.rng.fe_mixed());
        let got = mimc(&a, &b, &c, rounds);
        let want = ref_mimc(&[a.clone(), b.clone()], &c, rounds);
        ctx.check(got == want, &format!("mimc {} {}", rounds, t), &|| format!("mimc({}, {}) differs from the specification", shex(&a), shex(&b)));
        ctx.count("native_mimc", 1);
    }
}

/// preimage proofs: honest, and every wrong output, input order, S-box, round count
fn preimage(ctx: &mut Ctx, gd: &Gd, deep: bool) {
    let sig = gd.desc();
    if honest(ctx, gd, &sig).is_none() {
        return;
    }
    let mut r = ctx.rng.fork();
    let mut claims: Vec<(&str, Gd)> = vec![];
    match gd {
        Gd::Poseidon { inp, out, params: p, sbox } => {
            let g = |inp: Vec<FE>, out: FE, p: &Arc<PoseidonParams>, sbox: SboxType| Gd::Poseidon { inp, out, params: p.clone(), sbox };
            for d in vec![FE::one(), FE::minus_one(), r.fe(), out.negation(), &out.negation() + &inp[0]] {
                if !d.is_zero() {
                    claims.push(("other output", g(inp.clone(), out + &d, p, *sbox)));
                }
            }
            let mut z = vec![FE::zero()];
            z.extend_from_slice(inp);
            // other elements of the permutation's output
            let full = ref_poseidon(&z, p, sbox);
            for (i, x) in full.iter().enumerate() {
                if i != 1 && x != out {
                    claims.push(("another state element", g(inp.clone(), x.clone(), p, *sbox)));
                }
            }
            for i in 0..inp.len() {
                let mut x = inp.clone();
                x[i] = &x[i] + &r.fe_mixed_nonzero();
                claims.push(("other input", g(x, out.clone(), p, *sbox)));
            }
            let mut x = inp.clone();
            x.swap(0, inp.len() - 1);
            if x != *inp {
                claims.push(("swapped inputs", g(x, out.clone(), p, *sbox)));
            }
        }
        Gd::Mimc { inp, out, consts, rounds } => {
            let g = |inp: Vec<FE>, out: FE| Gd::Mimc { inp, out, consts: consts.clone(), rounds: *rounds };
            for d in vec![FE::one(), FE::minus_one(), r.fe()] {
                claims.push(("other output", g(inp.clone(), out + &d)));
            }
            for i in 0..2 {
                let mut x = inp.clone();
                x[i] = &x[i] + &r.fe_mixed_nonzero();
                if ref_mimc(&x, consts, *rounds) != *out {
                    claims.push(("other input", g(x, out.clone())));
                }
            }
            if inp[0] != inp[1] {
                let x = vec![inp[1].clone(), inp[0].clone()];
                if ref_mimc(&x, consts, *rounds) != *out {
                    claims.push(("swapped inputs", g(x, out.clone())));
                }
            }
        }
        _ => unreachable!(),
    }
    for (k, (what, c)) in claims.iter().enumerate() {
        false_claim(ctx, c, c, &format!("{} {} {}", sig, what, k));
    }
    if !deep {
        return;
    }
    // any other output, for these inputs
    for round in 0..2 {
        let (inp, f): (Vec<FE>, Box<dyn Fn(&FE) -> Gd>) = match gd {
            Gd::Poseidon { inp, params: p, sbox, .. } => {
                let mut inp = inp.clone();
                if round == 1 {
                    // the first S-box of the first input sees a zero
                    inp[0] = p.round_keys[1].negation();
                }
                let (i2, p, sbox) = (inp.clone(), p.clone(), *sbox);
                (inp, Box::new(move |out| Gd::Poseidon { inp: i2.clone(), out: out.clone(), params: p.clone(), sbox }))
            }
            Gd::Mimc { inp, consts, rounds, .. } => {
                let mut inp = inp.clone();
                if round == 1 && *rounds > 0 {
                    inp[0] = consts[0].negation();
                }
                let (i2, c, rounds) = (inp.clone(), consts.clone(), *rounds);
                (inp, Box::new(move |out| Gd::Mimc { inp: i2.clone(), out: out.clone(), consts: c.clone(), rounds }))
            }
            _ => unreachable!(),
        };
        let truth = match gd {
            Gd::Poseidon { params: p, sbox, .. } => {
                let mut z = vec![FE::zero()];
                z.extend_from_slice(&inp);
                if degenerate(&z, p, sbox) {
                    // no output is provable; 0^-1 = 0 natively
                    ctx.count("degenerate_inputs", 1);
                }
                ref_hash(&inp, p, sbox)
            }
            Gd::Mimc { consts, rounds, .. } => ref_mimc(&inp, consts, *rounds),
            _ => unreachable!(),
        };
        let fix: Vec<(usize, FE)> = inp.iter().cloned().enumerate().collect();
        attack(ctx, gd, &fix, Some((&*f, truth)), 400, &format!("{} search {}", sig, round));
    }
}

/// the permutation gadget used directly: all outputs are enforced
fn permutation(ctx: &mut Ctx, w: usize, sb: SboxType, fb: usize, fend: usize, pr: usize) {
    let p = params(w, fb, fend, pr);
    let rp = ref_params(w, fb, fend, pr);
    let inp: Vec<FE> = loop {
        let v: Vec<FE> = (0..w).map(|_| ctx.rng.fe_mixed()).collect();
        if !degenerate(&v, &rp, &sb) {
            break v;
        }
    };
    let out = ref_poseidon(&inp, &rp, &sb);
    let mut r = ctx.rng.fork();
    let gn = gens(pow2(4 * w * (fb + fend + pr) + 1));
    for bad in 0..=w {
        let mut o = out.clone();
        if bad < w {
            o[bad] = &o[bad] + &r.fe_mixed_nonzero();
        }
        let sig = format!("permutation {} {:?} {}+{}+{} bad {}", w, sb, fb, pr, fend, bad);
        let res = guard(|| {
            let mut tr = Transcript::new(b"perm");
            let mut pv = Prover::new(&gn.g, &gn.h, &mut tr);
            let (mut comms, mut q) = (vec![], vec![]);
            for x in &inp {
                let (c, variable) = pv.commit(x.clone(), r.fe());
                comms.push(c);
                q.push(AllocatedQuantity { variable, assignment: Some(x.clone()) });
            }
            Poseidon_permutation_gadget(&mut pv, q, &p, &sb, &o)?;
            let proof = pv.prove(&gn.G, &gn.H)?;
            let mut tr = Transcript::new(b"perm");
            let mut v = Verifier::new(&mut tr);
            let q = comms.into_iter().map(|c| AllocatedQuantity { variable: v.commit(c), assignment: None }).collect();
            Poseidon_permutation_gadget(&mut v, q, &p, &sb, &o)?;
            v.verify(&proof, &gn.g, &gn.h, &gn.G, &gn.H)
        });
        let ok = res == Ok(Ok(()));
        ctx.count("permutation_gadget", 1);
        ctx.check(ok == (bad == w), &sig, &|| format!("verdict {:?}", res));
    }
}

fn statics(ctx: &mut Ctx) {
    let gn = gens(4);
    for n in 1..8usize {
        let mut tr = Transcript::new(b"st");
        let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
        let v = allocate_statics_for_prover(&mut p, n);
        let vals: Vec<Option<FE>> = v.iter().map(|x| p.evaluate_lc(&(*x).into())).collect();
        let want: Vec<Option<FE>> = (0..n).map(|i| Some(if i == 1 { fe(101) } else { FE::zero() })).collect();
        ctx.check(vals == want, &format!("statics {}", n), &|| format!("{:?}", vals));
        let mut tr = Transcript::new(b"st");
        let mut ver = Verifier::new(&mut tr);
        let vv = allocate_statics_for_verifier(&mut ver, n, &gn.g, &gn.h);
        ctx.check(vv == v, &format!("statics vars {}", n), &|| format!("{:?} and {:?}", v, vv));
        // and the two sides agree on the commitments
        for x in &v {
            p.constrain(LinearCombination::from(*x) - p.evaluate_lc(&(*x).into()).unwrap());
        }
        for (i, x) in vv.iter().enumerate() {
            ver.constrain(LinearCombination::from(*x) - want[i].clone().unwrap());
        }
        let res = guard(|| {
            let proof = p.prove(&gn.G, &gn.H)?;
            ver.verify(&proof, &gn.g, &gn.h, &gn.G, &gn.H)
        });
        ctx.check(res == Ok(Ok(())), &format!("statics proof {}", n), &|| format!("{:?}", res));
    }
}

fn any_poseidon(r: &mut Rng, w: usize, sb: SboxType, fb: usize, fend: usize, p: usize) -> Gd {
    loop {
        let g = gen_poseidon(r, params(w, fb, fend, p), sb);
        if let Gd::Poseidon { inp, params: p, sbox, .. } = &g {
            let mut z = vec![FE::zero()];
            z.extend_from_slice(inp);
            if !degenerate(&z, p, sbox) {
                return g;
            }
        }
    }
}
fn any_mimc(r: &mut Rng, rounds: usize) -> Gd {
    let consts: Vec<FE> = (0..rounds).map(|_| r.fe_mixed()).collect();
    let inp = vec![r.fe_mixed(), r.fe_mixed()];
    let out = ref_mimc(&inp, &consts, rounds);
    Gd::Mimc { inp, out, consts: Arc::new(consts), rounds }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Native: permutation, hashes and MiMC against an independent implementation over the published \
         constants, and against pinned answers (distinct by width, S-box, round counts, input). In circuit: \
         honest preimage proofs for every width, S-box and many round counts must be accepted; the library's \
         prover with another output, input, order or state element, and a witness search with the claimed \
         output unknown (any other output for the same inputs) must not be.",
    );
    s.assume("inputs on which the inverse S-box is applied to zero have no preimage proof (documented exception)");
    let k = if o.thorough { 10 } else { 1 };
    if SIM || !o.thorough {
        s.add("known answers", known_answers);
    }
    s.add("statics", statics);
    for w in vec![3usize, 5, 9] {
        s.add(format!("params {}", w), move |c| native_params(c, w));
        for sb in SBOXES.iter().cloned() {
            let reps = if SIM { 12 * k } else { 2 * k };
            for i in 0..reps {
                s.add(format!("native {} {:?} {}", w, sb, i), move |c| native(c, w, sb, 12));
            }
            // in circuit
            let mut shapes: Vec<(usize, usize, usize)> = vec![(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 1, 3)];
            if SIM {
                shapes.extend(vec![(2, 2, 0), (0, 0, 4), (2, 1, 3), (1, 2, 2), (3, 3, 5), (4, 4, 10)]);
            }
            if o.thorough {
                shapes.extend(vec![(4, 4, 30), (2, 5, 7), (5, 2, 9)]);
            }
            if !SIM {
                shapes = vec![(1, 0, 0), (0, 1, 2)];
            }
            for (fb, fend, p) in shapes {
                let deep = SIM && (fb + fend) * w + p <= 30;
                s.add(format!("preimage {} {:?} {}+{}+{}", w, sb, fb, p, fend), move |c| {
                    for _ in 0..if SIM { 3 } else { 1 } {
                        let g = any_poseidon(&mut c.rng, w, sb, fb, fend, p);
                        preimage(c, &g, deep);
                    }
                });
                if SIM || fend == 0 {
                    s.add(format!("permutation {} {:?} {}+{}+{}", w, sb, fb, p, fend), move |c| permutation(c, w, sb, fb, fend, p));
                }
            }
            // the size used in practice
            if SIM {
                s.add(format!("practical {} {:?}", w, sb), move |c| {
                    let top = max_rounds(w) - 8;
                    let g = any_poseidon(&mut c.rng, w, sb, 4, 4, top.min(if c.thorough { 55 } else { 20 }));
                    preimage(c, &g, false);
                });
            }
        }
    }
    for rounds in 0..if SIM { 60 } else { 6 } {
        s.add(format!("native mimc {}", rounds), move |c| native_mimc(c, rounds));
        if rounds > 0 && (rounds < 12 || rounds % 7 == 0) {
            s.add(format!("mimc preimage {}", rounds), move |c| {
                for _ in 0..if SIM { 4 } else { 1 } {
                    let g = any_mimc(&mut c.rng, rounds);
                    preimage(c, &g, SIM && rounds <= 30);
                }
            });
        }
    }
    if SIM {
        for rounds in vec![100usize, 200, 322] {
            s.add(format!("native mimc {}", rounds), move |c| native_mimc(c, rounds));
            s.add(format!("mimc preimage {}", rounds), move |c| {
                let g = any_mimc(&mut c.rng, rounds);
                preimage(c, &g, false);
            });
        }
    }
    s
}
