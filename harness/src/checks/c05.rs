//! C05: Fiat-Shamir challenges bind the whole transcript so far.
use crate::comp::*;
use crate::gadgets::*;
use crate::prog::*;
use crate::refp::*;
use crate::runner::*;
use crate::subject::*;
use crate::util::*;
use bulletproofs_amcl::ipp::IPP;
use merlin::Transcript;
use serde_json::Value;
use std::sync::Arc;

/// every challenge the verifier derives
fn run(s: &Subj, p: &Value, comms: &[G1], label: &'static [u8]) -> Vec<FE> {
    merlin::vp::start();
    let _ = guard(|| s.verify_with(p, comms, label, &s.gn));
    challenges(&merlin::vp::take())
}
/// bit-level variety: nearby, negated, high and low bits, unrelated
fn pts(r: &mut Rng, p: &G1, gn: &Gens) -> Vec<(&'static str, G1)> {
    super::c03::points(r, p, gn)
}
fn scs(r: &mut Rng, s: &FE) -> Vec<(&'static str, FE)> {
    let mut v = super::c03::scalars(r, s);
    v.push(("+2^0..63", s + &fe_pow2(r.range(0, 63))));
    v.push(("+2^64..127", s + &fe_pow2(r.range(64, 127))));
    v.push(("+2^128..191", s + &fe_pow2(r.range(128, 191))));
    v.push(("+2^192..253", s + &fe_pow2(r.range(192, 253))));
    v.into_iter().filter(|x| x.1 != *s).collect()
}
fn verdict(ctx: &mut Ctx, base: &[FE], new: &[FE], from: usize, names: &[String], sig: String, desc: &str) {
    ctx.count("perturbations", 1);
    let same: Vec<&String> = (from..base.len().min(new.len())).filter(|i| base[*i] == new[*i]).map(|i| &names[i]).collect();
    ctx.count("challenges_compared", (base.len().min(new.len()).saturating_sub(from)) as u64);
    ctx.check(same.is_empty() && new.len() >= base.len().min(from + 1), &format!("{} {}", desc, sig), &|| {
        format!("{}: challenge(s) {:?} did not change ({})", sig, same, desc)
    });
}

fn full_range(ctx: &mut Ctx, c: &FE, name: &str, desc: &str) {
    let b = c.to_bytes();
    let v = &b[b.len() - 32..];
    let w = (0..4).find(|w| v[8 * w..8 * w + 8].iter().all(|x| *x == 0) || v[8 * w..8 * w + 8].iter().all(|x| *x == 255));
    ctx.check(w.is_none(), &format!("{} range {}", desc, name), &|| format!("challenge {} has 64 constant bits: {:?} ({})", name, v, desc));
}
fn perturb(ctx: &mut Ctx, s: &Subj, cap: usize, pos_cap: usize) {
    let mut r = ctx.rng.fork();
    let base = run(s, &s.proof, &s.comms, s.label);
    let k = rounds(&s.proof);
    if base.len() < 5 + k {
        ctx.check(false, &format!("{} shape", s.desc), &|| {
            format!("only {} challenges are derived for {} rounds: fewer than y, z, u, x, w and one per round ({})", base.len(), k, s.desc)
        });
        return;
    }
    let nu = base.len() - 5 - k;
    let mut names: Vec<String> = (0..nu).map(|i| format!("callback {}", i)).collect();
    names.extend(["y", "z", "u", "x", "w"].iter().map(|x| x.to_string()));
    names.extend((0..k).map(|i| format!("u_{}", i)));
    if nu > 0 {
        ctx.count("callback_challenges", nu as u64);
    }
    // no challenge repeats, none is degenerate
    for i in 0..base.len() {
        let dup = (0..i).find(|j| base[*j] == base[i]);
        ctx.check(dup.is_none() && !base[i].is_zero() && base[i] != FE::one(), &format!("{} fresh {}", s.desc, names[i]), &|| {
            format!("challenge {} repeats {:?} or is trivial ({})", names[i], dup.map(|j| names[j].clone()), s.desc)
        });
    }
    // challenges range over the whole field, not over a part of it
    for (i, c) in base.iter().enumerate() {
        full_range(ctx, c, &names[i], &s.desc);
    }
    // deterministic
    let again = run(s, &s.proof, &s.comms, s.label);
    ctx.check(again == base, &format!("{} deterministic", s.desc), &|| "the same messages gave other challenges".into());
    let some = |r: &mut Rng, mut v: Vec<(&'static str, G1)>, c: usize| {
        r.shuffle(&mut v);
        v.truncate(c);
        v
    };
    for name in POINTS.iter() {
        let from = if name.ends_with("1") && !name.starts_with("T") { 0 } else if name.starts_with("T") { nu + 2 } else { nu };
        let o = json_g1(&s.proof[*name]);
        let v = pts(&mut r, &o, &s.gn);
        for (how, p) in some(&mut r, v, cap) {
            let mut q = s.proof.clone();
            q[*name] = g1_json(&p);
            let c = run(s, &q, &s.comms, s.label);
            verdict(ctx, &base, &c, from, &names, format!("{} {}", name, how), &s.desc);
        }
    }
    for name in SCALARS.iter() {
        let o = json_fe(&s.proof[*name]);
        let mut v = scs(&mut r, &o);
        r.shuffle(&mut v);
        v.truncate(cap + 1);
        for (how, p) in v {
            let mut q = s.proof.clone();
            q[*name] = fe_json(&p);
            let c = run(s, &q, &s.comms, s.label);
            verdict(ctx, &base, &c, nu + 4, &names, format!("{} {}", name, how), &s.desc);
        }
    }
    for j in 0..k {
        for w in ["L", "R"].iter() {
            let o = json_g1(&lr(&s.proof, w)[j]);
            let v = pts(&mut r, &o, &s.gn);
            for (how, p) in some(&mut r, v, cap.min(3)) {
                let mut q = s.proof.clone();
                lr_mut(&mut q, w)[j] = g1_json(&p);
                let c = run(s, &q, &s.comms, s.label);
                verdict(ctx, &base, &c, nu + 5 + j, &names, format!("{}[{}] {}", w, j, how), &s.desc);
            }
        }
    }
    for l in LABELS.iter() {
        if *l != s.label {
            let c = run(s, &s.proof, &s.comms, l);
            verdict(ctx, &base, &c, 0, &names, format!("label {:?}", std::str::from_utf8(l)), &s.desc);
        }
    }
    let m = s.comms.len();
    let mut is: Vec<usize> = (0..m).collect();
    if m > pos_cap {
        r.shuffle(&mut is);
        is.truncate(pos_cap);
    }
    for i in is {
        let v = pts(&mut r, &s.comms[i], &s.gn);
        for (how, p) in some(&mut r, v, cap.min(3)) {
            let mut c = s.comms.clone();
            c[i] = p;
            let c = run(s, &s.proof, &c, s.label);
            verdict(ctx, &base, &c, 0, &names, format!("commitment {} {}", i, how), &s.desc);
        }
        let j = r.below(m);
        if s.comms[i] != s.comms[j] {
            let mut c = s.comms.clone();
            c.swap(i, j);
            let c = run(s, &s.proof, &c, s.label);
            verdict(ctx, &base, &c, 0, &names, format!("commitments {} and {} swapped", i, j), &s.desc);
        }
    }
    if let What::P(_) = s.what {
        // one more variable, even one that equals the first message that follows
        for x in vec![r.g1(), G1::identity(), json_g1(&s.proof["A_I1"])] {
            let mut c = s.comms.clone();
            c.push(x);
            let c = run(s, &s.proof, &c, s.label);
            verdict(ctx, &base, &c, 0, &names, "one more commitment".into(), &s.desc);
        }
    }
}

/// prover and verifier derive the same challenges; also for an accepted proof of every kind
fn agree(ctx: &mut Ctx, kind: usize, size: usize) {
    let mut r = ctx.rng.fork();
    merlin::vp::start();
    let sj = any_subj(&mut r, kind, size);
    let ev = merlin::vp::take();
    let sj = match sj {
        Ok(s) => s,
        Err(e) => {
            ctx.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
            return;
        }
    };
    let pc = challenges(&ev);
    let vc = run(&sj, &sj.proof, &sj.comms, sj.label);
    // the prover's log may contain more than this proof (sizing runs draw nothing)
    let tail = if pc.len() >= vc.len() { &pc[pc.len() - vc.len()..] } else { &pc[..] };
    ctx.count("agreement", vc.len() as u64);
    ctx.check(tail == &vc[..], &format!("agree {}", sj.desc), &|| format!("prover and verifier derive other challenges ({})", sj.desc));
    let v = sj.verify();
    ctx.check(v.is_ok(), &format!("accept {}", sj.desc), &|| format!("honest proof rejected {:?} ({})", v, sj.desc));
}

/// the number of gates in the inner product and the kind of system enter the transcript
fn context(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    // standalone inner product: same first messages, other claimed length
    let g = gens(16);
    let (l, rr): (Vec<G1>, Vec<G1>) = ((0..4).map(|_| r.g1()).collect(), (0..4).map(|_| r.g1()).collect());
    let mut first: Vec<(usize, FE)> = vec![];
    for k in 1..=4usize {
        let n = 1 << k;
        merlin::vp::start();
        let _ = guard(|| {
            let mut t = Transcript::new(b"n");
            let one: FieldElementVector = vec![FE::one(); n].into();
            let gv = vec_from(&g.G.iter().take(n).cloned().collect::<Vec<_>>());
            let hv = vec_from(&g.H.iter().take(n).cloned().collect::<Vec<_>>());
            IPP::verify_ipp(n, &mut t, &one, &one, &g.g, &g.h, &gv, &hv, &FE::one(), &FE::one(), &vec_from(&l[..k]), &vec_from(&rr[..k]))
        });
        let c = challenges(&merlin::vp::take());
        if c.is_empty() {
            continue;
        }
        for (m, f) in &first {
            ctx.check(*f != c[0], &format!("ipp length {} {}", m, n), &|| format!("first inner-product challenge is the same for lengths {} and {}", m, n));
        }
        first.push((n, c[0].clone()));
    }
    // constraint systems of several sizes fed the same proof messages
    let mut per: Vec<(usize, usize, Vec<FE>)> = vec![];
    for n in vec![1usize, 2, 4, 8] {
        let k = n.trailing_zeros() as usize;
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(Op::AllocMul(lc_const(fe(2)), lc_const(fe(3))));
        }
        let prog = Prog { ops, desc: format!("{} gates", n) };
        let mut p = blank(k);
        for j in 0..k {
            lr_mut(&mut p, "L")[j] = g1_json(&l[j]);
            lr_mut(&mut p, "R")[j] = g1_json(&rr[j]);
        }
        merlin::vp::start();
        let gn = gens(8);
        let _ = guard(|| verify_prog(&prog, &gn, b"n", &jp(&p), &[], false));
        per.push((n, k, challenges(&merlin::vp::take())));
    }
    for a in 0..per.len() {
        for b in 0..a {
            let ((na, ka, ca), (nb, kb, cb)) = (&per[a], &per[b]);
            if *kb == 0 || *ka == 0 || ca.len() < 6 || cb.len() < 6 {
                continue;
            }
            ctx.check(ca[5] != cb[5], &format!("gates {} {}", na, nb), &|| format!("first inner-product challenge is the same for {} and {} gates", na, nb));
        }
    }
    // with and without randomized constraints
    for n in 0..3 {
        let mut ops: Vec<Op> = (0..n).map(|_| Op::AllocMul(lc_const(fe(2)), lc_const(fe(3)))).collect();
        let one = Prog { ops: ops.clone(), desc: "one phase".into() };
        ops.push(Op::Rand(Arc::new(vec![])));
        let two = Prog { ops, desc: "two phases".into() };
        let k = pow2(n).trailing_zeros() as usize;
        let mut cs = vec![];
        for p in &[&one, &two] {
            merlin::vp::start();
            let gn = gens(4);
            let _ = guard(|| verify_prog(p, &gn, b"n", &jp(&blank(k)), &[], false));
            cs.push(challenges(&merlin::vp::take()));
        }
        for i in 0..cs[0].len().min(cs[1].len()) {
            ctx.check(cs[0][i] != cs[1][i], &format!("phases {} {}", n, i), &|| "challenge does not depend on whether the system has randomized constraints".into());
        }
        if cs[0].len().min(cs[1].len()) == 0 {
            ctx.check(false, "phases none", &|| "no challenges derived".into());
        }
    }
}

/// challenges in callbacks: order, labels, and everything before them
fn callbacks(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let nc = r.range(1, 3);
    let ncb = r.range(1, 3);
    let mut ops = vec![];
    for _ in 0..r.range(0, 2) {
        ops.push(Op::Commit(r.fe(), r.fe()));
    }
    for _ in 0..r.range(0, 3) {
        ops.push(Op::AllocMul(lc_const(r.fe()), lc_const(r.fe())));
    }
    for _ in 0..ncb {
        let mut inner = vec![];
        for _ in 0..nc {
            inner.push(Op::Challenge(*r.pick(&[b"a", b"b"])));
            if r.chance(1, 2) {
                inner.push(Op::AllocMul(lc_const(r.fe()), lc_const(r.fe())));
            }
        }
        ops.push(Op::Rand(Arc::new(inner)));
    }
    let prog = Prog { ops, desc: format!("{} callbacks with {} challenges", ncb, nc) };
    let gn = gens(32);
    let (p, st) = prove_prog(&prog, &gn, b"cb", &POpts::default());
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ctx.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
            return;
        }
    };
    let gn = gens(needed(&st));
    let s = Subj { what: What::P(prog.clone()), gn, label: b"cb", proof: pj(&p.proof), comms: p.comms, n: st.gates, desc: prog.desc.clone() };
    // the values the callbacks were given: prover and verifier, each different, none confined to a part of the field
    let mut tr = Transcript::new(b"cb");
    let (vr, sv) = verify_prog_on(&prog, &s.gn, &mut tr, &jp(&s.proof), &s.comms, false);
    ctx.check(vr.is_ok(), &format!("{} accept", s.desc), &|| format!("honest proof rejected {:?} ({})", vr, s.desc));
    ctx.check(sv.chals == st.chals && st.chals.len() == nc * ncb, &format!("{} same", s.desc), &|| {
        format!("prover's callbacks were given {:?}, the verifier's {:?} ({})", st.chals, sv.chals, s.desc)
    });
    for (i, c) in st.chals.iter().enumerate() {
        full_range(ctx, c, &format!("of callback {}", i), &s.desc);
        ctx.check(!st.chals[..i].contains(c), &format!("{} fresh callback {}", s.desc, i), &|| format!("challenge {} of the callbacks repeats ({})", i, s.desc));
    }
    perturb(ctx, &s, if SIM { 4 } else { 1 }, 4);
}

/// one proof in a sequence on one transcript, preceded by a message of the application
#[derive(Clone)]
enum Part {
    P(Prog),
    C(Comp),
}
#[derive(Clone)]
struct Link {
    msg: Option<Vec<u8>>,
    part: Part,
    proof: Value,
    comms: Vec<G1>,
}
impl Link {
    fn note(&self, tr: &mut Transcript) {
        if let Some(m) = &self.msg {
            tr.append_message(b"app", m);
        }
    }
    fn verify(&self, tr: &mut Transcript, gn: &Gens) -> bool {
        self.note(tr);
        let p = jp(&self.proof);
        match &self.part {
            Part::P(g) => guard(|| verify_prog_on(g, gn, tr, &p, &self.comms, false).0) == Ok(Ok(())),
            Part::C(c) => guard(|| c.verify_on(&p, &self.comms, tr, gn)) == Ok(Ok(())),
        }
    }
    fn desc(&self) -> String {
        match &self.part {
            Part::P(g) => g.desc.clone(),
            Part::C(c) => c.desc.clone(),
        }
    }
}
/// verdict and challenges of every proof of the sequence
fn replay(links: &[Link], gn: &Gens) -> Vec<(bool, Vec<FE>)> {
    let mut tr = Transcript::new(b"chain");
    links
        .iter()
        .map(|l| {
            merlin::vp::start();
            let ok = l.verify(&mut tr, gn);
            (ok, challenges(&merlin::vp::take()))
        })
        .collect()
}
/// several proofs on one transcript: each is bound to all that came before it
fn chain(ctx: &mut Ctx, n: usize, comps: bool) {
    let mut r = ctx.rng.fork();
    let gn = gens(256);
    let mut links: Vec<Link> = vec![];
    let mut tr = Transcript::new(b"chain");
    for i in 0..n {
        let part = if i > 0 && r.chance(1, 3) {
            links[i - 1].part.clone() // the same statement again
        } else if comps && r.chance(1, 2) {
            let kinds: Vec<usize> = (0..r.range(1, 2)).map(|_| *r.pick(&[0, 1, 2, 3, 4, 5, 9])).collect();
            let cbs = r.below(2);
            Part::C(gen_comp(&mut r, &kinds, cbs))
        } else {
            let cfg = random_cfg(&mut r, false);
            Part::P(gen_prog(&mut r, &cfg))
        };
        if let Part::C(c) = &part {
            if c.gates() > 256 {
                return;
            }
        }
        let msg = if r.chance(1, 2) { Some((0..r.below(5)).map(|_| r.next() as u8).collect()) } else { None };
        let mut l = Link { msg, part, proof: Value::Null, comms: vec![] };
        l.note(&mut tr);
        let res = match &l.part {
            Part::P(g) => guard(|| prove_prog_on(g, &gn, &mut tr, &POpts::default()).0.map(|p| (p.proof, p.comms))),
            Part::C(c) => {
                let mut rr = r.fork();
                guard(|| c.prove_on(&mut tr, &gn, &mut rr))
            }
        };
        match res {
            Ok(Ok((p, c))) => {
                l.proof = pj(&p);
                l.comms = c;
            }
            e => {
                let e = format!("{:?}", e.map(|x| x.map(|_| ())));
                ctx.check(false, "chain prove", &|| format!("no proof for a true statement, number {} on its transcript: {}", i, e));
                return;
            }
        }
        links.push(l);
    }
    let desc: Vec<String> = links.iter().map(|l| l.desc()).collect();
    ctx.count("chains", 1);
    let base = replay(&links, &gn);
    for (i, b) in base.iter().enumerate() {
        ctx.check(b.0, &format!("chain accept {} {:?}", i, desc), &|| format!("proof number {} on one transcript is rejected: {:?}", i, desc));
    }
    if !base.iter().all(|b| b.0) {
        return;
    }
    // no challenge of one proof comes back in another
    for i in 0..n {
        for j in 0..i {
            ctx.check(!base[i].1.iter().any(|c| base[j].1.contains(c)), &format!("chain fresh {} {} {:?}", i, j, desc), &|| {
                format!("proofs {} and {} on one transcript share a challenge ({:?})", j, i, desc)
            });
        }
    }
    let later = |ctx: &mut Ctx, new: &[Link], from: usize, what: &str| {
        // every link from `from` on differs in what precedes it
        let got = replay(new, &gn);
        for i in from..new.len().min(n) {
            let same = got[i].1.iter().filter(|c| base[i].1.contains(c)).count();
            ctx.count("chain_variations", 1);
            ctx.check(same == 0 && !got[i].0, &format!("chain {} {} {:?}", what, i, desc), &|| {
                format!("{}: proof {} keeps {} challenges, accepted {} ({:?})", what, i, same, got[i].0, desc)
            });
        }
    };
    for j in 1..n {
        // alone, and with one predecessor left out
        let alone = replay(&links[j..], &gn);
        ctx.check(!alone[0].0, &format!("chain alone {} {:?}", j, desc), &|| format!("proof {} is accepted without the proofs before it ({:?})", j, desc));
        // predecessor changed
        for _ in 0..3 {
            let mut v = links.clone();
            let what = match r.below(4) {
                0 => {
                    v[j].msg = match &v[j].msg {
                        None => Some(vec![]),
                        Some(m) if r.chance(1, 2) => Some(m.iter().cloned().chain(vec![0]).collect()),
                        Some(_) => None,
                    };
                    "application message"
                }
                1 if v[j - 1].comms.len() > 0 => {
                    let i = r.below(v[j - 1].comms.len());
                    v[j - 1].comms[i] = r.g1();
                    "commitment of the proof before"
                }
                2 => {
                    let f = *r.pick(&SCALARS);
                    v[j - 1].proof[f] = fe_json(&r.fe());
                    "scalar of the proof before"
                }
                _ => {
                    let f = *r.pick(&POINTS);
                    v[j - 1].proof[f] = g1_json(&r.g1());
                    "element of the proof before"
                }
            };
            later(ctx, &v, j, what);
        }
        // last round of the inner product of the proof before
        let k = rounds(&links[j - 1].proof);
        if k > 0 {
            let mut v = links.clone();
            let w = *r.pick(&["L", "R"]);
            lr_mut(&mut v[j - 1].proof, w)[k - 1] = g1_json(&r.g1());
            later(ctx, &v, j, "last round of the proof before");
        }
        // proofs exchanged, order exchanged
        let i = r.below(j);
        let mut v = links.clone();
        v.swap(i, j);
        let got = replay(&v, &gn);
        ctx.check(!got[i].0 && !got[j].0, &format!("chain swap {} {} {:?}", i, j, desc), &|| format!("proofs {} and {} are accepted in exchanged order ({:?})", i, j, desc));
        // the same proof twice
        let mut v = links.clone();
        v.insert(j, links[j - 1].clone());
        let got = replay(&v, &gn);
        ctx.check(!got[j].0, &format!("chain twice {} {:?}", j, desc), &|| format!("proof {} is accepted a second time on its transcript ({:?})", j - 1, desc));
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Trace monitor on the transcript: every challenge derived by the verifier is recorded; one message (proof point or scalar, \
         round element, commitment, label, order or number of commitments, length, phase kind) is changed at a time, and every challenge \
         that comes after that message in the protocol must change; prover and verifier logs must agree; challenges must be fresh; proofs in sequence on one transcript are bound to all that came before. \
         Distinct by statement and changed message.",
    );
    s.assume("the transcript hash (merlin/STROBE) behaves as a random oracle; observed through a vendored copy that logs calls");
    let reps = match (SIM, o.thorough) {
        (true, false) => 14,
        (true, true) => 300,
        (false, false) => 2,
        (false, true) => 30,
    };
    for rep in 0..reps {
        for kind in 0..KINDS + 4 {
            s.add(format!("perturb kind {} rep {}", kind, rep), move |c| {
                let size = if SIM { c.rng.range(1, 3) } else { 1 };
                let mut r = c.rng.fork();
                match any_subj(&mut r, kind, size) {
                    Ok(sj) => perturb(c, &sj, if SIM { 5 } else { 1 }, if SIM { 12 } else { 2 }),
                    Err(e) => {
                        c.check(false, "prove", &|| format!("honest proving failed: {:?}", e));
                    }
                }
            });
            s.add(format!("agree kind {} rep {}", kind, rep), move |c| agree(c, kind, if SIM { 3 } else { 1 }));
        }
        s.add(format!("context {}", rep), |c| context(c));
        for i in 0..if SIM { 12 } else { 1 } {
            s.add(format!("chain {} {}", rep, i), move |c| chain(c, 2 + i % 3, i % 2 == 1));
        }
        for i in 0..4 {
            s.add(format!("callbacks {} {}", rep, i), |c| callbacks(c));
        }
    }
    s
}
