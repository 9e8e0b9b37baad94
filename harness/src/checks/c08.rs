//! C08: the standalone inner-product argument is complete and sound.
use crate::runner::*;
use crate::util::*;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use merlin::Transcript;

#[derive(Clone)]
struct Inst {
    n: usize,
    gf: Vec<FE>,
    hf: Vec<FE>,
    g: Vec<G1>,
    h: Vec<G1>,
    q: G1,
    p: G1,
    a: FE,
    b: FE,
    l: Vec<G1>,
    r: Vec<G1>,
    label: &'static [u8],
    pre: u64,
}
impl Inst {
    fn tr(&self) -> Transcript {
        let mut t = Transcript::new(self.label);
        if self.pre > 0 {
            t.append_message(b"parent", &self.pre.to_le_bytes());
        }
        t
    }
    fn verify(&self) -> Result<(), R1CSError> {
        let mut t = self.tr();
        IPP::verify_ipp(
            self.n,
            &mut t,
            &fev(&self.gf),
            &fev(&self.hf),
            &self.p,
            &self.q,
            &vec_from(&self.g),
            &vec_from(&self.h),
            &self.a,
            &self.b,
            &vec_from(&self.l),
            &vec_from(&self.r),
        )
    }
}
fn expected_p(g: &[G1], h: &[G1], gf: &[FE], hf: &[FE], a: &[FE], b: &[FE], q: &G1) -> G1 {
    let mut p = G1::identity();
    let mut c = FE::zero();
    for i in 0..a.len() {
        p = &p + &(&g[i] * &(&a[i] * &gf[i]));
        p = &p + &(&h[i] * &(&b[i] * &hf[i]));
        c = &c + &(&a[i] * &b[i]);
    }
    &p + &(q * &c)
}
fn vals(r: &mut Rng, n: usize) -> (String, Vec<FE>) {
    match r.below(8) {
        7 => {
            // all bits set up to some length: carries run through the scalar arithmetic
            ("bits".into(), (0..n).map(|_| &fe_pow2(r.range(1, 254)) - &fe(1 + r.next() % 31)).collect())
        }
        0 => ("zeros".into(), vec![FE::zero(); n]),
        1 => ("ones".into(), vec![FE::one(); n]),
        2 => ("mixed".into(), (0..n).map(|_| r.fe_mixed()).collect()),
        3 => {
            let k = r.below(n);
            ("unit".into(), (0..n).map(|i| if i == k { FE::one() } else { FE::zero() }).collect())
        }
        4 => {
            let y = r.fe();
            ("powers".into(), (0..n).map(|i| fe_pow(&y, i as u64)).collect())
        }
        _ => ("random".into(), (0..n).map(|_| r.fe()).collect()),
    }
}
fn instance(ctx: &mut Ctx, n: usize) -> Option<(Inst, String)> {
    let r = &mut ctx.rng.fork();
    let gn = gens(n);
    let (da, a) = vals(r, n);
    let (db, b) = vals(r, n);
    let (dgf, gf) = vals(r, n);
    let (dhf, hf) = vals(r, n);
    let mut g: Vec<G1> = gn.G.iter().cloned().collect();
    let mut h: Vec<G1> = gn.H.iter().cloned().collect();
    let mut q = gn.g.clone();
    let dg = match r.below(8) {
        0 => {
            g[r.below(n)] = G1::identity();
            "identity in G"
        }
        1 => {
            h[r.below(n)] = G1::identity();
            "identity in H"
        }
        2 => {
            q = G1::identity();
            "Q identity"
        }
        3 => {
            h = g.clone();
            "G=H"
        }
        4 => {
            q = r.g1();
            "other Q"
        }
        _ => "",
    };
    let label: &'static [u8] = *r.pick(&[&b"ipp"[..], b"", b"innerproduct"]);
    let pre = if r.chance(1, 2) { r.next() } else { 0 };
    let desc = format!("n={} a {} b {} Gf {} Hf {} {}", n, da, db, dgf, dhf, dg);
    let mut i = Inst { n, gf, hf, g, h, q, p: G1::identity(), a: FE::zero(), b: FE::zero(), l: vec![], r: vec![], label, pre };
    i.p = expected_p(&i.g, &i.h, &i.gf, &i.hf, &a, &b, &i.q);
    let mut t = i.tr();
    let pf: InnerProductArgumentProof = ctx.total("create_ipp", || {
        IPP::create_ipp(&mut t, &i.q, &fev(&i.gf), &fev(&i.hf), &vec_from(&i.g), &vec_from(&i.h), &fev(&a), &fev(&b))
    })?;
    i.a = pf.a;
    i.b = pf.b;
    i.l = pf.L.iter().cloned().collect();
    i.r = pf.R.iter().cloned().collect();
    ctx.count(&format!("rounds_{}", i.l.len()), 1);
    let k = n.trailing_zeros() as usize;
    ctx.check(i.l.len() == k && i.r.len() == k, &format!("{} rounds", desc), &|| format!("{} L and {} R for length {}", i.l.len(), i.r.len(), n));
    let v = ctx.total("verify_ipp", || i.verify())?;
    if !ctx.check(v.is_ok(), &format!("{} complete", desc), &|| format!("honest inner-product proof rejected: {:?} ({})", v, desc)) {
        return None;
    }
    Some((i, desc))
}
fn case(ctx: &mut Ctx, n: usize, cap: usize) {
    let (i, desc) = match instance(ctx, n) {
        Some(x) => x,
        None => return,
    };
    let mut r = ctx.rng.fork();
    let rr = &mut r;
    let gn = gens(n);
    let mut rej = |ctx: &mut Ctx, j: Inst, sig: String| {
        if let Some(v) = ctx.total(&sig, || j.verify()) {
            ctx.count("altered", 1);
            ctx.check(v.is_err(), &format!("{} {}", desc, sig), &|| format!("accepted after change: {} ({})", sig, desc));
        }
    };
    let cut = |r: &mut Rng, mut v: Vec<(&'static str, G1)>| {
        r.shuffle(&mut v);
        v.truncate(cap);
        v
    };
    let cuts = |r: &mut Rng, mut v: Vec<(&'static str, FE)>| {
        r.shuffle(&mut v);
        v.truncate(cap);
        v
    };
    // any other P (all of these differ from P)
    let mut ps = super::c03::points(rr, &i.p, &gn);
    if !i.q.is_identity() {
        ps.push(("+Q", &i.p + &i.q));
        ps.push(("-Q", &i.p - &i.q));
        ps.push(("+kQ", &i.p + &(&i.q * &rr.fe_nonzero())));
    }
    for (how, p) in ps {
        if p != i.p {
            let mut j = i.clone();
            j.p = p;
            rej(ctx, j, format!("P {}", how));
        }
    }
    for k in 0..i.l.len() {
        let v = super::c03::points(rr, &i.l[k], &gn);
        for (how, p) in cut(rr, v) {
            let mut j = i.clone();
            j.l[k] = p;
            rej(ctx, j, format!("L[{}] {}", k, how));
        }
        let v = super::c03::points(rr, &i.r[k], &gn);
        for (how, p) in cut(rr, v) {
            let mut j = i.clone();
            j.r[k] = p;
            rej(ctx, j, format!("R[{}] {}", k, how));
        }
        if i.l[k] != i.r[k] {
            let mut j = i.clone();
            std::mem::swap(&mut j.l[k], &mut j.r[k]);
            rej(ctx, j, format!("L and R of round {} swapped", k));
        }
        if k > 0 && (i.l[k] != i.l[k - 1] || i.r[k] != i.r[k - 1]) {
            let mut j = i.clone();
            j.l.swap(k, k - 1);
            j.r.swap(k, k - 1);
            rej(ctx, j, format!("rounds {} and {} swapped", k - 1, k));
        }
    }
    // scalars: effective when something is multiplied by them
    let live_g: Vec<usize> = (0..n).filter(|x| !i.g[*x].is_identity() && !i.gf[*x].is_zero()).collect();
    let live_h: Vec<usize> = (0..n).filter(|x| !i.h[*x].is_identity() && !i.hf[*x].is_zero()).collect();
    // a single relation between G and H or among repeated bases could cancel; only independent bases judged
    let indep = i.g != i.h;
    if !live_g.is_empty() && indep {
        for (how, x) in cuts(rr, super::c03::scalars(&mut ctx.rng.fork(), &i.a)) {
            let mut j = i.clone();
            j.a = x;
            rej(ctx, j, format!("a {}", how));
        }
    }
    if !live_h.is_empty() && indep {
        for (how, x) in cuts(rr, super::c03::scalars(&mut ctx.rng.fork(), &i.b)) {
            let mut j = i.clone();
            j.b = x;
            rej(ctx, j, format!("b {}", how));
        }
    }
    // factors and generators at every position, when the folded scalar is live
    let pos = |r: &mut Rng| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if n > 16 {
            let keep = vec![0, n - 1, n / 2, n / 2 - 1];
            r.shuffle(&mut v);
            v.truncate(10);
            v.extend(keep);
        }
        v
    };
    if !i.a.is_zero() && indep {
        for k in pos(rr) {
            if !i.g[k].is_identity() {
                let f = super::c03::scalars(rr, &i.gf[k]);
                for (how, x) in cuts(rr, f).into_iter().take(1) {
                    let mut j = i.clone();
                    j.gf[k] = x;
                    rej(ctx, j, format!("G_factors[{}] {}", k, how));
                }
            }
            if !i.gf[k].is_zero() {
                let f = super::c03::points(rr, &i.g[k], &gn);
                for (how, x) in cut(rr, f).into_iter().take(1) {
                    let mut j = i.clone();
                    j.g[k] = x;
                    rej(ctx, j, format!("G[{}] {}", k, how));
                }
            }
        }
    }
    if !i.b.is_zero() && indep {
        for k in pos(rr) {
            if !i.h[k].is_identity() {
                let f = super::c03::scalars(rr, &i.hf[k]);
                for (how, x) in cuts(rr, f).into_iter().take(1) {
                    let mut j = i.clone();
                    j.hf[k] = x;
                    rej(ctx, j, format!("H_factors[{}] {}", k, how));
                }
            }
            if !i.hf[k].is_zero() {
                let f = super::c03::points(rr, &i.h[k], &gn);
                for (how, x) in cut(rr, f).into_iter().take(1) {
                    let mut j = i.clone();
                    j.h[k] = x;
                    rej(ctx, j, format!("H[{}] {}", k, how));
                }
            }
        }
    }
    if !i.a.is_zero() && !i.b.is_zero() {
        let f = super::c03::points(rr, &i.q, &gn);
        for (how, x) in cut(rr, f) {
            let mut j = i.clone();
            j.q = x;
            rej(ctx, j, format!("Q {}", how));
        }
    }
    // lengths
    for m in vec![0, n / 2, n - 1, n + 1, 2 * n, 4 * n] {
        if m != n {
            let mut j = i.clone();
            j.n = m;
            rej(ctx, j, format!("claimed length {}", m));
        }
    }
    if n > 1 {
        let mut j = i.clone();
        j.l.pop();
        j.r.pop();
        rej(ctx, j, "last round dropped".into());
        let mut j = i.clone();
        j.l.remove(0);
        j.r.remove(0);
        rej(ctx, j, "first round dropped".into());
        // half the statement for half the rounds
        let mut j = i.clone();
        j.n = n / 2;
        j.l.pop();
        j.r.pop();
        j.g.truncate(n / 2);
        j.h.truncate(n / 2);
        j.gf.truncate(n / 2);
        j.hf.truncate(n / 2);
        if indep && !i.a.is_zero() && !i.b.is_zero() && live_g.len() == n && live_h.len() == n {
            rej(ctx, j, "half of everything".into());
        }
    }
    let mut j = i.clone();
    j.l.push(G1::identity());
    j.r.push(G1::identity());
    rej(ctx, j, "identity round added".into());
    for (what, dl, dr) in vec![("L", 1i32, 0i32), ("R", 0, 1), ("L", -1, 0), ("R", 0, -1), ("both, unevenly", 1, 2)] {
        let mut j = i.clone();
        for (d, v) in vec![(dl, &mut j.l), (dr, &mut j.r)] {
            if d < 0 {
                v.pop();
            }
            for _ in 0..d {
                v.push(G1::identity());
            }
        }
        if j.l.len() != i.l.len() || j.r.len() != i.r.len() {
            rej(ctx, j, format!("other number of {}: {:+} {:+}", what, dl, dr));
        }
    }
    // transcript (no rounds: no challenge, the transcript plays no part)
    let lr_live = i.l.iter().chain(i.r.iter()).any(|x| !x.is_identity());
    if n > 1 && lr_live {
        let mut j = i.clone();
        j.label = b"another label";
        rej(ctx, j, "transcript label".into());
        let mut j = i.clone();
        j.pre = j.pre.wrapping_add(1);
        rej(ctx, j, "parent protocol".into());
    }
}

/// A prover that picks one round element after seeing the challenges: proves a P it knows nothing about
/// if that element does not enter its challenge.
fn late(ctx: &mut Ctx, n: usize) {
    let mut r = ctx.rng.fork();
    let gn = gens(n);
    let k = n.trailing_zeros() as usize;
    let mut i = Inst {
        n,
        gf: (0..n).map(|_| r.fe()).collect(),
        hf: (0..n).map(|_| r.fe()).collect(),
        g: gn.G.iter().cloned().collect(),
        h: gn.H.iter().cloned().collect(),
        q: gn.g.clone(),
        p: r.g1(),
        a: r.fe(),
        b: r.fe(),
        l: (0..k).map(|_| r.g1()).collect(),
        r: (0..k).map(|_| r.g1()).collect(),
        label: b"late",
        pre: 0,
    };
    for j in 0..2 * k {
        let left = j < k;
        let j = j % k;
        for _ in 0..2 {
            merlin::vp::start();
            let _ = guard(|| i.verify());
            let u = crate::refp::challenges(&merlin::vp::take());
            if u.len() < k {
                ctx.check(false, "late challenges", &|| format!("{} challenges for {} rounds", u.len(), k));
                return;
            }
            let u = &u[u.len() - k..];
            // a<s,G'> + b<1/s,H'> + ab Q - sum u^2 L - sum u^-2 R = P
            let mut acc = &(&i.q * &(&i.a * &i.b)) - &i.p;
            for t in 0..n {
                let mut s = FE::one();
                for (x, ux) in u.iter().enumerate() {
                    let bit = (t >> (k - 1 - x)) & 1;
                    s = &s * &(if bit == 1 { ux.clone() } else { ux.inverse() });
                }
                acc = &acc + &(&i.g[t] * &(&(&i.a * &s) * &i.gf[t]));
                acc = &acc + &(&i.h[t] * &(&(&i.b * &s.inverse()) * &i.hf[t]));
            }
            for (x, ux) in u.iter().enumerate() {
                let sq = ux * ux;
                if !(left && x == j) {
                    acc = &acc - &(&i.l[x] * &sq);
                }
                if !(!left && x == j) {
                    acc = &acc - &(&i.r[x] * &sq.inverse());
                }
            }
            let sq = &u[j] * &u[j];
            if left {
                i.l[j] = &acc * &sq.inverse();
            } else {
                i.r[j] = &acc * &sq;
            }
        }
        let v = guard(|| i.verify());
        ctx.count("late_elements", 1);
        ctx.check(v != Ok(Ok(())), &format!("late n={} {}[{}]", n, if left { "L" } else { "R" }, j), &|| {
            format!("a proof of a random P is accepted: {}[{}] was chosen after the challenges (n={})", if left { "L" } else { "R" }, j, n)
        });
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Accept/reject monitor on the public inner-product functions: P is computed here from the definition with group operations; the \
         honest proof must verify with log2(n) rounds, and every single alteration of P, proof, factors, generators, Q, length or transcript \
         that matters (its coefficient is not zero) must be rejected. Distinct by instance and alteration.",
    );
    let reps = match (SIM, o.thorough) {
        (true, false) => 60,
        (true, true) => 1500,
        (false, false) => 4,
        (false, true) => 60,
    };
    let ns: Vec<usize> = if SIM { vec![1, 2, 4, 8, 16, 32, 64] } else { vec![1, 2, 4, 8, 16] };
    for rep in 0..reps {
        for n in ns.clone() {
            let cap = if SIM { 4 } else { 1 };
            s.add(format!("n {} rep {}", n, rep), move |c| case(c, n, cap));
            if n > 1 && rep < 6 {
                s.add(format!("late n {} rep {}", n, rep), move |c| late(c, n));
            }
        }
    }
    if SIM {
        for n in vec![128, 256, 512, 1024] {
            s.add(format!("n {}", n), move |c| case(c, n, 2));
        }
    } else {
        s.add("n 64", |c| {
            instance(c, 64);
        });
        s.add("n 128", |c| {
            instance(c, 128);
        });
    }
    s
}
