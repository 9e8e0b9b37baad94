//! Reference prover and reference verification equations, written from the protocol description.
//! Challenges are read off the event log of the *real* verifier (by position), so nothing here
//! depends on labels or on the order of messages between two challenges.
use crate::mock::*;
use crate::prog::*;
use crate::util::*;
use merlin::vp::Event;
use serde_json::{json, Value};

/// What both sides agree on, once all challenges of randomized constraints are known.
#[derive(Clone)]
pub struct Stmt {
    pub n1: usize,
    pub n: usize,
    pub m: usize,
    pub lcs: Vec<Vec<(Variable, FE)>>,
}
impl Stmt {
    pub fn of(m: &Mock) -> Stmt {
        Stmt {
            n1: m.n1,
            n: m.gates,
            m: m.commits,
            lcs: m.lcs.clone(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Chals {
    pub user: Vec<FE>,
    pub y: FE,
    pub z: FE,
    pub u: FE,
    pub x: FE,
    pub w: FE,
    pub uk: Vec<FE>,
}
pub fn challenges(ev: &[Event]) -> Vec<FE> {
    ev.iter()
        .filter_map(|e| match e {
            Event::Challenge { data, .. } => {
                let mut b = [0u8; 48];
                if data.len() != 48 {
                    return None;
                }
                b.copy_from_slice(data);
                Some(FE::from(&b))
            }
            _ => None,
        })
        .collect()
}
/// Which of the five challenges are drawn, and what stands in for one that is not.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Full,
    /// z is y
    ZY,
    U(Al),
    W(Al),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Al {
    One,
    Y,
    Z,
    U,
    X,
}
pub fn shapes() -> Vec<Shape> {
    let mut v = vec![Shape::Full, Shape::ZY];
    for a in vec![Al::One, Al::X, Al::Y, Al::Z] {
        v.push(Shape::U(a));
    }
    for a in vec![Al::One, Al::X, Al::U, Al::Y, Al::Z] {
        v.push(Shape::W(a));
    }
    v
}
impl Shape {
    pub fn drawn(&self) -> usize {
        if *self == Shape::Full { 5 } else { 4 }
    }
}
/// Split the challenge sequence; None if the shape is not the expected one.
pub fn split(all: &[FE], user: usize, k: usize, shape: Shape) -> Option<Chals> {
    if all.len() != user + shape.drawn() + k {
        return None;
    }
    let mut it = all[user..].iter().cloned();
    let y = it.next()?;
    let z = if shape == Shape::ZY { y.clone() } else { it.next()? };
    let mut u = FE::one();
    let drawn_u = if let Shape::U(_) = shape { false } else { true };
    if drawn_u {
        u = it.next()?;
    }
    let x = it.next()?;
    if let Shape::U(a) = shape {
        u = match a {
            Al::X => x.clone(),
            Al::Y => y.clone(),
            Al::Z => z.clone(),
            _ => FE::one(),
        };
    }
    let w = match shape {
        Shape::W(Al::One) => FE::one(),
        Shape::W(Al::X) => x.clone(),
        Shape::W(Al::U) => u.clone(),
        Shape::W(Al::Y) => y.clone(),
        Shape::W(Al::Z) => z.clone(),
        _ => it.next()?,
    };
    Some(Chals { user: all[..user].to_vec(), y, z, u, x, w, uk: it.collect() })
}
pub struct Weights {
    pub l: Vec<FE>,
    pub r: Vec<FE>,
    pub o: Vec<FE>,
    pub v: Vec<FE>,
    pub c: FE,
}
pub fn weights(s: &Stmt, z: &FE) -> Weights {
    let mut w = Weights {
        l: vec![FE::zero(); s.n],
        r: vec![FE::zero(); s.n],
        o: vec![FE::zero(); s.n],
        v: vec![FE::zero(); s.m],
        c: FE::zero(),
    };
    let mut e = z.clone();
    for lc in &s.lcs {
        for (var, c) in lc {
            let t = &e * c;
            match var {
                Variable::MultiplierLeft(i) => w.l[*i] = &w.l[*i] + &t,
                Variable::MultiplierRight(i) => w.r[*i] = &w.r[*i] + &t,
                Variable::MultiplierOutput(i) => w.o[*i] = &w.o[*i] + &t,
                Variable::Committed(i) => w.v[*i] = &w.v[*i] - &t,
                Variable::One() => w.c = &w.c - &t,
            }
        }
        e = &e * z;
    }
    w
}
fn powers(b: &FE, n: usize) -> Vec<FE> {
    let mut v = vec![];
    let mut e = FE::one();
    for _ in 0..n {
        v.push(e.clone());
        e = &e * b;
    }
    v
}
pub fn msm(t: Vec<(G1, FE)>) -> G1 {
    if t.is_empty() {
        return G1::identity();
    }
    let (p, s): (Vec<G1>, Vec<FE>) = t.into_iter().unzip();
    G1Vector::from(p)
        .multi_scalar_mul_var_time(&FieldElementVector::from(s))
        .unwrap()
}
pub fn pt(p: &Value, k: &str) -> G1 {
    json_g1(&p[k])
}
pub fn sc(p: &Value, k: &str) -> FE {
    json_fe(&p[k])
}

/// Residuals of the two verification equations: polynomial identity, and vector opening together
/// with the inner product. Both must be the identity.
pub fn residuals(s: &Stmt, gn: &Gens, comms: &[G1], p: &Value, c: &Chals) -> (G1, G1) {
    let np = pow2(s.n);
    let w = weights(s, &c.z);
    let yi = powers(&c.y.inverse(), np);
    let x2 = &c.x * &c.x;
    let x3 = &x2 * &c.x;
    let mut delta = FE::zero();
    for i in 0..s.n {
        delta = delta + &(&yi[i] * &w.r[i]) * &w.l[i];
    }
    // identity: x^2*(<wV,V> + (wc+delta) g) + sum T_i x^i - t_x g - tau h
    let tx = sc(p, "t_x");
    let mut t = vec![
        (gn.g.clone(), &(&x2 * &(&w.c + &delta)) - &tx),
        (gn.h.clone(), sc(p, "t_x_blinding").negation()),
        (pt(p, "T_1"), c.x.clone()),
        (pt(p, "T_3"), x3.clone()),
        (pt(p, "T_4"), &x2 * &x2),
        (pt(p, "T_5"), &x3 * &x2),
        (pt(p, "T_6"), &x3 * &x3),
    ];
    for i in 0..s.m {
        t.push((comms[i].clone(), &x2 * &w.v[i]));
    }
    let rt = msm(t);
    // opening
    let (a, b) = (json_fe(&p["ipp_proof"]["a"]), json_fe(&p["ipp_proof"]["b"]));
    let k = c.uk.len();
    let mut sv = vec![];
    for i in 0..np {
        let mut e = FE::one();
        for j in 0..k {
            let bit = (i >> (k - 1 - j)) & 1;
            let u = &c.uk[j];
            e = if bit == 1 { &e * u } else { &e * &u.inverse() };
        }
        sv.push(e);
    }
    let mut t = vec![
        (pt(p, "A_I1"), c.x.clone()),
        (pt(p, "A_O1"), x2.clone()),
        (pt(p, "S1"), x3.clone()),
        (pt(p, "A_I2"), &c.u * &c.x),
        (pt(p, "A_O2"), &c.u * &x2),
        (pt(p, "S2"), &c.u * &x3),
        (gn.h.clone(), sc(p, "e_blinding").negation()),
        (gn.g.clone(), &c.w * &(&tx - &(&a * &b))),
    ];
    for i in 0..np {
        let uo = if i < s.n1 { FE::one() } else { c.u.clone() };
        let (wr, wl, wo) = if i < s.n {
            (w.r[i].clone(), w.l[i].clone(), w.o[i].clone())
        } else {
            (FE::zero(), FE::zero(), FE::zero())
        };
        let gs = &uo * &(&(&c.x * &(&yi[i] * &wr)) - &(&a * &sv[i]));
        let inner = &(&(&c.x * &wl) + &wo) - &(&b * &sv[i].inverse());
        let hs = &uo * &(&(&yi[i] * &inner) - &FE::one());
        t.push((gn.G[i].clone(), gs));
        t.push((gn.H[i].clone(), hs));
    }
    let (l, r) = (lr(p, "L"), lr(p, "R"));
    for j in 0..k {
        let u2 = &c.uk[j] * &c.uk[j];
        t.push((json_g1(&l[j]), u2.clone()));
        t.push((json_g1(&r[j]), u2.inverse()));
    }
    (rt, msm(t))
}

/// The real verifier, as a black box that also shows its transcript.
pub struct Bb<'a> {
    pub prog: &'a Prog,
    pub gn: &'a Gens,
    pub label: &'static [u8],
    pub comms: &'a [G1],
    pub shape: Shape,
}
impl<'a> Bb<'a> {
    pub fn run(&self, p: &Value) -> (Result<(), R1CSError>, Vec<FE>) {
        merlin::vp::start();
        let (v, _) = verify_prog(self.prog, self.gn, self.label, &jp(p), self.comms, false);
        let ev = merlin::vp::take();
        (v, challenges(&ev))
    }
}

/// How a dishonest reference prover deviates.
#[derive(Clone, Debug, PartialEq)]
pub enum Adv {
    Honest,
    /// hide wire changes chosen after y, z in T_1, assuming the verifier joins its two equations
    /// with this coefficient
    Join(RKind),
    /// an extra g-component in one of the six vector commitments pays for a wrong t_x, if the
    /// factor of the inner product is predictable
    Comp(&'static str, bool),
    /// wires of the first phase changed after its commitment, through the commitments of the
    /// second phase, assuming that they enter with this factor: (gate, new left, new right)
    Late(FE, Vec<(usize, LateVal, LateVal)>),
    /// the weight of a second-phase gate scaled through an H-component of a first-phase
    /// commitment, if the factor of the second phase is a power of x: (commitment, gate, b)
    Scale(&'static str, usize, FE),
}
#[derive(Clone, Debug, PartialEq)]
pub enum LateVal {
    Keep,
    /// k-th challenge of the randomized constraints
    Chal(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum RKind {
    Const(FE),
    Y,
    Z,
    X,
    U,
}

/// Empty proof with the given number of rounds
pub fn blank(k: usize) -> Value {
    let id = g1_json(&G1::identity());
    let z = fe_json(&FE::zero());
    let mut p = json!({});
    for n in POINTS.iter() {
        p[*n] = id.clone();
    }
    for n in SCALARS.iter() {
        p[*n] = z.clone();
    }
    let v: Vec<Value> = (0..k).map(|_| id.clone()).collect();
    p["ipp_proof"] = json!({"L": {"elems": v.clone()}, "R": {"elems": v}, "a": z.clone(), "b": z});
    p
}

/// Produce a proof with the reference prover, interacting with the real verifier for challenges.
/// `force`: changes of gate outputs. None when the verifier's challenge sequence has another shape.
pub fn ref_prove(
    bb: &Bb,
    blinds: &[FE],
    force: &[(usize, FE)],
    adv: &Adv,
    rng: &mut Rng,
) -> Option<(Value, Stmt, Chals)> {
    let (m0, _) = model(bb.prog, &[]);
    let nuser = m0.used.len();
    let (n1, n) = (m0.n1, m0.gates);
    let np = pow2(n);
    let k = np.trailing_zeros() as usize;
    let gn = bb.gn;
    let apply = |m: &mut Mock| {
        for (i, d) in force {
            m.ao[*i] = &m.ao[*i] + d;
        }
    };
    let mut p = blank(k);
    let vec_com = |lo: usize, hi: usize, a: &[FE], b: Option<&[FE]>, r: &FE| {
        let mut t = vec![(gn.h.clone(), r.clone())];
        for i in lo..hi {
            t.push((gn.G[i].clone(), a[i].clone()));
            if let Some(b) = b {
                t.push((gn.H[i].clone(), b[i].clone()));
            }
        }
        msm(t)
    };
    let mut m0 = m0;
    apply(&mut m0);
    let mut bl: Vec<FE> = (0..6).map(|_| rng.fe()).collect();
    let sl: Vec<FE> = (0..n).map(|_| rng.fe()).collect();
    let sr: Vec<FE> = (0..n).map(|_| rng.fe()).collect();
    p["A_I1"] = g1_json(&vec_com(0, n1, &m0.al, Some(&m0.ar), &bl[0]));
    p["A_O1"] = g1_json(&vec_com(0, n1, &m0.ao, None, &bl[1]));
    p["S1"] = g1_json(&vec_com(0, n1, &sl, Some(&sr), &bl[2]));
    if let Adv::Scale(name, i, b) = adv {
        p[*name] = g1_json(&(pt(&p, name) + &(&gn.H[*i] * b)));
    }
    if let Adv::Comp(name, neg) = adv {
        // the error of the identity is that of gate 0, whose weight is one
        let e = force.iter().find(|f| f.0 == 0)?.1.clone();
        let d = if *neg { e.negation() } else { e };
        if name.ends_with("1") {
            p[*name] = g1_json(&(pt(&p, name) + &(&gn.g * &d)));
        }
    }
    let ch = bb.run(&p).1;
    if ch.len() != nuser + bb.shape.drawn() + k {
        return None;
    }
    let (mut m, _) = model(bb.prog, &ch[..nuser]);
    if m.gates != n {
        return None;
    }
    apply(&mut m);
    let mut late: Vec<(&str, G1)> = vec![];
    if let Adv::Late(uf, ch2) = adv {
        let ui = uf.inverse();
        for (i, l, rv) in ch2 {
            let val = |v: &LateVal, old: &FE| match v {
                LateVal::Keep => old.clone(),
                LateVal::Chal(k) => ch[*k].clone(),
            };
            let (nl, nr) = (val(l, &m.al[*i]), val(rv, &m.ar[*i]));
            let no = &nl * &nr;
            late.push(("A_I2", msm(vec![(gn.G[*i].clone(), &(&nl - &m.al[*i]) * &ui), (gn.H[*i].clone(), &(&nr - &m.ar[*i]) * &ui)])));
            late.push(("A_O2", &gn.G[*i] * &(&(&no - &m.ao[*i]) * &ui)));
            m.al[*i] = nl;
            m.ar[*i] = nr;
            m.ao[*i] = no;
        }
    }
    if n > n1 {
        p["A_I2"] = g1_json(&vec_com(n1, n, &m.al, Some(&m.ar), &bl[3]));
        p["A_O2"] = g1_json(&vec_com(n1, n, &m.ao, None, &bl[4]));
        p["S2"] = g1_json(&vec_com(n1, n, &sl, Some(&sr), &bl[5]));
    } else {
        for i in 3..6 {
            bl[i] = FE::zero();
        }
    }
    if let Adv::Comp(name, neg) = adv {
        let e = force.iter().find(|f| f.0 == 0)?.1.clone();
        let d = if *neg { e.negation() } else { e };
        if name.ends_with("2") {
            p[*name] = g1_json(&(pt(&p, name) + &(&gn.g * &d)));
        }
    }
    for (k, d) in late {
        p[k] = g1_json(&(pt(&p, k) + &d));
    }
    let s = Stmt::of(&m);
    let c = split(&bb.run(&p).1, nuser, k, bb.shape)?;
    let (y, z) = (c.y, c.z);
    let w = weights(&s, &z);
    let yp = powers(&y, np);
    let yi = powers(&y.inverse(), np);
    // l and r polynomials: l[deg][i]
    let zero = || vec![FE::zero(); np];
    let mut l = vec![zero(), zero(), zero(), zero()];
    let mut r = vec![zero(), zero(), zero(), zero()];
    for i in 0..np {
        if i < n {
            l[1][i] = &m.al[i] + &(&yi[i] * &w.r[i]);
            l[2][i] = m.ao[i].clone();
            l[3][i] = sl[i].clone();
            r[0][i] = &w.o[i] - &yp[i];
            r[1][i] = &(&yp[i] * &m.ar[i]) + &w.l[i];
            r[3][i] = &yp[i] * &sr[i];
        } else {
            r[0][i] = yp[i].negation();
        }
    }
    if let Adv::Scale(_, i, b) = adv {
        r[0][*i] = &r[0][*i] + &(&yp[*i] * b);
    }
    let tcoef = |l: &Vec<Vec<FE>>, r: &Vec<Vec<FE>>| {
        let mut t = vec![FE::zero(); 7];
        for i in 0..4 {
            for j in 0..4 {
                for q in 0..np {
                    t[i + j] = &t[i + j] + &(&l[i][q] * &r[j][q]);
                }
            }
        }
        t
    };
    let mut want = w.c.clone();
    for i in 0..n {
        want = want + &(&yi[i] * &w.r[i]) * &w.l[i];
    }
    for i in 0..s.m {
        want = want + &w.v[i] * &m.v[i];
    }
    // deviation: fix the x^2 coefficient now
    let mut extra: Vec<(G1, FE)> = vec![];
    if let Adv::Join(kind) = adv {
        let miss = &want - &tcoef(&l, &r)[2];
        match kind {
            RKind::Const(_) | RKind::Y | RKind::Z => {
                let rr = match kind {
                    RKind::Const(f) => f.clone(),
                    RKind::Y => y.clone(),
                    _ => z.clone(),
                };
                let j = (0..n1).find(|j| !r[1][*j].is_zero())?;
                if rr.is_zero() {
                    return None;
                }
                let d = &miss * &r[1][j].inverse();
                l[1][j] = &l[1][j] + &d;
                extra.push((gn.G[j].clone(), &d * &rr.inverse()));
            }
            RKind::X => {
                let j = (0..n1).find(|j| !r[0][*j].is_zero())?;
                let d = &miss * &r[0][j].inverse();
                l[2][j] = &l[2][j] + &d;
                extra.push((gn.G[j].clone(), d));
            }
            RKind::U => {
                if n > n1 {
                    let j = (n1..n).find(|j| !r[1][*j].is_zero())?;
                    let d = &miss * &r[1][j].inverse();
                    l[1][j] = &l[1][j] + &d;
                    extra.push((gn.G[j].clone(), d));
                } else if np > n {
                    // a padding position: l1 = d, r1 = y^j * 1
                    let j = n;
                    let d = &miss * &yi[j];
                    l[1][j] = d.clone();
                    r[1][j] = yp[j].clone();
                    extra.push((gn.G[j].clone(), d));
                    extra.push((gn.H[j].clone(), FE::one()));
                } else {
                    return None;
                }
            }
        }
    }
    let t = tcoef(&l, &r);
    let tb: Vec<FE> = (0..7).map(|_| rng.fe()).collect();
    for (d, name) in vec![(1, "T_1"), (3, "T_3"), (4, "T_4"), (5, "T_5"), (6, "T_6")] {
        let mut v = vec![
            (gn.g.clone(), t[d].clone()),
            (gn.h.clone(), tb[d].clone()),
        ];
        if d == 1 {
            v.extend(extra.clone());
        }
        p[name] = g1_json(&msm(v));
    }
    let c = split(&bb.run(&p).1, nuser, k, bb.shape)?;
    let (u, x) = (c.u, c.x);
    let xp = powers(&x, 7);
    let mut t2b = FE::zero();
    for i in 0..s.m {
        t2b = t2b + &w.v[i] * &blinds[i];
    }
    let mut tx = FE::zero();
    let mut txb = FE::zero();
    for d in 1..7 {
        tx = tx + &t[d] * &xp[d];
        txb = txb + &xp[d] * if d == 2 { &t2b } else { &tb[d] };
    }
    if let Adv::Comp(..) = adv {
        // claim the value the polynomial identity asks for
        tx = tx - &xp[2] * &(&t[2] - &want);
    }
    let ib = &bl[0] + &(&u * &bl[3]);
    let ob = &bl[1] + &(&u * &bl[4]);
    let sb = &bl[2] + &(&u * &bl[5]);
    let eb = &(&(&x * &ib) + &(&xp[2] * &ob)) + &(&xp[3] * &sb);
    p["t_x"] = fe_json(&tx);
    p["t_x_blinding"] = fe_json(&txb);
    p["e_blinding"] = fe_json(&eb);
    let c = split(&bb.run(&p).1, nuser, k, bb.shape)?;
    let q = &gn.g * &c.w;
    let ev = |v: &Vec<Vec<FE>>| -> Vec<FE> {
        (0..np)
            .map(|i| {
                let mut s = FE::zero();
                for d in 0..4 {
                    s = s + &v[d][i] * &xp[d];
                }
                s
            })
            .collect()
    };
    let (mut a, mut b) = (ev(&l), ev(&r));
    let mut gs: Vec<G1> = (0..np)
        .map(|i| if i < n1 { gn.G[i].clone() } else { &gn.G[i] * &u })
        .collect();
    let mut hs: Vec<G1> = (0..np)
        .map(|i| {
            let f = if i < n1 { yi[i].clone() } else { &yi[i] * &u };
            &gn.H[i] * &f
        })
        .collect();
    let dot = |a: &[FE], b: &[FE]| {
        let mut s = FE::zero();
        for i in 0..a.len() {
            s = s + &a[i] * &b[i];
        }
        s
    };
    for j in 0..k {
        let h = a.len() / 2;
        let (al, ah) = (a[..h].to_vec(), a[h..].to_vec());
        let (b_l, bh) = (b[..h].to_vec(), b[h..].to_vec());
        let mut tl = vec![(q.clone(), dot(&al, &bh))];
        let mut tr = vec![(q.clone(), dot(&ah, &b_l))];
        for i in 0..h {
            tl.push((gs[h + i].clone(), al[i].clone()));
            tl.push((hs[i].clone(), bh[i].clone()));
            tr.push((gs[i].clone(), ah[i].clone()));
            tr.push((hs[h + i].clone(), b_l[i].clone()));
        }
        lr_mut(&mut p, "L")[j] = g1_json(&msm(tl));
        lr_mut(&mut p, "R")[j] = g1_json(&msm(tr));
        let c = split(&bb.run(&p).1, nuser, k, bb.shape)?;
        let uj = c.uk[j].clone();
        let ui = uj.inverse();
        a = (0..h).map(|i| &(&al[i] * &uj) + &(&ah[i] * &ui)).collect();
        b = (0..h).map(|i| &(&b_l[i] * &ui) + &(&bh[i] * &uj)).collect();
        gs = (0..h)
            .map(|i| &(&gs[i] * &ui) + &(&gs[h + i] * &uj))
            .collect();
        hs = (0..h)
            .map(|i| &(&hs[i] * &uj) + &(&hs[h + i] * &ui))
            .collect();
    }
    p["ipp_proof"]["a"] = fe_json(&a[0]);
    p["ipp_proof"]["b"] = fe_json(&b[0]);
    let c = split(&bb.run(&p).1, nuser, k, bb.shape)?;
    Some((p, s, c))
}
