//! Adversarial witness search: given the constraints the *verifier* recorded for a statement, look
//! for any assignment of gates (and free commitments) that satisfies them although the statement
//! is false, and if one is found, let the real prover turn it into a proof for the real verifier.
use crate::gadgets::*;
use crate::runner::*;
use crate::util::*;
use merlin::Transcript;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Lin {
    pub t: BTreeMap<usize, FE>,
    pub c: FE,
}
fn lin_const(c: FE) -> Lin {
    Lin { t: BTreeMap::new(), c }
}
impl Lin {
    fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    fn add(&mut self, o: &Lin, k: &FE) {
        for (v, c) in &o.t {
            let n = match self.t.get(v) {
                Some(x) => x + &(c * k),
                None => c * k,
            };
            if n.is_zero() {
                self.t.remove(v);
            } else {
                self.t.insert(*v, n);
            }
        }
        self.c = &self.c + &(&o.c * k);
    }
}
/// Recorded system. Variables: committed 0..m, then l, r, o of gate i at m+3i.., then one optional
/// unknown public constant at the end.
#[derive(Clone)]
pub struct Sys {
    pub m: usize,
    pub gates: usize,
    pub lcs: Vec<Vec<(Variable, FE)>>,
    /// coefficient of the unknown public constant in each constraint
    pub pubc: Vec<FE>,
    /// position in the V list of every commitment handed in
    pub pos: Vec<usize>,
    /// V positions that were not handed in, with their value
    pub statics: Vec<(usize, FE)>,
}
impl Sys {
    fn nv(&self) -> usize {
        self.m + 3 * self.gates + 1
    }
    fn idx(&self, v: &Variable) -> Option<usize> {
        match v {
            Variable::Committed(i) => Some(*i),
            Variable::MultiplierLeft(i) => Some(self.m + 3 * i),
            Variable::MultiplierRight(i) => Some(self.m + 3 * i + 1),
            Variable::MultiplierOutput(i) => Some(self.m + 3 * i + 2),
            Variable::One() => None,
        }
    }
}
/// Let the real verifier build the statement's constraints and read them off.
#[cfg(vp_hooks)]
pub fn record(gd: &Gd) -> Option<Sys> {
    let gn = gens(1);
    let n = gd.comms_len();
    let dummy: Vec<G1> = (0..n).map(|i| &gn.g * &fe(1000 + i as u64)).collect();
    let mut tr = Transcript::new(b"record");
    let mut v = Verifier::new(&mut tr);
    gd.verify_into(&dummy, &gn, &mut v).ok()?;
    let vs = v.vp_commitments();
    let pos: Vec<usize> = dummy.iter().map(|d| vs.iter().position(|x| x == d)).collect::<Option<Vec<_>>>()?;
    let mut statics = vec![];
    for (i, c) in vs.iter().enumerate() {
        if !pos.contains(&i) {
            let k = (0..=256u64).find(|k| &gn.g * &fe(*k) == *c)?;
            statics.push((i, fe(k)));
        }
    }
    let lcs: Vec<Vec<(Variable, FE)>> = v.vp_constraints().into_iter().map(|l| l.terms).collect();
    Some(Sys { m: vs.len(), gates: v.vp_num_multipliers(), pubc: vec![FE::zero(); lcs.len()], lcs, pos, statics })
}
#[cfg(not(vp_hooks))]
pub fn record(_gd: &Gd) -> Option<Sys> {
    None
}
/// Same statement for two values (0 and 1) of its public constant: the difference shows where the
/// constant enters; it becomes an unknown.
pub fn record_pub(zero: &Gd, one: &Gd) -> Option<Sys> {
    let (a, b) = (record(zero)?, record(one)?);
    if a.lcs.len() != b.lcs.len() || a.gates != b.gates || a.m != b.m {
        return None;
    }
    let mut s = a.clone();
    let mut any = false;
    let k = |l: &Vec<(Variable, FE)>| {
        let mut c = FE::zero();
        for (v, x) in l {
            if *v == Variable::One() {
                c = &c + x;
            }
        }
        c
    };
    for i in 0..a.lcs.len() {
        let d = &k(&b.lcs[i]) - &k(&a.lcs[i]);
        any |= !d.is_zero();
        s.pubc[i] = d;
    }
    if any {
        Some(s)
    } else {
        None
    }
}

#[derive(Clone)]
struct State {
    sub: Vec<Option<Lin>>, // pivot variables expressed by free ones
    open: Vec<usize>,      // unresolved gates
}
pub struct Search<'a> {
    sys: &'a Sys,
    rng: Rng,
    pub nodes: usize,
    budget: usize,
    pub guessed: bool,
    /// reject a solution: e.g. the public constant took its true value
    bad_pub: Option<FE>,
}
impl State {
    fn lin(&self, v: usize) -> Lin {
        match &self.sub[v] {
            Some(l) => l.clone(),
            None => {
                let mut l = lin_const(FE::zero());
                l.t.insert(v, FE::one());
                l
            }
        }
    }
    fn reduce(&self, l: &Lin) -> Lin {
        let mut o = lin_const(l.c.clone());
        for (v, c) in &l.t {
            match &self.sub[*v] {
                Some(s) => o.add(s, c),
                None => {
                    let mut x = lin_const(FE::zero());
                    x.t.insert(*v, FE::one());
                    o.add(&x, c);
                }
            }
        }
        o
    }
    /// l = 0
    fn eq(&mut self, l: &Lin) -> bool {
        let l = self.reduce(l);
        if l.is_const() {
            return l.c.is_zero();
        }
        // pivot: latest variable
        let p = *l.t.keys().next_back().unwrap();
        let k = l.t[&p].inverse().negation();
        let mut e = lin_const(FE::zero());
        e.add(&l, &k);
        e.t.remove(&p);
        for s in self.sub.iter_mut() {
            if let Some(x) = s {
                if let Some(c) = x.t.remove(&p) {
                    x.add(&e, &c);
                }
            }
        }
        self.sub[p] = Some(e);
        true
    }
}
impl<'a> Search<'a> {
    fn propagate(&mut self, st: &mut State) -> bool {
        loop {
            let mut again = vec![];
            let mut progress = false;
            for g in st.open.clone() {
                let b = self.sys.m + 3 * g;
                let (l, r, o) = (st.lin(b), st.lin(b + 1), st.lin(b + 2));
                let (k, other) = if l.is_const() {
                    (l.c.clone(), r.clone())
                } else if r.is_const() {
                    (r.c.clone(), l.clone())
                } else {
                    again.push(g);
                    continue;
                };
                let mut e = o;
                e.add(&other, &k.negation());
                if !st.eq(&e) {
                    return false;
                }
                progress = true;
            }
            st.open = again;
            if !progress {
                return true;
            }
        }
    }
    fn dfs(&mut self, mut st: State) -> Option<Vec<FE>> {
        self.nodes += 1;
        if self.nodes > self.budget {
            return None;
        }
        if !self.propagate(&mut st) {
            return None;
        }
        if st.open.is_empty() {
            return self.complete(&st);
        }
        // output zero: one of the inputs is zero
        for g in st.open.clone() {
            let b = self.sys.m + 3 * g;
            let (l, r, o) = (st.lin(b), st.lin(b + 1), st.lin(b + 2));
            if o.is_const() && o.c.is_zero() {
                let first = self.rng.below(2);
                for k in 0..2 {
                    let mut s2 = st.clone();
                    if s2.eq(if (k + first) % 2 == 0 { &l } else { &r }) {
                        if let Some(x) = self.dfs(s2) {
                            return Some(x);
                        }
                    }
                }
                return None;
            }
        }
        // one variable: quadratic
        for g in st.open.clone() {
            let b = self.sys.m + 3 * g;
            let (l, r, o) = (st.lin(b), st.lin(b + 1), st.lin(b + 2));
            let mut vs: Vec<usize> = l.t.keys().chain(r.t.keys()).chain(o.t.keys()).cloned().collect();
            vs.sort();
            vs.dedup();
            if vs.len() == 1 {
                let t = vs[0];
                let z = FE::zero();
                let co = |x: &Lin| x.t.get(&t).cloned().unwrap_or(z.clone());
                let a = &co(&l) * &co(&r);
                let bb = &(&(&co(&l) * &r.c) + &(&l.c * &co(&r))) - &co(&o);
                let c = &(&l.c * &r.c) - &o.c;
                for root in quad(&a, &bb, &c) {
                    let mut s2 = st.clone();
                    let mut e = lin_const(root.negation());
                    e.t.insert(t, FE::one());
                    if s2.eq(&e) {
                        if let Some(x) = self.dfs(s2) {
                            return Some(x);
                        }
                    }
                }
                return None;
            }
        }
        // guess
        self.guessed = true;
        let g = st.open[0];
        let b = self.sys.m + 3 * g;
        let (l, r) = (st.lin(b), st.lin(b + 1));
        let side = if l.t.len() <= r.t.len() { l } else { r };
        let tries = vec![self.rng.fe(), FE::one(), FE::zero()];
        for val in tries {
            let mut s2 = st.clone();
            let mut e = side.clone();
            e.c = &e.c - &val;
            if s2.eq(&e) {
                if let Some(x) = self.dfs(s2) {
                    return Some(x);
                }
            }
        }
        None
    }
    fn complete(&mut self, st: &State) -> Option<Vec<FE>> {
        for _ in 0..2 {
            let n = self.sys.nv();
            let mut v = vec![FE::zero(); n];
            for i in 0..n {
                if st.sub[i].is_none() {
                    v[i] = self.rng.fe();
                }
            }
            for i in 0..n {
                if let Some(l) = &st.sub[i] {
                    let mut s = l.c.clone();
                    for (w, c) in &l.t {
                        s = &s + &(c * &v[*w]);
                    }
                    v[i] = s;
                }
            }
            if let Some(b) = &self.bad_pub {
                if v[n - 1] == *b {
                    continue;
                }
            }
            return Some(v);
        }
        None
    }
}
fn quad(a: &FE, b: &FE, c: &FE) -> Vec<FE> {
    if a.is_zero() {
        if b.is_zero() {
            return if c.is_zero() { vec![fe(7)] } else { vec![] };
        }
        return vec![&c.negation() * &b.inverse()];
    }
    let disc = &(b * b) - &(&fe(4) * &(a * c));
    match fe_sqrt(&disc) {
        None => vec![],
        Some(s) => {
            let i = (&fe(2) * a).inverse();
            let mut v = vec![&(&s - b) * &i];
            if !s.is_zero() {
                v.push(&(&s.negation() - b) * &i);
            }
            v
        }
    }
}

pub enum Found {
    /// full assignment, constants and all
    Sol(Vec<FE>),
    /// no assignment exists
    None,
    /// gave up, or only guesses were tried
    Unknown,
}
/// `fix`: values by handed-in commitment position. `true_pub`: the value the public constant must
/// not take (None: the system has no unknown constant).
pub fn search(sys: &Sys, fix: &[(usize, FE)], true_pub: Option<FE>, seed: u64, budget: usize) -> Found {
    let n = sys.nv();
    let mut st = State { sub: vec![None; n], open: (0..sys.gates).collect() };
    let set = |st: &mut State, v: usize, x: &FE| {
        let mut e = lin_const(x.negation());
        e.t.insert(v, FE::one());
        st.eq(&e)
    };
    for (p, x) in &sys.statics {
        if !set(&mut st, *p, x) {
            return Found::None;
        }
    }
    for (p, x) in fix {
        if !set(&mut st, sys.pos[*p], x) {
            return Found::None;
        }
    }
    if true_pub.is_none() && !set(&mut st, n - 1, &FE::zero()) {
        return Found::None;
    }
    for (i, lc) in sys.lcs.iter().enumerate() {
        let mut l = lin_const(FE::zero());
        for (v, c) in lc {
            match sys.idx(v) {
                None => l.c = &l.c + c,
                Some(x) => {
                    let mut y = lin_const(FE::zero());
                    y.t.insert(x, FE::one());
                    l.add(&y, c);
                }
            }
        }
        if !sys.pubc[i].is_zero() {
            let mut y = lin_const(FE::zero());
            y.t.insert(n - 1, FE::one());
            l.add(&y, &sys.pubc[i]);
        }
        if !st.eq(&l) {
            return Found::None;
        }
    }
    let mut s = Search { sys, rng: Rng::new(seed), nodes: 0, budget, guessed: false, bad_pub: true_pub };
    match s.dfs(st) {
        Some(v) => Found::Sol(v),
        None if s.guessed || s.nodes > budget => Found::Unknown,
        None => Found::None,
    }
}

/// Turn an assignment into a proof with the real prover's low-level API.
pub fn raw_prove(sys: &Sys, v: &[FE], label: &'static [u8], gn: &Gens, rng: &mut Rng) -> Option<(R1CSProof, Vec<G1>)> {
    let mut tr = Transcript::new(label);
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut all = vec![];
    for i in 0..sys.m {
        let b = if sys.statics.iter().any(|s| s.0 == i) { FE::zero() } else { rng.fe() };
        all.push(p.commit(v[i].clone(), b).0);
    }
    for i in 0..sys.gates {
        let b = sys.m + 3 * i;
        p.allocate_multiplier(Some((v[b].clone(), v[b + 1].clone()))).ok()?;
    }
    let pubv = &v[sys.nv() - 1];
    for (i, lc) in sys.lcs.iter().enumerate() {
        let mut t = lc.clone();
        if !sys.pubc[i].is_zero() {
            t.push((Variable::One(), &sys.pubc[i] * pubv));
        }
        p.constrain(t.iter().collect());
    }
    let proof = p.prove(&gn.G, &gn.H).ok()?;
    Some((proof, sys.pos.iter().map(|i| all[*i].clone()).collect()))
}

/// The same for a system with a second phase: gates from `n1` and constraints from `q1` on belong to
/// randomized callbacks, which draw `draws` challenges labelled `dl`.
pub fn raw_prove2(sys: &Sys, v: &[FE], n1: usize, q1: usize, draws: usize, dl: &'static [u8], label: &'static [u8], gn: &Gens, rng: &mut Rng) -> Option<(R1CSProof, Vec<G1>)> {
    let mut tr = Transcript::new(label);
    let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
    let mut all = vec![];
    for i in 0..sys.m {
        let b = if sys.statics.iter().any(|s| s.0 == i) { FE::zero() } else { rng.fe() };
        all.push(p.commit(v[i].clone(), b).0);
    }
    let gate = |i: usize| (v[sys.m + 3 * i].clone(), v[sys.m + 3 * i + 1].clone());
    for i in 0..n1 {
        p.allocate_multiplier(Some(gate(i))).ok()?;
    }
    for lc in &sys.lcs[..q1] {
        p.constrain(lc.iter().collect());
    }
    let late: Vec<(FE, FE)> = (n1..sys.gates).map(gate).collect();
    let lcs: Vec<Vec<(Variable, FE)>> = sys.lcs[q1..].to_vec();
    p.specify_randomized_constraints(move |c| {
        for _ in 0..draws {
            c.challenge_scalar(dl);
        }
        for g in &late {
            c.allocate_multiplier(Some(g.clone()))?;
        }
        for l in &lcs {
            c.constrain(l.iter().collect());
        }
        Ok(())
    })
    .ok()?;
    let proof = p.prove(&gn.G, &gn.H).ok()?;
    Some((proof, sys.pos.iter().map(|i| all[*i].clone()).collect()))
}

/// Full attack on a false statement. `with_pub`: builds the statement for a given public constant
/// and the value that would make it true.
pub fn attack(
    ctx: &mut Ctx,
    gd: &Gd,
    fix: &[(usize, FE)],
    with_pub: Option<(&dyn Fn(&FE) -> Gd, FE)>,
    budget: usize,
    sig: &str,
) {
    let sys = match &with_pub {
        None => record(gd),
        Some((f, _)) => record_pub(&f(&FE::zero()), &f(&FE::one())),
    };
    let sys = match sys {
        Some(s) => s,
        None => {
            ctx.count("attack_not_recordable", 1);
            return;
        }
    };
    let seed = ctx.rng.next();
    let r = search(&sys, fix, with_pub.as_ref().map(|w| w.1.clone()), seed, budget);
    let sol = match r {
        Found::None => {
            ctx.count("attack_refuted", 1);
            ctx.check(true, sig, &|| String::new());
            return;
        }
        Found::Unknown => {
            ctx.count("attack_undecided", 1);
            ctx.check(true, sig, &|| String::new());
            return;
        }
        Found::Sol(v) => v,
    };
    let gd = match &with_pub {
        Some((f, _)) => f(&sol[sys.nv() - 1]),
        None => gd.clone(),
    };
    let gn = gens(pow2(sys.gates));
    let mut rng = ctx.rng.fork();
    let ok = match raw_prove(&sys, &sol, b"attack", &gn, &mut rng) {
        Some((p, c)) => gd.verify(&p, &c, b"attack", &gn).is_ok(),
        None => false,
    };
    ctx.count("attack_solutions", 1);
    if !ok {
        ctx.count("attack_solution_rejected", 1);
    }
    let d = gd.desc();
    ctx.check(!ok, sig, &|| {
        format!("a prover got the verifier to accept a false statement: {}; witness values {:?}", d,
            sol.iter().take(12).map(shex).collect::<Vec<_>>())
    });
}
