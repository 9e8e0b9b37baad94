//! Random constraint-system programs: a generator that knows the truth (its own value table), an
//! interpreter that drives any `ConstraintSystem`, and drivers for the real prover and verifier.
use crate::util::*;
use merlin::Transcript;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Coef {
    K(FE),
    /// k * challenge[i]^p
    Ch(usize, u64, FE),
}
#[derive(Clone, Debug)]
pub struct Lc {
    /// None = the constant one
    pub t: Vec<(Option<usize>, Coef)>,
    pub style: u8,
}
#[derive(Clone, Debug)]
pub enum Op {
    Commit(FE, FE),
    Mul(Lc, Lc),
    AllocMul(Lc, Lc),
    Alloc(Lc),
    AllocSingle(Lc),
    Constrain(Lc),
    Challenge(&'static [u8]),
    Rand(Arc<Vec<Op>>),
    /// callback-only: return this error
    Fail(R1CSError),
    /// prover only: an allocation without an assignment, which must be refused and change nothing
    Missing(u8),
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub ops: Vec<Op>,
    pub desc: String,
}

/// Model state; the interpreter's view of one side.
#[derive(Clone, Debug, Default)]
pub struct St {
    pub prover: bool,
    pub vars: Vec<Variable>,
    pub vals: Vec<FE>, // prover only
    pub chals: Vec<FE>,
    pub gates: usize,
    pub gate_vals: Vec<(FE, FE, FE)>, // prover only
    pub pending: Option<usize>,
    pub phase2: bool,
    pub n1: usize,
    pub commits: usize,
    /// evaluation of each executed constraint by the model (prover only)
    pub evals: Vec<FE>,
    pub n_constraints: usize,
    pub cb_log: Vec<usize>,
    /// disagreements between the library and the model
    pub bad: Vec<String>,
    /// the API is used without assignments on purpose
    pub check_api: bool,
    /// number of LCs evaluated through evaluate_lc
    pub lc_evals: u64,
    /// refused allocations
    pub refused: u64,
    /// the library's constraints and, on the prover side, its wire values
    pub snap: Option<Snap>,
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub lcs: Vec<Vec<(Variable, FE)>>,
    pub al: Vec<FE>,
    pub ar: Vec<FE>,
    pub ao: Vec<FE>,
    pub v: Vec<FE>,
    pub gates: usize,
}

pub fn lc_const(c: FE) -> Lc {
    Lc {
        t: vec![(None, Coef::K(c))],
        style: 0,
    }
}
pub fn lc_var(h: usize) -> Lc {
    Lc {
        t: vec![(Some(h), Coef::K(FE::one()))],
        style: 4,
    }
}

impl St {
    pub fn coef(&self, c: &Coef) -> FE {
        match c {
            Coef::K(k) => k.clone(),
            Coef::Ch(i, p, k) => k * &fe_pow(&self.chals[*i], *p),
        }
    }
    pub fn eval(&self, lc: &Lc) -> FE {
        let mut s = FE::zero();
        for (h, c) in &lc.t {
            let c = self.coef(c);
            s = match h {
                Some(h) => s + &c * &self.vals[*h],
                None => s + c,
            };
        }
        s
    }
    /// Build the library's linear combination, through a variety of its operators.
    pub fn build(&self, lc: &Lc) -> LinearCombination {
        let terms: Vec<(Variable, FE)> = lc
            .t
            .iter()
            .map(|(h, c)| {
                (
                    h.map(|h| self.vars[h]).unwrap_or(Variable::One()),
                    self.coef(c),
                )
            })
            .collect();
        build_lc(&terms, lc.style)
    }
}

/// Same linear combination, many ways to write it.
pub fn build_lc(terms: &[(Variable, FE)], style: u8) -> LinearCombination {
    match style % 14 {
        0 => terms.iter().collect(),
        1 => {
            let mut l = LinearCombination::default();
            for (v, c) in terms {
                l = l + c.clone() * *v;
            }
            l
        }
        2 => {
            let mut l = LinearCombination::default();
            for (v, c) in terms {
                l = l - c.negation() * *v;
            }
            l
        }
        3 => {
            let mut l = LinearCombination::default();
            for (v, c) in terms {
                l += c.clone() * *v;
            }
            l
        }
        4 => {
            // conversions where possible
            let mut l = LinearCombination::default();
            for (v, c) in terms {
                if *v == Variable::One() {
                    l = l + c.clone();
                } else if *c == FE::one() {
                    l = l + *v;
                } else if *c == FE::minus_one() {
                    l = l - *v;
                } else {
                    l = l + LinearCombination::from(vec![(*v, c.clone())].into_iter().collect::<LinearCombination>());
                }
            }
            l
        }
        5 => {
            // scaled by 3 and then by 1/3
            let k = fe(3);
            let l: LinearCombination = terms.to_vec().into_iter().collect();
            k.inverse() * (k * l)
        }
        6 => terms.iter().collect::<LinearCombination>().simplify(),
        7 => LinearCombination {
            terms: terms.iter().collect::<LinearCombination>().get_terms(),
        },
        8 => {
            // duplicated variables
            let mut t = vec![];
            for (v, c) in terms {
                t.push((*v, c - &FE::one()));
            }
            for (v, _) in terms {
                t.push((*v, FE::one()));
            }
            t.iter().collect()
        }
        9 => -(-(terms.iter().collect::<LinearCombination>())),
        10 => {
            // start from a variable or scalar
            if terms.is_empty() {
                return LinearCombination::default();
            }
            let (v0, c0) = (&terms[0].0, &terms[0].1);
            let rest: LinearCombination = terms[1..].iter().collect();
            if *v0 == Variable::One() && !rest.terms.is_empty() && rest.terms[0].1 == FE::one() {
                let rest2: LinearCombination = terms[2..].iter().collect();
                (c0.clone() + rest.terms[0].0) + rest2
            } else if *v0 == Variable::One()
                && !rest.terms.is_empty()
                && rest.terms[0].1 == FE::minus_one()
            {
                let rest2: LinearCombination = terms[2..].iter().collect();
                (c0.clone() - rest.terms[0].0) + rest2
            } else if *c0 == FE::one() {
                *v0 + rest
            } else if *c0 == FE::minus_one() {
                (-*v0) + rest
            } else {
                (c0.clone() * *v0) + rest
            }
        }
        11 => {
            // v - lc form
            if terms.is_empty() || terms[0].1 != FE::one() {
                return terms.iter().collect();
            }
            let rest: LinearCombination = terms[1..].iter().collect();
            terms[0].0 - (-rest)
        }
        12 => {
            let k = fe(7);
            let l: LinearCombination = terms.to_vec().into_iter().collect();
            &k.inverse() * (&k * l)
        }
        _ => {
            // duplicates merged
            let mut t: Vec<(Variable, FE)> = terms.to_vec();
            for (v, c) in terms {
                t.push((*v, c.clone()));
            }
            let half = fe(2).inverse();
            half * t.iter().collect::<LinearCombination>().simplify()
        }
    }
}

// -----------------------------------------------------------------------------------------------
// interpreter

fn def(st: &mut St, v: Variable, val: Option<FE>) {
    st.vars.push(v);
    if st.prover {
        st.vals.push(val.unwrap());
    }
}

fn api_check<CS: ConstraintSystem>(cs: &CS, st: &mut St, lc: &LinearCombination, want: Option<FE>) {
    if !st.check_api {
        return;
    }
    st.lc_evals += 1;
    let got = cs.evaluate_lc(lc);
    if got != want {
        st.bad.push(format!(
            "evaluate_lc gave {:?}, model says {:?}",
            got.map(|g| hex(&g)),
            want.map(|g| hex(&g))
        ));
    }
}

pub fn exec<CS: ConstraintSystem>(cs: &mut CS, op: &Op, st: &mut St) -> Result<(), R1CSError> {
    match op {
        Op::Mul(l, r) => {
            let (ll, rr) = (st.build(l), st.build(r));
            let vals = if st.prover {
                let (a, b) = (st.eval(l), st.eval(r));
                let o = &a * &b;
                Some((a, b, o))
            } else {
                None
            };
            api_check(cs, st, &ll, vals.as_ref().map(|v| v.0.clone()));
            let (a, b, o) = cs.multiply(ll, rr);
            for (i, v) in [a, b, o].iter().enumerate() {
                let val = vals
                    .as_ref()
                    .map(|t| [t.0.clone(), t.1.clone(), t.2.clone()][i].clone());
                api_check(cs, st, &(*v).into(), val.clone());
                def(st, *v, val);
            }
            st.gates += 1;
            st.n_constraints += 2;
            if let Some(v) = vals {
                st.gate_vals.push(v);
            }
        }
        Op::AllocMul(l, r) => {
            let vals = if st.prover {
                Some((st.eval(l), st.eval(r)))
            } else {
                None
            };
            let arg = if !st.prover && st.check_api && st.gates % 3 == 1 {
                Some((FE::one(), FE::zero()))
            } else {
                vals.clone()
            };
            let (a, b, o) = cs.allocate_multiplier(arg)?;
            let v3 = vals.map(|(x, y)| {
                let o = &x * &y;
                (x, y, o)
            });
            for (i, v) in [a, b, o].iter().enumerate() {
                let val = v3
                    .as_ref()
                    .map(|t| [t.0.clone(), t.1.clone(), t.2.clone()][i].clone());
                api_check(cs, st, &(*v).into(), val.clone());
                def(st, *v, val);
            }
            st.gates += 1;
            if let Some(v) = v3 {
                st.gate_vals.push(v);
            }
        }
        Op::Alloc(x) | Op::AllocSingle(x) => {
            let single = if let Op::AllocSingle(_) = op { true } else { false };
            let val = if st.prover { Some(st.eval(x)) } else { None };
            let arg = if !st.prover && st.check_api && st.gates % 3 == 1 {
                Some(FE::one())
            } else {
                val.clone()
            };
            let (v, out) = if single {
                cs.allocate_single(arg)?
            } else {
                (cs.allocate(arg)?, None)
            };
            match st.pending {
                None => {
                    st.pending = Some(st.gates);
                    st.gates += 1;
                    if single && out.is_some() {
                        st.bad.push("left allocate_single returned an output".into());
                    }
                    if let Some(x) = &val {
                        st.gate_vals.push((x.clone(), FE::zero(), FE::zero()));
                    }
                    api_check(cs, st, &v.into(), val.clone());
                    def(st, v, val);
                }
                Some(g) => {
                    st.pending = None;
                    let mut o = None;
                    if let Some(x) = &val {
                        let l = st.gate_vals[g].0.clone();
                        let oo = &l * x;
                        st.gate_vals[g] = (l, x.clone(), oo.clone());
                        o = Some(oo);
                    }
                    api_check(cs, st, &v.into(), val.clone());
                    def(st, v, val);
                    if single {
                        match out {
                            Some(ov) => {
                                api_check(cs, st, &ov.into(), o.clone());
                                def(st, ov, o);
                            }
                            None => {
                                st.bad
                                    .push("right allocate_single returned no output".into());
                                def(st, Variable::One(), o);
                            }
                        }
                    }
                }
            }
        }
        Op::Constrain(l) => {
            let lc = st.build(l);
            if st.prover {
                let e = st.eval(l);
                api_check(cs, st, &lc, Some(e.clone()));
                st.evals.push(e);
            } else {
                api_check(cs, st, &lc, None);
            }
            st.n_constraints += 1;
            cs.constrain(lc);
        }
        Op::Fail(e) => return Err(e.clone()),
        Op::Missing(k) => {
            if st.prover {
                let r = match k % 3 {
                    0 => cs.allocate(None).err(),
                    1 => cs.allocate_single(None).err(),
                    _ => cs.allocate_multiplier(None).err(),
                };
                st.refused += 1;
                if r != Some(R1CSError::MissingAssignment) {
                    st.bad.push(format!(
                        "allocation kind {} without an assignment gave {:?}",
                        k % 3,
                        r
                    ));
                }
            }
        }
        Op::Commit(..) | Op::Challenge(_) | Op::Rand(_) => unreachable!("handled by the driver"),
    }
    Ok(())
}

pub fn run_phase2<CS: RandomizedConstraintSystem>(
    cs: &mut CS,
    ops: &Arc<Vec<Op>>,
    id: usize,
    st: &Rc<RefCell<St>>,
) -> Result<(), R1CSError> {
    {
        let mut s = st.borrow_mut();
        if !s.phase2 {
            s.phase2 = true;
            s.pending = None;
            s.n1 = s.gates;
        }
        s.cb_log.push(id);
    }
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Challenge(label) => {
                let c = cs.challenge_scalar(label);
                st.borrow_mut().chals.push(c);
            }
            Op::Rand(inner) => {
                let (inner, st2) = (inner.clone(), st.clone());
                let id2 = id * 100 + i + 1;
                let before = st.borrow().cb_log.len();
                cs.specify_randomized_constraints(move |c| run_phase2(c, &inner, id2, &st2))?;
                if st.borrow().cb_log.len() == before {
                    st.borrow_mut()
                        .bad
                        .push("nested callback was not run immediately".into());
                }
            }
            op => {
                let mut s = st.borrow_mut();
                exec(cs, op, &mut s)?;
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
pub struct Proved {
    pub proof: R1CSProof,
    pub comms: Vec<G1>,
}
#[derive(Clone, Default)]
pub struct POpts {
    pub check_api: bool,
    /// (gate index, new (l, r, o) deltas) applied to the real prover's wires before proving
    pub force: Vec<(usize, FE)>,
    /// (gate index, deltas of the inputs); the output becomes their product
    pub inputs: Vec<(usize, FE, FE)>,
    /// record the library's constraints and wires in `St::snap`
    pub snap: bool,
}

pub fn prove_prog(
    prog: &Prog,
    gn: &Gens,
    label: &'static [u8],
    po: &POpts,
) -> (Result<Proved, R1CSError>, St) {
    prove_prog_on(prog, gn, &mut Transcript::new(label), po)
}
/// on a transcript that may have been used before
pub fn prove_prog_on(
    prog: &Prog,
    gn: &Gens,
    tr: &mut Transcript,
    po: &POpts,
) -> (Result<Proved, R1CSError>, St) {
    let st = Rc::new(RefCell::new(St {
        prover: true,
        check_api: po.check_api,
        ..St::default()
    }));
    let mut comms = vec![];
    let res = (|| {
        let mut p = Prover::new(&gn.g, &gn.h, tr);
        let mut cb = 0;
        for op in &prog.ops {
            match op {
                Op::Commit(v, r) => {
                    let (c, var) = p.commit(v.clone(), r.clone());
                    comms.push(c);
                    let mut s = st.borrow_mut();
                    s.commits += 1;
                    def(&mut s, var, Some(v.clone()));
                }
                Op::Rand(ops) => {
                    cb += 1;
                    let (ops, st2, id) = (ops.clone(), st.clone(), cb);
                    p.specify_randomized_constraints(move |c| run_phase2(c, &ops, id, &st2))?;
                    if st.borrow().cb_log.len() > 0 {
                        st.borrow_mut()
                            .bad
                            .push("callback ran before the commitments".into());
                    }
                }
                op => exec(&mut p, op, &mut st.borrow_mut())?,
            }
        }
        if po.check_api {
            let s = st.borrow();
            let bad = p.num_multipliers() != s.gates || p.num_constraints() != s.n_constraints;
            let m = format!(
                "counters: {} multipliers, {} constraints; model {} and {}",
                p.num_multipliers(),
                p.num_constraints(),
                s.gates,
                s.n_constraints
            );
            drop(s);
            if bad {
                st.borrow_mut().bad.push(m);
            }
        }
        #[cfg(vp_hooks)]
        {
            if !po.force.is_empty() || !po.inputs.is_empty() {
                let n1 = st.borrow().gates;
                fn apply(p: &mut Prover, lo: usize, hi: usize, po: &POpts) {
                    let (l, r, o, _) = p.vp_assignments();
                    for (i, d) in &po.force {
                        if *i >= lo && *i < hi && *i < l.len() {
                            p.vp_set_multiplier(*i, l[*i].clone(), r[*i].clone(), &o[*i] + d);
                        }
                    }
                    for (i, x, y) in &po.inputs {
                        if *i >= lo && *i < hi && *i < l.len() {
                            let (a, b) = (&l[*i] + x, &r[*i] + y);
                            let o = &a * &b;
                            p.vp_set_multiplier(*i, a, b, o);
                        }
                    }
                }
                apply(&mut p, 0, n1, po);
                if cb > 0 {
                    let po = po.clone();
                    p.specify_randomized_constraints(move |c| {
                        apply(c.vp_prover(), n1, usize::max_value(), &po);
                        Ok(())
                    })?;
                }
            }
        }
        #[cfg(vp_hooks)]
        {
            if po.snap {
                fn take(p: &Prover) -> Snap {
                    let (al, ar, ao, v) = p.vp_assignments();
                    Snap {
                        lcs: p.vp_constraints().into_iter().map(|l| l.terms).collect(),
                        gates: al.len(),
                        al,
                        ar,
                        ao,
                        v,
                    }
                }
                if cb > 0 {
                    let st2 = st.clone();
                    p.specify_randomized_constraints(move |c| {
                        st2.borrow_mut().snap = Some(take(c.vp_prover()));
                        Ok(())
                    })?;
                } else {
                    st.borrow_mut().snap = Some(take(&p));
                }
            }
        }
        p.prove(&gn.G, &gn.H)
    })();
    let s = finish(st);
    (res.map(|proof| Proved { proof, comms }), s)
}

pub fn finish(st: Rc<RefCell<St>>) -> St {
    let mut s = st.borrow().clone();
    if !s.phase2 {
        s.n1 = s.gates;
    }
    s
}

pub fn verify_prog(
    prog: &Prog,
    gn: &Gens,
    label: &'static [u8],
    proof: &R1CSProof,
    comms: &[G1],
    check_api: bool,
) -> (Result<(), R1CSError>, St) {
    verify_prog_on(prog, gn, &mut Transcript::new(label), proof, comms, check_api)
}
pub fn verify_prog_on(
    prog: &Prog,
    gn: &Gens,
    tr: &mut Transcript,
    proof: &R1CSProof,
    comms: &[G1],
    check_api: bool,
) -> (Result<(), R1CSError>, St) {
    let st = Rc::new(RefCell::new(St {
        prover: false,
        check_api,
        ..St::default()
    }));
    let res = (|| {
        let mut p = Verifier::new(tr);
        let mut cb = 0;
        let mut ci = 0;
        for op in &prog.ops {
            match op {
                Op::Commit(..) => {
                    if ci >= comms.len() {
                        // a missing commitment: the verifier simply has fewer variables
                        continue;
                    }
                    let var = p.commit(comms[ci].clone());
                    ci += 1;
                    let mut s = st.borrow_mut();
                    s.commits += 1;
                    def(&mut s, var, None);
                }
                Op::Rand(ops) => {
                    cb += 1;
                    let (ops, st2, id) = (ops.clone(), st.clone(), cb);
                    p.specify_randomized_constraints(move |c| run_phase2(c, &ops, id, &st2))?;
                    if st.borrow().cb_log.len() > 0 {
                        st.borrow_mut()
                            .bad
                            .push("callback ran before the commitments".into());
                    }
                }
                op => exec(&mut p, op, &mut st.borrow_mut())?,
            }
        }
        while ci < comms.len() {
            p.commit(comms[ci].clone());
            ci += 1;
        }
        #[cfg(vp_hooks)]
        {
            if check_api {
                fn take(p: &Verifier) -> Snap {
                    Snap {
                        lcs: p.vp_constraints().into_iter().map(|l| l.terms).collect(),
                        gates: p.vp_num_multipliers(),
                        ..Snap::default()
                    }
                }
                if cb > 0 {
                    let st2 = st.clone();
                    p.specify_randomized_constraints(move |c| {
                        st2.borrow_mut().snap = Some(take(c.vp_verifier()));
                        Ok(())
                    })?;
                } else {
                    st.borrow_mut().snap = Some(take(&p));
                }
            }
        }
        p.verify(proof, &gn.g, &gn.h, &gn.G, &gn.H)
    })();
    (res, finish(st))
}

// -----------------------------------------------------------------------------------------------
// generator

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub commits: usize,
    pub n1: usize,
    pub n2: usize,
    pub constraints: usize,
    pub callbacks: usize,
    pub max_terms: usize,
}

struct Gen<'a> {
    r: &'a mut Rng,
    st: St, // model of the prover (challenges replaced by random values)
    products: Vec<(usize, usize, usize)>,
    zero_lcs: Vec<Lc>,
    max_terms: usize,
}

const LABELS: [&[u8]; 5] = [b"ch", b"challenge", b"z", b"y", b"some challenge"];

impl<'a> Gen<'a> {
    fn style(&mut self) -> u8 {
        self.r.below(14) as u8
    }
    fn lc(&mut self) -> Lc {
        let n = match self.r.below(12) {
            0 => 0,
            1 => self.r.range(1, self.max_terms.max(1)),
            _ => self.r.range(1, 4),
        };
        let mut t = vec![];
        for _ in 0..n {
            let h = if self.st.vars.is_empty() || self.r.chance(1, 5) {
                None
            } else if self.r.chance(1, 2) && self.st.vars.len() > 6 {
                Some(self.st.vars.len() - 1 - self.r.below(6))
            } else {
                Some(self.r.below(self.st.vars.len()))
            };
            t.push((h, Coef::K(self.r.fe_mixed())));
        }
        Lc {
            t,
            style: self.style(),
        }
    }
    /// an LC that evaluates to zero on the witness
    fn zero_lc(&mut self) -> Lc {
        let mut l = self.lc();
        match self.r.below(3) {
            0 if !l.t.is_empty() => {
                // fix up with a coefficient of a variable
                let h = self.r.below(self.st.vars.len().max(1));
                if h < self.st.vars.len() && !self.st.vals[h].is_zero() {
                    let e = self.st.eval(&l);
                    let c = (&e * &self.st.vals[h].inverse()).negation();
                    l.t.push((Some(h), Coef::K(c)));
                    return l;
                }
            }
            _ => {}
        }
        let e = self.st.eval(&l);
        let at = self.r.below(l.t.len() + 1);
        l.t.insert(at, (None, Coef::K(e.negation())));
        l
    }
    fn note(&mut self, op: &Op) {
        // advance the model
        match op {
            Op::Commit(v, _) => {
                self.st.vars.push(Variable::One());
                self.st.vals.push(v.clone());
                self.st.commits += 1;
            }
            Op::Mul(l, r) | Op::AllocMul(l, r) => {
                let (a, b) = (self.st.eval(l), self.st.eval(r));
                let o = &a * &b;
                let h = self.st.vars.len();
                self.products.push((h, h + 1, h + 2));
                for v in vec![a, b, o] {
                    self.st.vars.push(Variable::One());
                    self.st.vals.push(v);
                }
                self.st.gates += 1;
            }
            Op::Alloc(x) | Op::AllocSingle(x) => {
                let single = if let Op::AllocSingle(_) = op { true } else { false };
                let v = self.st.eval(x);
                match self.st.pending {
                    None => {
                        self.st.pending = Some(self.st.vars.len());
                        self.st.gates += 1;
                        self.st.vars.push(Variable::One());
                        self.st.vals.push(v);
                    }
                    Some(lh) => {
                        self.st.pending = None;
                        let o = &self.st.vals[lh] * &v;
                        self.st.vars.push(Variable::One());
                        self.st.vals.push(v);
                        if single {
                            self.products
                                .push((lh, self.st.vars.len() - 1, self.st.vars.len()));
                            self.st.vars.push(Variable::One());
                            self.st.vals.push(o);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn gate_op(&mut self, room: usize) -> Op {
        // allocate singles need care: they open a gate only when nothing is pending
        match self.r.below(8) {
            0 | 1 | 2 => Op::Mul(self.lc(), self.lc()),
            3 | 4 => {
                let (a, b) = (lc_const(self.r.fe_mixed()), lc_const(self.r.fe_mixed()));
                if self.r.chance(1, 3) {
                    Op::AllocMul(self.lc(), self.lc())
                } else {
                    Op::AllocMul(a, b)
                }
            }
            _ => {
                let _ = room;
                let x = if self.r.chance(1, 2) {
                    self.lc()
                } else {
                    lc_const(self.r.fe_mixed())
                };
                if self.r.chance(1, 2) {
                    Op::Alloc(x)
                } else {
                    Op::AllocSingle(x)
                }
            }
        }
    }
}

pub fn gen_prog(r: &mut Rng, c: &GenCfg) -> Prog {
    let mut ops: Vec<Op> = vec![];
    let mut g = Gen {
        r,
        st: St {
            prover: true,
            ..St::default()
        },
        products: vec![],
        zero_lcs: vec![],
        max_terms: c.max_terms,
    };
    let mut commits = c.commits;
    let mut constraints = c.constraints;
    let mut callbacks_pos = vec![];
    // phase 1
    loop {
        let mut todo = vec![];
        if commits > 0 {
            todo.push(0);
            todo.push(0);
        }
        if g.st.gates < c.n1 {
            todo.push(1);
            todo.push(1);
            todo.push(1);
        }
        if constraints > 0 {
            todo.push(2);
        }
        if todo.is_empty() {
            break;
        }
        let op = match *g.r.pick(&todo) {
            0 => {
                commits -= 1;
                let v = g.r.fe_mixed();
                let b = match g.r.below(8) {
                    0 => FE::zero(),
                    1 => FE::one(),
                    _ => g.r.fe(),
                };
                Op::Commit(v, b)
            }
            1 => g.gate_op(c.n1 - g.st.gates),
            _ => {
                constraints -= 1;
                let l = if !g.products.is_empty() && g.r.chance(1, 6) {
                    // restate a product through an output
                    let p = g.r.pick(&g.products.clone()).clone();
                    let e = g.st.vals[p.2].clone();
                    Lc {
                        t: vec![
                            (Some(p.2), Coef::K(FE::one())),
                            (None, Coef::K(e.negation())),
                        ],
                        style: g.style(),
                    }
                } else {
                    g.zero_lc()
                };
                g.zero_lcs.push(l.clone());
                Op::Constrain(l)
            }
        };
        g.note(&op);
        ops.push(op);
    }
    // sometimes fill the right half of a pending gate
    if g.st.pending.is_some() && g.r.chance(1, 2) {
        let op = Op::Alloc(lc_const(g.r.fe_mixed()));
        g.note(&op);
        ops.push(op);
    }
    let n1 = g.st.gates;
    // phase 2
    let ncb = c.callbacks;
    g.st.pending = None;
    let target = n1 + c.n2;
    for k in 0..ncb {
        let share = if k + 1 == ncb {
            target
        } else {
            n1 + (c.n2 * (k + 1)) / ncb
        };
        let cb = gen_callback(&mut g, share, 0);
        callbacks_pos.push(cb);
    }
    // callbacks may be registered anywhere in phase 1: keep their relative order
    let mut slots: Vec<usize> = (0..ncb).map(|_| g.r.below(ops.len() + 1)).collect();
    slots.sort();
    // but callbacks reference handles of phase 1 which exist by then (they run later)
    for (k, cb) in callbacks_pos.into_iter().enumerate().rev() {
        ops.insert(slots[k], Op::Rand(Arc::new(cb)));
    }
    Prog {
        ops,
        desc: format!(
            "m={} n1={} n2={} q={} cb={}",
            c.commits, c.n1, c.n2, c.constraints, c.callbacks
        ),
    }
}

fn gen_callback(g: &mut Gen, target: usize, depth: usize) -> Vec<Op> {
    let mut ops = vec![];
    let push = |g: &mut Gen, ops: &mut Vec<Op>, op: Op| {
        g.note(&op);
        ops.push(op);
    };
    let nch = g.r.range(if depth == 0 { 1 } else { 0 }, 2);
    for _ in 0..nch {
        let l = *g.r.pick(&LABELS);
        g.st.chals.push(g.r.fe()); // stand-in; only identities in the challenge are generated
        ops.push(Op::Challenge(l));
    }
    let mut extra = g.r.range(0, 3);
    let mut guard = 0;
    while (g.st.gates < target || extra > 0) && guard < 10_000 {
        guard += 1;
        let nchal = g.st.chals.len();
        if nchal == 0 {
            break;
        }
        let ch = nchal - 1 - g.r.below(nchal.min(3));
        let room = target.saturating_sub(g.st.gates);
        let kind = g.r.below(7);
        match kind {
            0 if g.zero_lcs.len() > 0 => {
                // random linear combination of satisfied constraints
                extra = extra.saturating_sub(1);
                let mut t = vec![];
                for p in 0..g.r.range(1, 4) {
                    let z = g.r.pick(&g.zero_lcs.clone()).clone();
                    for (h, c) in z.t {
                        if let Coef::K(k) = c {
                            t.push((h, Coef::Ch(ch, p as u64, k)));
                        }
                    }
                }
                let style = g.style();
                push(g, &mut ops, Op::Constrain(Lc { t, style }));
            }
            1 if g.st.vars.len() > 0 && (room > 0 || g.st.pending.is_some()) => {
                // alloc c*h + k, linked
                let h = g.r.below(g.st.vars.len());
                let k = g.r.fe_mixed();
                let src = Lc {
                    t: vec![(Some(h), Coef::Ch(ch, 1, FE::one())), (None, Coef::K(k.clone()))],
                    style: g.style(),
                };
                let nh = g.st.vars.len();
                let op = if g.r.chance(1, 2) {
                    Op::Alloc(src.clone())
                } else {
                    Op::AllocSingle(src.clone())
                };
                push(g, &mut ops, op);
                let mut t = src.t.clone();
                t.push((Some(nh), Coef::K(FE::minus_one())));
                let style = g.style();
                push(g, &mut ops, Op::Constrain(Lc { t, style }));
            }
            2 if g.products.len() > 0 && room > 0 => {
                // (c*l)*(r) = c*o
                let p = g.r.pick(&g.products.clone()).clone();
                let a = Lc {
                    t: vec![(Some(p.0), Coef::Ch(ch, 1, FE::one()))],
                    style: g.style(),
                };
                let nh = g.st.vars.len();
                let b = lc_var(p.1);
                if g.r.chance(1, 2) {
                    push(g, &mut ops, Op::Mul(a, b));
                } else {
                    push(g, &mut ops, Op::AllocMul(a.clone(), b.clone()));
                    for (lc, h) in vec![(a, nh), (b, nh + 1)] {
                        let mut t = lc.t.clone();
                        t.push((Some(h), Coef::K(FE::minus_one())));
                        let style = g.style();
                        push(g, &mut ops, Op::Constrain(Lc { t, style }));
                    }
                }
                let style = g.style();
                push(
                    g,
                    &mut ops,
                    Op::Constrain(Lc {
                        t: vec![
                            (Some(nh + 2), Coef::K(FE::one())),
                            (Some(p.2), Coef::Ch(ch, 1, FE::minus_one())),
                        ],
                        style,
                    }),
                );
            }
            3 if room >= 2 && g.st.vars.len() >= 2 => {
                // shuffle check over k handles and a permutation of them: prod (h_i - c) equal
                let k = (room / 2).min(g.r.range(1, 4)) + 1;
                if 2 * (k - 1) > room {
                    continue;
                }
                let hs: Vec<usize> = (0..k).map(|_| g.r.below(g.st.vars.len())).collect();
                let mut ps = hs.clone();
                g.r.shuffle(&mut ps);
                let mut outs = vec![];
                for v in vec![hs, ps] {
                    let minus = |h: usize| Lc {
                        t: vec![
                            (Some(h), Coef::K(FE::one())),
                            (None, Coef::Ch(ch, 1, FE::minus_one())),
                        ],
                        style: 0,
                    };
                    let mut acc = minus(v[0]);
                    for h in &v[1..] {
                        let nh = g.st.vars.len();
                        push(g, &mut ops, Op::Mul(acc, minus(*h)));
                        acc = lc_var(nh + 2);
                    }
                    outs.push(acc);
                }
                let mut t = outs[0].t.clone();
                for (h, c) in &outs[1].t {
                    let c = match c {
                        Coef::K(k) => Coef::K(k.negation()),
                        Coef::Ch(i, p, k) => Coef::Ch(*i, *p, k.negation()),
                    };
                    t.push((*h, c));
                }
                push(g, &mut ops, Op::Constrain(Lc { t, style: 0 }));
            }
            4 if depth < 2 && g.r.chance(1, 2) => {
                extra = extra.saturating_sub(1);
                let t = g.st.gates + room / 2;
                let inner = gen_callback(g, t, depth + 1);
                ops.push(Op::Rand(Arc::new(inner)));
            }
            5 if room > 0 => {
                // plain unconstrained multiplier
                let (a, b) = (lc_const(g.r.fe_mixed()), lc_const(g.r.fe_mixed()));
                push(g, &mut ops, Op::AllocMul(a, b));
            }
            _ => {
                extra = extra.saturating_sub(1);
            }
        }
    }
    ops
}

/// Typical size mix; boundaries of the power-of-two padding are visited on purpose.
pub fn random_cfg(r: &mut Rng, big: bool) -> GenCfg {
    let n1 = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=5 => r.range(3, 9),
        6 | 7 => *r.pick(&[7, 8, 9, 15, 16, 17]),
        _ => {
            if big {
                *r.pick(&[31, 32, 33, 40, 63, 64, 65])
            } else {
                r.range(2, 12)
            }
        }
    };
    let two = r.chance(1, 2);
    let n2 = if two {
        match r.below(5) {
            0 => 0,
            1 => 1,
            2 => pow2(n1.max(1)) - n1.min(pow2(n1.max(1))),
            _ => r.range(1, if big { 20 } else { 6 }),
        }
    } else {
        0
    };
    GenCfg {
        commits: match r.below(5) {
            0 => 0,
            1 => 1,
            _ => r.range(1, 8),
        },
        n1,
        n2,
        constraints: match r.below(6) {
            0 => 0,
            1 => 1,
            _ => r.range(1, 14),
        },
        callbacks: if two { r.range(1, 3) } else { 0 },
        max_terms: 12,
    }
}

// -----------------------------------------------------------------------------------------------
// structural edits

/// Paths to every constrain op (indices through nested callbacks).
pub fn constrain_paths(ops: &[Op]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Constrain(_) => out.push(vec![i]),
            Op::Rand(inner) => {
                for mut p in constrain_paths(inner) {
                    p.insert(0, i);
                    out.push(p);
                }
            }
            _ => {}
        }
    }
    out
}
pub fn edit_at(ops: &[Op], path: &[usize], f: &mut dyn FnMut(&mut Vec<Op>, usize)) -> Vec<Op> {
    let mut v = ops.to_vec();
    if path.len() == 1 {
        f(&mut v, path[0]);
    } else {
        if let Op::Rand(inner) = &ops[path[0]] {
            v[path[0]] = Op::Rand(Arc::new(edit_at(inner, &path[1..], f)));
        }
    }
    v
}
pub fn with_const(prog: &Prog, path: &[usize], d: &FE) -> Prog {
    Prog {
        ops: edit_at(&prog.ops, path, &mut |v, i| {
            if let Op::Constrain(l) = &v[i] {
                let mut l = l.clone();
                l.t.push((None, Coef::K(d.clone())));
                v[i] = Op::Constrain(l);
            }
        }),
        desc: prog.desc.clone(),
    }
}
pub fn needed(st: &St) -> usize {
    pow2(st.gates)
}
