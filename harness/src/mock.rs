//! A reference constraint system: same trait as the library's prover and verifier, written
//! independently, used to run programs and gadgets without the library's bookkeeping.
use crate::prog::*;
use crate::util::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

type Cb = Box<dyn Fn(&mut Mock) -> Result<(), R1CSError>>;
#[derive(Default)]
pub struct Mock {
    pub prover: bool,
    pub al: Vec<FE>,
    pub ar: Vec<FE>,
    pub ao: Vec<FE>,
    pub v: Vec<FE>,
    pub gates: usize,
    pub n1: usize,
    pub commits: usize,
    pub lcs: Vec<Vec<(Variable, FE)>>,
    pub pending: Option<usize>,
    pub phase2: bool,
    /// challenges to hand out; random ones (recorded) once exhausted
    pub chals: VecDeque<FE>,
    pub used: Vec<FE>,
    pub rng: Option<Rng>,
    cbs: Vec<Cb>,
}
impl Mock {
    pub fn new(prover: bool) -> Self {
        Mock {
            prover,
            ..Default::default()
        }
    }
    pub fn commit(&mut self, v: FE) -> Variable {
        self.v.push(v);
        self.commits += 1;
        Variable::Committed(self.commits - 1)
    }
    pub fn val(&self, v: &Variable) -> FE {
        match v {
            Variable::Committed(i) => self.v[*i].clone(),
            Variable::MultiplierLeft(i) => self.al[*i].clone(),
            Variable::MultiplierRight(i) => self.ar[*i].clone(),
            Variable::MultiplierOutput(i) => self.ao[*i].clone(),
            Variable::One() => FE::one(),
        }
    }
    pub fn ev(&self, t: &[(Variable, FE)]) -> FE {
        let mut s = FE::zero();
        for (v, c) in t {
            s = s + &self.val(v) * c;
        }
        s
    }
    fn gate(&mut self, l: FE, r: FE) -> usize {
        if self.prover {
            self.ao.push(&l * &r);
            self.al.push(l);
            self.ar.push(r);
        }
        self.gates += 1;
        self.gates - 1
    }
    /// run the randomized callbacks
    pub fn finish(&mut self) -> Result<(), R1CSError> {
        self.n1 = self.gates;
        self.pending = None;
        self.phase2 = true;
        let cbs: Vec<Cb> = self.cbs.drain(..).collect();
        for c in cbs {
            c(self)?;
        }
        Ok(())
    }
    pub fn satisfied(&self) -> bool {
        self.lcs.iter().all(|l| self.ev(l).is_zero())
            && (0..self.gates).all(|i| &self.al[i] * &self.ar[i] == self.ao[i])
    }
}
impl ConstraintSystem for Mock {
    type RandomizedCS = Mock;
    fn multiply(
        &mut self,
        left: LinearCombination,
        right: LinearCombination,
    ) -> (Variable, Variable, Variable) {
        let (mut l, mut r) = (left.terms, right.terms);
        let (a, b) = if self.prover {
            (self.ev(&l), self.ev(&r))
        } else {
            (FE::zero(), FE::zero())
        };
        let i = self.gate(a, b);
        l.push((Variable::MultiplierLeft(i), FE::minus_one()));
        r.push((Variable::MultiplierRight(i), FE::minus_one()));
        self.lcs.push(l);
        self.lcs.push(r);
        (
            Variable::MultiplierLeft(i),
            Variable::MultiplierRight(i),
            Variable::MultiplierOutput(i),
        )
    }
    fn allocate(&mut self, a: Option<FE>) -> Result<Variable, R1CSError> {
        self.allocate_single(a).map(|x| x.0)
    }
    fn allocate_multiplier(
        &mut self,
        a: Option<(FE, FE)>,
    ) -> Result<(Variable, Variable, Variable), R1CSError> {
        if self.prover && a.is_none() {
            return Err(R1CSError::MissingAssignment);
        }
        let (l, r) = a.unwrap_or((FE::zero(), FE::zero()));
        let i = self.gate(l, r);
        Ok((
            Variable::MultiplierLeft(i),
            Variable::MultiplierRight(i),
            Variable::MultiplierOutput(i),
        ))
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.lcs.push(lc.terms);
    }
    fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Mock) -> Result<(), R1CSError>,
    {
        if self.phase2 {
            callback(self)
        } else {
            self.cbs.push(Box::new(callback));
            Ok(())
        }
    }
    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<FE> {
        if self.prover {
            Some(self.ev(&lc.terms))
        } else {
            None
        }
    }
    fn allocate_single(
        &mut self,
        a: Option<FE>,
    ) -> Result<(Variable, Option<Variable>), R1CSError> {
        if self.prover && a.is_none() {
            return Err(R1CSError::MissingAssignment);
        }
        match self.pending.take() {
            None => {
                let i = self.gate(a.unwrap_or(FE::zero()), FE::zero());
                self.pending = Some(i);
                Ok((Variable::MultiplierLeft(i), None))
            }
            Some(i) => {
                if let Some(x) = a {
                    if self.prover {
                        self.ao[i] = &self.al[i] * &x;
                        self.ar[i] = x;
                    }
                }
                Ok((
                    Variable::MultiplierRight(i),
                    Some(Variable::MultiplierOutput(i)),
                ))
            }
        }
    }
}
impl RandomizedConstraintSystem for Mock {
    fn challenge_scalar(&mut self, _label: &'static [u8]) -> FE {
        let c = match self.chals.pop_front() {
            Some(c) => c,
            None => self.rng.get_or_insert(Rng::new(77)).fe(),
        };
        self.used.push(c.clone());
        c
    }
}

/// Run a program on the reference constraint system, as prover, with the given challenges.
pub fn model(prog: &Prog, chals: &[FE]) -> (Mock, St) {
    let st = Rc::new(RefCell::new(St {
        prover: true,
        ..St::default()
    }));
    let mut m = Mock::new(true);
    m.chals = chals.iter().cloned().collect();
    let mut cb = 0;
    for op in &prog.ops {
        match op {
            Op::Commit(v, _) => {
                let var = m.commit(v.clone());
                let mut s = st.borrow_mut();
                s.commits += 1;
                s.vars.push(var);
                s.vals.push(v.clone());
            }
            Op::Rand(ops) => {
                cb += 1;
                let (ops, st2, id) = (ops.clone(), st.clone(), cb);
                let _ = m.specify_randomized_constraints(move |c| run_phase2(c, &ops, id, &st2));
            }
            op => {
                let _ = exec(&mut m, op, &mut st.borrow_mut());
            }
        }
    }
    let _ = m.finish();
    let s = finish(st);
    (m, s)
}
