//! Compositions: several gadgets and low-level operations in one constraint system.
use crate::gadgets::*;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use merlin::Transcript;
use std::cell::RefCell;
use std::rc::Rc;

/// all values committed for a gadget, in the order of its commitments
pub fn values(gd: &Gd) -> Vec<FE> {
    match gd {
        Gd::NonZero { v } => vec![v.clone(), v.inverse()],
        Gd::Bound { v, lo, hi, .. } => vec![fe(*v), &fe(*v) - &fe(*lo), &fe(*hi) - &fe(*v)],
        Gd::Set { v, set } => {
            let mut o = vec![v.clone()];
            o.extend(set.iter().map(|s| s - v));
            o
        }
        Gd::SetAlt { v, set } => {
            let mut o: Vec<FE> = set.iter().map(|s| fe((s == v) as u64)).collect();
            o.push(fe(*v));
            o
        }
        Gd::NonMember { v, set } => {
            let mut o = vec![v.clone()];
            for s in set {
                let d = s - v;
                o.push(d.clone());
                o.push(d.inverse());
            }
            o
        }
        Gd::Mimc { inp, .. } | Gd::Poseidon { inp, .. } => inp.clone(),
        Gd::Merkle4 { leaf, idx, path, .. } => {
            let mut o = vec![leaf.clone(), idx.clone()];
            o.extend(path.iter().flat_map(|n| n.iter().cloned()));
            o
        }
        Gd::Merkle8 { leaf, idx, path, .. } => {
            let mut o = vec![leaf.clone(), idx.clone()];
            o.extend(path.iter().flat_map(|n| n.iter().cloned()));
            o
        }
        Gd::Hamming { orig, .. } => orig.clone(),
        Gd::Randomizer(z) => {
            let (t, db) = tree4(&z.params, z.depth, &z.orig);
            let mut v = vec![t.root.clone()];
            for i in &z.idx {
                let mut pr = Some(vec![]);
                v.push(t.get(i, &mut pr, &db).expect("get"));
                for n in pr.unwrap() {
                    v.extend(n.iter().cloned());
                }
            }
            v
        }
        Gd::Positive { v, .. } | Gd::Bit { v } => vec![v.clone()],
    }
}
fn needs_static(gd: &Gd) -> bool {
    match gd {
        Gd::Poseidon { .. } | Gd::Merkle4 { .. } | Gd::Merkle8 { .. } | Gd::Randomizer(_) => true,
        _ => false,
    }
}
/// the gadget itself, on committed variables, on whichever side and in whichever phase
pub fn low<CS: ConstraintSystem>(cs: &mut CS, gd: &Gd, vars: &[Variable], vals: Option<&[FE]>, zero: Option<Variable>) -> Result<(), R1CSError> {
    let q = |i: usize| AllocatedQuantity { variable: vars[i], assignment: vals.map(|v| v[i].clone()) };
    match gd {
        Gd::NonZero { .. } => is_nonzero_gadget(cs, vars[0], vars[1]),
        Gd::Bound { lo, hi, n, .. } => bound_check_gadget(cs, q(0), q(1), q(2), *hi, *lo, *n),
        Gd::Set { set, .. } => set_membership_gadget(cs, q(0), (0..set.len()).map(|i| q(1 + i)).collect(), set),
        Gd::SetAlt { set, .. } => {
            let k = set.len();
            let b: Vec<AllocatedQuantity> = (0..k).map(|i| q(i)).collect();
            for x in &b {
                bit_gadget(cs, x)?;
            }
            vector_sum_constraints(cs, vars[..k].to_vec(), 1)?;
            vector_product_gadget(cs, set, &b, &q(k))
        }
        Gd::NonMember { set, .. } => {
            let d = (0..set.len()).map(|i| q(1 + 2 * i)).collect();
            let e = (0..set.len()).map(|i| q(2 + 2 * i)).collect();
            set_non_membership_gadget(cs, q(0), d, e, set)
        }
        Gd::Mimc { out, consts, rounds, .. } => mimc_gadget(cs, q(0), q(1), *rounds, consts, out),
        Gd::Poseidon { out, params, sbox, .. } => match params.width {
            3 => Poseidon_hash_2_gadget(cs, vars[0], vars[1], vec![zero.unwrap()], params, sbox, out),
            5 => Poseidon_hash_4_gadget(cs, vars.to_vec(), vec![zero.unwrap()], params, sbox, out),
            _ => Poseidon_hash_8_gadget(cs, vars.to_vec(), zero.unwrap(), params, sbox, out),
        },
        Gd::Merkle4 { root, depth, params, .. } => {
            vanilla_merkle_merkle_tree_4_verif_gadget(cs, *depth, root, vars[0], q(1), vars[2..].to_vec(), vec![zero.unwrap()], params, &SB)
        }
        Gd::Merkle8 { root, depth, params, .. } => {
            vanilla_merkle_merkle_tree_8_verif_gadget(cs, *depth, root, vars[0], q(1), vars[2..].to_vec(), zero.unwrap(), params, &SB)
        }
        Gd::Hamming { orig, new, count } => hamming_distance_gadget(cs, (0..orig.len()).map(|i| q(i)).collect(), new, *count),
        Gd::Randomizer(z) => {
            let (mut nt, mut ndb) = tree4(&z.params, z.depth, &z.new);
            let per = 1 + 3 * z.depth;
            let ov = (0..z.idx.len()).map(|i| vars[1 + i * per]).collect();
            let pr = (0..z.idx.len()).map(|i| vars[2 + i * per..1 + (i + 1) * per].to_vec()).collect();
            randomizer_gadget(cs, z.depth, vars[0], &mut nt, &mut ndb, z.idx.clone(), ov, pr, vec![zero.unwrap()], &z.params, &SB)
        }
        Gd::Positive { n, .. } => positive_no_gadget(cs, q(0), *n),
        Gd::Bit { .. } => bit_gadget(cs, &q(0)),
    }
}

#[derive(Clone)]
pub enum It {
    /// through prove_* / verify_*
    Api(Gd),
    /// through the gadget function; committed at the start (true) or where it stands
    Low(Gd, bool),
    Alloc(FE),
    AllocMul(FE, FE),
    /// a gate on constants
    Mul(FE, FE),
    /// a randomized callback; gadgets in it are committed at the start
    Cb(Vec<It>),
    Challenge,
}
#[derive(Clone)]
pub struct Comp {
    pub items: Vec<It>,
    /// reuse a committed variable of equal value
    pub share: bool,
    /// one committed zero for everything
    pub one_zero: bool,
    /// commit to the values of a gadget last to first
    pub rev: bool,
    pub desc: String,
}
/// where the i-th value of the k-th low gadget comes from
#[derive(Clone)]
enum Src {
    New(FE),
    Old(usize),
}
#[derive(Clone)]
struct Slot {
    gd: Gd,
    vals: Vec<FE>,
    vars: Rc<RefCell<Vec<Variable>>>,
    zero: Rc<RefCell<Option<Variable>>>,
    src: Vec<Src>,
    /// in which the values are committed
    order: Vec<usize>,
    ahead: bool,
}
impl Comp {
    /// low-level gadgets in order of their commitments
    fn slots(&self) -> Vec<Slot> {
        let mut list: Vec<(Gd, bool)> = vec![];
        fn walk(items: &[It], cb: bool, out: &mut Vec<(Gd, bool)>) {
            for it in items {
                match it {
                    It::Low(g, a) => out.push((g.clone(), *a || cb)),
                    It::Cb(v) => walk(v, true, out),
                    _ => {}
                }
            }
        }
        walk(&self.items, false, &mut list);
        let mut slots: Vec<Slot> = list
            .into_iter()
            .map(|(gd, ahead)| Slot {
                vals: values(&gd),
                gd,
                vars: Rc::new(RefCell::new(vec![])),
                zero: Rc::new(RefCell::new(None)),
                src: vec![],
                order: vec![],
                ahead,
            })
            .collect();
        let mut pool: Vec<FE> = vec![];
        for pass in [true, false].iter() {
            for s in slots.iter_mut().filter(|s| s.ahead == *pass) {
                s.order = (0..s.vals.len()).collect();
                if self.rev {
                    s.order.reverse();
                }
                s.src = vec![Src::Old(0); s.vals.len()];
                *s.vars.borrow_mut() = vec![Variable::One(); s.vals.len()];
                for j in s.order.clone() {
                    let v = &s.vals[j];
                    let old = if self.share { pool.iter().position(|x| x == v) } else { None };
                    s.src[j] = match old {
                        Some(i) => Src::Old(i),
                        None => {
                            pool.push(v.clone());
                            Src::New(v.clone())
                        }
                    };
                }
            }
        }
        slots
    }
    /// position among the commitments of every value of the k-th gadget (Api or Low, in walk order)
    pub fn positions(&self, target: usize) -> Vec<(usize, FE)> {
        // replays the commitment order
        let slots = self.slots();
        let mut n = 0;
        let mut pool: Vec<usize> = vec![];
        let mut pos: Vec<Vec<usize>> = slots.iter().map(|s| vec![0; s.vals.len()]).collect();
        let mut commit = |k: usize, n: &mut usize, pos: &mut Vec<Vec<usize>>| {
            for j in &slots[k].order {
                match &slots[k].src[*j] {
                    Src::New(_) => {
                        pool.push(*n);
                        pos[k][*j] = *n;
                        *n += 1;
                    }
                    Src::Old(i) => pos[k][*j] = pool[*i],
                }
            }
        };
        for k in 0..slots.len() {
            if slots[k].ahead {
                commit(k, &mut n, &mut pos);
            }
        }
        let mut out: Vec<(Vec<usize>, Gd)> = vec![];
        let mut k = 0;
        for it in &self.items {
            match it {
                It::Api(g) => {
                    let c = g.comms_len();
                    out.push(((n..n + c).collect(), g.clone()));
                    n += c;
                }
                It::Low(g, a) => {
                    if !*a {
                        commit(k, &mut n, &mut pos);
                    }
                    out.push((pos[k].clone(), g.clone()));
                    k += 1;
                }
                It::Cb(v) => {
                    for x in v {
                        if let It::Low(g, _) = x {
                            out.push((pos[k].clone(), g.clone()));
                            k += 1;
                        }
                    }
                }
                _ => {}
            }
        }
        let (p, g) = &out[target];
        match g {
            Gd::Randomizer(_) | Gd::Merkle4 { .. } | Gd::Merkle8 { .. } => values(g).into_iter().enumerate().map(|(i, v)| (p[i], v)).collect(),
            g => g.primaries().into_iter().map(|(i, v)| (p[i], v)).collect(),
        }
    }
    pub fn n_comms(&self) -> usize {
        let mut n = 0;
        for s in self.slots() {
            n += s.src.iter().filter(|x| if let Src::New(_) = x { true } else { false }).count();
        }
        for it in &self.items {
            if let It::Api(g) = it {
                n += g.comms_len();
            }
        }
        n
    }
    pub fn draws(&self) -> usize {
        let mut n = 0;
        for it in &self.items {
            if let It::Cb(v) = it {
                n += v.iter().filter(|x| if let It::Challenge = x { true } else { false }).count();
            }
        }
        n
    }
    pub fn gadgets(&self) -> Vec<Gd> {
        let mut v = vec![];
        for it in &self.items {
            match it {
                It::Api(g) | It::Low(g, _) => v.push(g.clone()),
                It::Cb(x) => {
                    for y in x {
                        if let It::Low(g, _) = y {
                            v.push(g.clone());
                        }
                    }
                }
                _ => {}
            }
        }
        v
    }
    /// replace the k-th gadget
    pub fn with(&self, k: usize, gd: Gd) -> Comp {
        let mut c = self.clone();
        let mut i = 0;
        for it in c.items.iter_mut() {
            match it {
                It::Api(g) | It::Low(g, _) => {
                    if i == k {
                        *g = gd.clone();
                    }
                    i += 1;
                }
                It::Cb(x) => {
                    for y in x.iter_mut() {
                        if let It::Low(g, _) = y {
                            if i == k {
                                *g = gd.clone();
                            }
                            i += 1;
                        }
                    }
                }
                _ => {}
            }
        }
        c
    }
    /// Api items as low-level ones
    pub fn lowered(&self) -> Comp {
        let mut c = self.clone();
        for it in c.items.iter_mut() {
            if let It::Api(g) = it {
                *it = It::Low(g.clone(), false);
            }
        }
        c
    }
    pub fn has_cb(&self) -> bool {
        self.items.iter().any(|i| if let It::Cb(_) = i { true } else { false })
    }
    pub fn gates(&self) -> usize {
        // run everything in one phase to count
        let mut flat = self.clone();
        flat.items = self
            .items
            .iter()
            .flat_map(|i| match i {
                It::Cb(v) => v.iter().filter(|x| if let It::Challenge = x { false } else { true }).cloned().collect(),
                o => vec![o.clone()],
            })
            .collect();
        let gn = gens(1);
        let mut tr = Transcript::new(b"size");
        let mut p = Prover::new(&gn.g, &gn.h, &mut tr);
        let mut r = Rng::new(1);
        let _ = flat.build_prover(&mut p, &mut r);
        p.num_multipliers() + 1 + self.items.iter().filter(|i| if let It::Cb(_) = i { true } else { false }).count()
    }
    pub fn build_prover(&self, p: &mut Prover, r: &mut Rng) -> Result<Vec<G1>, R1CSError> {
        let slots = self.slots();
        let mut comms = vec![];
        let mut pool: Vec<Variable> = vec![];
        let mut zero: Option<Variable> = None;
        let one_zero = self.one_zero;
        let mut commit = |s: &Slot, p: &mut Prover, comms: &mut Vec<G1>, r: &mut Rng| {
            for j in &s.order {
                let v = match &s.src[*j] {
                    Src::New(v) => {
                        let (c, var) = p.commit(v.clone(), r.fe());
                        comms.push(c);
                        pool.push(var);
                        var
                    }
                    Src::Old(i) => pool[*i],
                };
                s.vars.borrow_mut()[*j] = v;
            }
            if needs_static(&s.gd) {
                if zero.is_none() || !one_zero {
                    zero = Some(allocate_statics_for_prover(p, 1).remove(0));
                }
                *s.zero.borrow_mut() = zero;
            }
        };
        for s in slots.iter().filter(|s| s.ahead) {
            commit(s, p, &mut comms, r);
        }
        let mut k = 0;
        for it in &self.items {
            match it {
                It::Api(g) => {
                    let rnd = g.rnd(r);
                    comms.extend(g.prove_into(rnd, None, p)?);
                }
                It::Low(..) => {
                    let s = &slots[k];
                    k += 1;
                    if !s.ahead {
                        commit(s, p, &mut comms, r);
                    }
                    low(p, &s.gd, &s.vars.borrow(), Some(&s.vals), *s.zero.borrow())?;
                }
                It::Cb(v) => {
                    let n = v.iter().filter(|x| if let It::Low(..) = x { true } else { false }).count();
                    let mine: Vec<Slot> = slots[k..k + n].to_vec();
                    k += n;
                    let v = v.clone();
                    p.specify_randomized_constraints(move |c| phase2(c, &v, &mine, true))?;
                }
                o => plain(p, o, true)?,
            }
        }
        Ok(comms)
    }
    pub fn build_verifier(&self, p: &mut Verifier, comms: &[G1], gn: &Gens) -> Result<(), R1CSError> {
        let slots = self.slots();
        let mut it = comms.iter().cloned();
        let mut pool: Vec<Variable> = vec![];
        let mut zero: Option<Variable> = None;
        let one_zero = self.one_zero;
        let mut commit = |s: &Slot, p: &mut Verifier, it: &mut dyn Iterator<Item = G1>| -> Result<(), R1CSError> {
            for j in &s.order {
                let v = match &s.src[*j] {
                    Src::New(_) => {
                        let var = p.commit(it.next().ok_or(R1CSError::FormatError)?);
                        pool.push(var);
                        var
                    }
                    Src::Old(i) => pool[*i],
                };
                s.vars.borrow_mut()[*j] = v;
            }
            if needs_static(&s.gd) {
                if zero.is_none() || !one_zero {
                    zero = Some(allocate_statics_for_verifier(p, 1, &gn.g, &gn.h).remove(0));
                }
                *s.zero.borrow_mut() = zero;
            }
            Ok(())
        };
        for s in slots.iter().filter(|s| s.ahead) {
            commit(s, p, &mut it)?;
        }
        let mut k = 0;
        for item in &self.items {
            match item {
                It::Api(g) => {
                    let c: Vec<G1> = it.by_ref().take(g.comms_len()).collect();
                    g.verify_into(&c, gn, p)?;
                }
                It::Low(..) => {
                    let s = &slots[k];
                    k += 1;
                    if !s.ahead {
                        commit(s, p, &mut it)?;
                    }
                    low(p, &s.gd, &s.vars.borrow(), None, *s.zero.borrow())?;
                }
                It::Cb(v) => {
                    let n = v.iter().filter(|x| if let It::Low(..) = x { true } else { false }).count();
                    let mine: Vec<Slot> = slots[k..k + n].to_vec();
                    k += n;
                    let v = v.clone();
                    p.specify_randomized_constraints(move |c| phase2(c, &v, &mine, false))?;
                }
                o => plain(p, o, false)?,
            }
        }
        Ok(())
    }
    pub fn prove(&self, label: &'static [u8], gn: &Gens, r: &mut Rng) -> PR {
        self.prove_on(&mut Transcript::new(label), gn, r)
    }
    pub fn prove_on(&self, tr: &mut Transcript, gn: &Gens, r: &mut Rng) -> PR {
        let mut p = Prover::new(&gn.g, &gn.h, tr);
        let c = self.build_prover(&mut p, r)?;
        Ok((p.prove(&gn.G, &gn.H)?, c))
    }
    pub fn verify(&self, proof: &R1CSProof, comms: &[G1], label: &'static [u8], gn: &Gens) -> Result<(), R1CSError> {
        self.verify_on(proof, comms, &mut Transcript::new(label), gn)
    }
    pub fn verify_on(&self, proof: &R1CSProof, comms: &[G1], tr: &mut Transcript, gn: &Gens) -> Result<(), R1CSError> {
        let mut v = Verifier::new(tr);
        self.build_verifier(&mut v, comms, gn)?;
        v.verify(proof, &gn.g, &gn.h, &gn.G, &gn.H)
    }
}
fn plain<CS: ConstraintSystem>(cs: &mut CS, it: &It, prover: bool) -> Result<(), R1CSError> {
    match it {
        It::Alloc(x) => {
            cs.allocate_single(if prover { Some(x.clone()) } else { None })?;
        }
        It::AllocMul(x, y) => {
            cs.allocate_multiplier(if prover { Some((x.clone(), y.clone())) } else { None })?;
        }
        It::Mul(x, y) => {
            let (l, _, o) = cs.multiply(x.clone().into(), y.clone().into());
            let k = x * y;
            cs.constrain(o - k);
            cs.constrain(l - x.clone());
        }
        _ => {}
    }
    Ok(())
}
fn phase2<CS: RandomizedConstraintSystem>(cs: &mut CS, items: &[It], slots: &[Slot], prover: bool) -> Result<(), R1CSError> {
    let mut k = 0;
    for it in items {
        match it {
            It::Low(..) => {
                let s = &slots[k];
                k += 1;
                low(cs, &s.gd, &s.vars.borrow(), if prover { Some(&s.vals[..]) } else { None }, *s.zero.borrow())?;
            }
            It::Challenge => {
                cs.challenge_scalar(b"comp");
            }
            o => plain(cs, o, prover)?,
        }
    }
    Ok(())
}

/// kinds 0..KINDS as in `gen`, then Positive and Bit; on the given value where possible
pub fn gen_on(r: &mut Rng, kind: usize, x: u64) -> Gd {
    let g = match kind {
        11 => {
            let n = r.range(1, 12);
            return Gd::Positive { v: fe(x % (1 << n)), n };
        }
        12 => return Gd::Bit { v: fe(x & 1) },
        k => gen(r, k, 1),
    };
    let v = fe(x);
    match g {
        Gd::NonZero { .. } if x != 0 => Gd::NonZero { v },
        Gd::Bound { .. } => {
            let lo = x - r.next() % (x.min(20) + 1);
            let hi = x + r.next() % 20;
            Gd::Bound { v: x, lo, hi, n: r.range(6, 8) }
        }
        Gd::Set { set, .. } => {
            let mut set = set;
            let i = r.below(set.len());
            set[i] = v.clone();
            Gd::Set { v, set }
        }
        Gd::SetAlt { set, .. } => {
            let mut set = set;
            set.retain(|s| *s != x);
            let i = r.below(set.len() + 1);
            set.insert(i, x);
            Gd::SetAlt { v: x, set }
        }
        Gd::NonMember { set, .. } if !set.contains(&v) => Gd::NonMember { v, set },
        Gd::Mimc { inp, consts, rounds, .. } => {
            let inp = vec![v, inp[1].clone()];
            let out = ref_mimc(&inp, &consts, rounds);
            Gd::Mimc { inp, out, consts, rounds }
        }
        Gd::Poseidon { inp, params, sbox, .. } => {
            let mut inp = inp;
            let i = r.below(inp.len());
            inp[i] = v;
            let out = ref_hash(&inp, &params, &sbox);
            Gd::Poseidon { inp, out, params, sbox }
        }
        Gd::Hamming { orig, new, .. } => {
            let mut orig = orig;
            let i = r.below(orig.len());
            orig[i] = v;
            let count = orig.iter().zip(new.iter()).filter(|(a, b)| a != b).count() as u64;
            Gd::Hamming { orig, new, count }
        }
        g => g,
    }
}
/// the same gadget with a false statement
pub fn falsify(r: &mut Rng, gd: &Gd) -> Option<Gd> {
    let mut g = gd.clone();
    match &mut g {
        Gd::NonZero { v } => *v = FE::zero(),
        Gd::Bound { v, lo, hi, n } => {
            let below = r.chance(1, 2);
            if below && *lo > 0 {
                *v = *lo - 1;
            } else if *hi < u64::max_value() {
                *v = *hi + 1;
            } else if *lo > 0 {
                *v = *lo - 1;
            } else {
                return None;
            }
            let _ = n;
        }
        Gd::Set { v, set } => loop {
            *v = r.fe_mixed();
            if !set.contains(v) {
                break;
            }
        },
        Gd::SetAlt { v, set } => loop {
            *v = r.next();
            if !set.contains(v) {
                break;
            }
        },
        Gd::NonMember { v, set } => *v = r.pick(set).clone(),
        Gd::Mimc { out, .. } | Gd::Poseidon { out, .. } => *out = &*out + &r.fe_nonzero(),
        Gd::Merkle4 { leaf, root, .. } | Gd::Merkle8 { leaf, root, .. } => {
            if r.chance(1, 2) {
                *leaf = &*leaf + &r.fe_nonzero();
            } else {
                *root = &*root + &r.fe_nonzero();
            }
        }
        Gd::Hamming { count, .. } => *count += 1,
        Gd::Randomizer(z) => {
            let n = 4u64.pow(z.depth as u32);
            let i = (0..n).map(fe).find(|i| !z.idx.contains(i))?;
            z.new.push((i, r.fe_nonzero()));
        }
        Gd::Positive { v, n } => *v = &fe_pow2(*n) + &fe(r.next() % 4),
        Gd::Bit { v } => *v = if r.chance(1, 2) { fe(2) } else { FE::minus_one() },
    }
    Some(g)
}
pub const COMP_KINDS: usize = KINDS + 2;
fn gen_plain(r: &mut Rng) -> It {
    match r.below(5) {
        0 | 1 => It::Alloc(r.fe_mixed()),
        2 => It::AllocMul(r.fe_mixed(), r.fe_mixed()),
        _ => It::Mul(r.fe_mixed(), r.fe_mixed()),
    }
}
pub fn gen_comp(r: &mut Rng, kinds: &[usize], cbs: usize) -> Comp {
    let x = r.next() % 60;
    let mut items = vec![];
    let mut cb: Vec<Vec<It>> = vec![vec![]; cbs];
    let mut prev: Option<Gd> = None;
    for k in kinds {
        // randomizer trees are big: only sometimes exactly repeated
        let gd = match (&prev, r.chance(1, 8)) {
            (Some(p), true) => p.clone(),
            _ => {
                let v = if r.chance(2, 3) { x } else { r.next() % 1000 };
                gen_on(r, *k, v)
            }
        };
        prev = Some(gd.clone());
        for _ in 0..r.below(3) {
            items.push(gen_plain(r));
        }
        let is_low = match gd { Gd::Positive { .. } | Gd::Bit { .. } => true, _ => false };
        if cbs > 0 && r.chance(1, 2) {
            let i = r.below(cbs);
            for _ in 0..r.below(3) {
                cb[i].push(if r.chance(1, 3) { It::Challenge } else { gen_plain(r) });
            }
            cb[i].push(It::Low(gd, true));
        } else if is_low || r.chance(1, 2) {
            items.push(It::Low(gd, r.chance(1, 2)));
        } else {
            items.push(It::Api(gd));
        }
    }
    for _ in 0..r.below(3) {
        items.push(gen_plain(r));
    }
    for mut c in cb {
        if c.is_empty() && r.chance(1, 2) {
            c.push(It::Challenge);
        }
        let at = r.below(items.len() + 1);
        items.insert(at, It::Cb(c));
    }
    let share = r.chance(1, 2);
    let one_zero = r.chance(1, 2);
    let rev = r.chance(1, 3);
    let mut c = Comp { items, share, one_zero, rev, desc: String::new() };
    c.desc = format!("{} callbacks {} share {} zero {} rev {}", c.gadgets().iter().map(|g| g.name()).collect::<Vec<_>>().join(","), cbs, share, one_zero, rev);
    c
}
