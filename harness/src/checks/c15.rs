//! C15: zero-knowledge Merkle inclusion proofs.
use super::c14::digits_to_fe;
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use merlin::Transcript;
use std::sync::Arc;

#[derive(Clone)]
struct M {
    arity: usize,
    leaf: FE,
    idx: FE,
    path: Vec<Vec<FE>>,
    root: FE,
    depth: usize,
    p: Arc<PoseidonParams>,
}
impl M {
    fn gd(&self) -> Gd {
        let (leaf, idx, root, depth, params) =
            (self.leaf.clone(), self.idx.clone(), self.root.clone(), self.depth, self.p.clone());
        if self.arity == 4 {
            let path = self.path.iter().map(|n| {
                let mut a: ProofNode_4_ary = Default::default();
                a.clone_from_slice(n);
                a
            }).collect();
            Gd::Merkle4 { leaf, idx, path, root, depth, params }
        } else {
            let path = self.path.iter().map(|n| {
                let mut a: ProofNode_8_ary = Default::default();
                a.clone_from_slice(n);
                a
            }).collect();
            Gd::Merkle8 { leaf, idx, path, root, depth, params }
        }
    }
    /// root reached from leaf and siblings along the given digits
    fn up(&self, leaf: &FE, d: &[u8]) -> FE {
        let mut cur = leaf.clone();
        for lv in (0..d.len()).rev() {
            let mut c = self.path[lv].clone();
            c.insert(d[lv] as usize, cur);
            cur = ref_hash(&c, &self.p, &SB);
        }
        cur
    }
    fn fixed(&self, leaf: &FE, idx: &FE) -> Vec<(usize, FE)> {
        let mut v = vec![leaf.clone(), idx.clone()];
        for n in &self.path {
            v.extend(n.iter().cloned());
        }
        v.into_iter().enumerate().collect()
    }
}
fn width(arity: usize) -> usize {
    arity + 1
}
fn rp(r: &mut Rng, arity: usize) -> Arc<PoseidonParams> {
    let q = *r.pick(&[(1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)]);
    params(width(arity), q.0, q.1, q.2)
}
/// statement from random siblings: the root is what the path hashes to
fn synth(r: &mut Rng, arity: usize, d: &[u8], p: Arc<PoseidonParams>) -> M {
    let path = (0..d.len()).map(|_| (0..arity - 1).map(|_| if r.chance(1, 8) { r.fe_mixed() } else { r.fe() }).collect()).collect();
    let mut m = M { arity, leaf: r.fe_mixed(), idx: digits_to_fe(d, arity as u64), path, root: FE::zero(), depth: d.len(), p };
    m.root = m.up(&m.leaf.clone(), d);
    m
}
/// statement from a native tree with some contents
fn native(r: &mut Rng, arity: usize, d: &[u8], p: Arc<PoseidonParams>) -> M {
    let depth = d.len();
    let idx = digits_to_fe(d, arity as u64);
    let mut c = vec![];
    for _ in 0..r.range(0, 4) {
        let mut k = d.to_vec();
        let from = r.below(depth);
        for x in k[from..].iter_mut() {
            *x = r.below(arity) as u8;
        }
        c.push((digits_to_fe(&k, arity as u64), r.fe()));
    }
    if r.chance(3, 4) {
        c.push((idx.clone(), r.fe_mixed()));
    }
    let (leaf, path, root): (FE, Vec<Vec<FE>>, FE) = if arity == 4 {
        let (t, db) = tree4(&p, depth, &c);
        let mut pr = Some(vec![]);
        let l = t.get(&idx, &mut pr, &db).expect("get");
        (l, pr.unwrap().iter().map(|n| n.to_vec()).collect(), t.root.clone())
    } else {
        let (t, db) = tree8(&p, depth, &c);
        let mut pr = Some(vec![]);
        let l = t.get(&idx, &mut pr, &db).expect("get");
        (l, pr.unwrap().iter().map(|n| n.to_vec()).collect(), t.root.clone())
    };
    M { arity, leaf, idx, path, root, depth, p }
}
fn digits(mut i: usize, arity: usize, depth: usize) -> Vec<u8> {
    let mut d = vec![0u8; depth];
    for lv in (0..depth).rev() {
        d[lv] = (i % arity) as u8;
        i /= arity;
    }
    d
}
fn rdigits(r: &mut Rng, arity: usize, depth: usize) -> Vec<u8> {
    (0..depth).map(|_| r.below(arity) as u8).collect()
}

fn honest_case(ctx: &mut Ctx, arity: usize, d: Vec<u8>, nat: bool, p: Option<Arc<PoseidonParams>>) {
    let mut r = ctx.rng.fork();
    let p = p.unwrap_or_else(|| rp(&mut r, arity));
    let m = if nat { native(&mut r, arity, &d, p) } else { synth(&mut r, arity, &d, p) };
    honest(ctx, &m.gd(), &format!("{}-ary {:?}", arity, d));
}
/// wrong leaf, index, root, siblings: proofs made with the library's prover
fn false_case(ctx: &mut Ctx, arity: usize, depth: usize) {
    let mut r = ctx.rng.fork();
    let d = rdigits(&mut r, arity, depth);
    let p = rp(&mut r, arity);
    let m = synth(&mut r, arity, &d, p);
    let claim = m.gd();
    let s = |x: &str| format!("{}-ary depth {} {}", arity, depth, x);
    let mut w = m.clone();
    w.leaf = &w.leaf + &FE::one();
    false_claim(ctx, &w.gd(), &claim, &s("leaf+1"));
    let mut w = m.clone();
    w.leaf = r.fe();
    false_claim(ctx, &w.gd(), &claim, &s("random leaf"));
    for lv in 0..depth {
        // a leaf from a sibling position claimed at this index, and this leaf at a sibling index
        let mut q = d.clone();
        q[lv] = ((q[lv] as usize + 1 + r.below(arity - 1)) % arity) as u8;
        let mut w = m.clone();
        w.idx = digits_to_fe(&q, arity as u64);
        if w.up(&w.leaf.clone(), &q) != m.root {
            false_claim(ctx, &w.gd(), &claim, &s(&format!("digit {}", lv)));
        }
        let mut w = m.clone();
        let k = r.below(arity - 1);
        w.path[lv][k] = &w.path[lv][k] + &FE::one();
        false_claim(ctx, &w.gd(), &claim, &s(&format!("sibling {}", lv)));
    }
    // index outside the tree: aliases of the true index
    for k in vec![1u64, 2, arity as u64, 255] {
        let mut w = m.clone();
        let mut top = FE::one();
        for _ in 0..depth {
            top = &top * &fe(arity as u64);
        }
        w.idx = &m.idx + &(&top * &fe(k));
        false_claim(ctx, &w.gd(), &claim, &s(&format!("index + {}*size", k)));
        w.idx = &m.idx - &(&top * &fe(k));
        false_claim(ctx, &w.gd(), &claim, &s(&format!("index - {}*size", k)));
    }
    // other root
    for (k, root) in vec![
        FE::zero(), FE::one(), FE::minus_one(), r.fe(), &m.root + &FE::one(), m.leaf.clone(), m.path[0][0].clone(),
        m.idx.clone(), m.root.negation(),
    ].into_iter().enumerate() {
        if root == m.root {
            continue;
        }
        let mut c = m.clone();
        c.root = root;
        false_claim(ctx, &m.gd(), &c.gd(), &s(&format!("other root {}", k)));
        // the prover believes it as well
        false_claim(ctx, &c.gd(), &c.gd(), &s(&format!("other root {} on both sides", k)));
        if SIM && depth <= 2 {
            attack(ctx, &c.gd(), &c.fixed(&c.leaf, &c.idx), None, 3000, &s(&format!("other root {} search", k)));
        }
    }
    // an inner node claimed as a leaf at another depth
    if depth > 1 {
        let mut c = m.clone();
        c.depth -= 1;
        false_claim(ctx, &m.gd(), &c.gd(), &s("shallower claim"));
    }
    let mut c = m.clone();
    c.depth += 1;
    false_claim(ctx, &m.gd(), &c.gd(), &s("deeper claim"));
}
/// all committed values fixed, the root unknown: any root other than the one the path hashes to
fn search_case(ctx: &mut Ctx, arity: usize, d: Vec<u8>) {
    let mut r = ctx.rng.fork();
    let depth = d.len();
    let p = if depth > 2 { params(width(arity), 1, 0, 0) } else { rp(&mut r, arity) };
    let m = synth(&mut r, arity, &d, p);
    let f = |x: &FE| {
        let mut c = m.clone();
        c.root = x.clone();
        c.gd()
    };
    attack(ctx, &m.gd(), &m.fixed(&m.leaf, &m.idx), Some((&f, m.root.clone())), 3000,
        &format!("{}-ary {:?} search", arity, d));
}
/// an index outside the tree: no root at all is acceptable
fn outside_case(ctx: &mut Ctx, arity: usize, depth: usize) {
    let mut r = ctx.rng.fork();
    let d = rdigits(&mut r, arity, depth);
    let p = params(width(arity), 1, 0, 0);
    let m = synth(&mut r, arity, &d, p);
    let mut top = FE::one();
    for _ in 0..depth {
        top = &top * &fe(arity as u64);
    }
    let f = |x: &FE| {
        let mut c = m.clone();
        c.root = x.clone();
        c.gd()
    };
    let never = r.fe();
    let outs = vec![
        top.clone(), &top + &FE::one(), &m.idx + &top, &m.idx + &(&top * &fe(arity as u64)), FE::minus_one(),
        fe_pow2(64), fe_pow2(128), r.fe(), m.idx.negation(), fe(2).inverse(),
        &m.idx * &fe(2).inverse(),
    ];
    for (k, o) in outs.iter().enumerate() {
        // in range after all? (small multiples)
        let b = o.to_bytes();
        let bits = if arity == 4 { 2 * depth } else { 3 * depth };
        let zero_above = (0..b.len() * 8).all(|i| i < bits || (b[b.len() - 1 - i / 8] >> (i % 8)) & 1 == 0);
        if zero_above {
            continue;
        }
        attack(ctx, &m.gd(), &m.fixed(&m.leaf, o), Some((&f, never.clone())), 3000, &format!("{}-ary depth {} outside {}", arity, depth, k));
    }
}
/// the constraint gadget called directly with a path of another length than the depth
fn length_case(ctx: &mut Ctx, arity: usize, depth: usize, nodes: usize) {
    let mut r = ctx.rng.fork();
    let p = params(width(arity), 1, 1, 0);
    let levels = nodes / (arity - 1);
    let d = rdigits(&mut r, arity, levels);
    let m = synth(&mut r, arity, &d, p.clone());
    let mut vals: Vec<FE> = m.path.concat();
    while vals.len() < nodes {
        vals.insert(0, r.fe());
    }
    let gn = gens(256);
    let res = guard(|| {
        let mut tr = Transcript::new(b"len");
        let mut pv = Prover::new(&gn.g, &gn.h, &mut tr);
        let mut comms = vec![];
        let (c, leaf) = pv.commit(m.leaf.clone(), r.fe());
        comms.push(c);
        let (c, iv) = pv.commit(m.idx.clone(), r.fe());
        comms.push(c);
        let mut ns = vec![];
        for v in &vals {
            let (c, x) = pv.commit(v.clone(), r.fe());
            comms.push(c);
            ns.push(x);
        }
        let st = allocate_statics_for_prover(&mut pv, 1);
        let idx = AllocatedQuantity { variable: iv, assignment: Some(m.idx.clone()) };
        if arity == 4 {
            vanilla_merkle_merkle_tree_4_verif_gadget(&mut pv, depth, &m.root, leaf, idx, ns, st, &p, &SB)?;
        } else {
            vanilla_merkle_merkle_tree_8_verif_gadget(&mut pv, depth, &m.root, leaf, idx, ns, st[0], &p, &SB)?;
        }
        Ok::<_, R1CSError>((pv.prove(&gn.G, &gn.H)?, comms))
    });
    let sig = format!("{}-ary depth {} with {} nodes", arity, depth, nodes);
    let (proof, comms) = match res {
        Ok(Ok(x)) => x,
        _ => {
            ctx.count("length_refused", 1);
            ctx.check(true, &sig, &|| String::new());
            return;
        }
    };
    let v = guard(|| {
        let mut tr = Transcript::new(b"len");
        let mut ve = Verifier::new(&mut tr);
        let leaf = ve.commit(comms[0].clone());
        let iv = ve.commit(comms[1].clone());
        let ns = comms[2..].iter().map(|c| ve.commit(c.clone())).collect();
        let st = allocate_statics_for_verifier(&mut ve, 1, &gn.g, &gn.h);
        let idx = AllocatedQuantity { variable: iv, assignment: None };
        if arity == 4 {
            vanilla_merkle_merkle_tree_4_verif_gadget(&mut ve, depth, &m.root, leaf, idx, ns, st, &p, &SB)?;
        } else {
            vanilla_merkle_merkle_tree_8_verif_gadget(&mut ve, depth, &m.root, leaf, idx, ns, st[0], &p, &SB)?;
        }
        ve.verify(&proof, &gn.g, &gn.h, &gn.G, &gn.H)
    });
    ctx.check(v != Ok(Ok(())), &sig, &|| format!("a path of {} levels was accepted for depth {}", levels, depth));
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Inclusion statements from native trees and from random paths, for both arities: every index of \
         small trees, every child position at every level and depths around every byte boundary must be \
         accepted; wrong leaf, digit, sibling, root, depth and index outside the tree by the library's own \
         prover, and by a searching prover that takes the verifier's recorded constraints with all committed \
         values fixed and looks for any other root, must not. Distinct by arity, index and alteration.",
    );
    s.assume("finding a second Merkle path is not attempted where it means breaking the hash (siblings are kept fixed)");
    let th = o.thorough;
    for &ar in &[4usize, 8] {
        // completeness
        if SIM {
            for d in 1..=if ar == 4 { 3 } else { 2 } {
                for i in 0..ar.pow(d as u32) {
                    s.add(format!("{}-ary depth {} index {}", ar, d, i), move |c| {
                        honest_case(c, ar, digits(i, ar, d), i % 2 == 0, None)
                    });
                }
            }
            for d in 2..=if th { 34 } else { 18 } {
                for i in 0..ar {
                    s.add(format!("{}-ary deep {} #{}", ar, d, i), move |c| {
                        // the same digit everywhere / cyclic / random
                        let k: Vec<u8> = match i % 3 {
                            0 => vec![i as u8; d],
                            1 => (0..d).map(|x| ((x + i) % ar) as u8).collect(),
                            _ => rdigits(&mut c.rng, ar, d),
                        };
                        let p = params(ar + 1, 1, 0, 0);
                        honest_case(c, ar, k, i % 2 == 1, Some(p))
                    });
                }
            }
            s.add(format!("{}-ary full-size hash", ar), move |c| {
                let d = rdigits(&mut c.rng, ar, 2);
                honest_case(c, ar, d, true, Some(params(ar + 1, 4, 4, if ar == 4 { 50 } else { 20 })))
            });
        } else {
            for i in 0..ar {
                s.add(format!("{}-ary depth 1 index {}", ar, i), move |c| honest_case(c, ar, vec![i as u8], false, Some(params(ar + 1, 1, 0, 0))));
            }
            for d in if th { vec![2, 3, 4, 5, 8, 9] } else { vec![2, 3] } {
                for i in 0..3 {
                    s.add(format!("{}-ary depth {} #{}", ar, d, i), move |c| {
                        let k = rdigits(&mut c.rng, ar, d);
                        honest_case(c, ar, k, true, Some(params(ar + 1, 1, 0, 0)))
                    });
                }
            }
        }
        // false statements by the library's prover
        let reps = match (SIM, th) { (true, false) => 15, (true, true) => 150, (false, false) => 0, _ => 1 };
        for d in 1..=if th { 8 } else { 5 } {
            for i in 0..reps {
                s.add(format!("{}-ary false depth {} #{}", ar, d, i), move |c| false_case(c, ar, d));
            }
        }
        if !SIM {
            s.add(format!("{}-ary false depth 1", ar), move |c| false_case(c, ar, 1));
        }
        // search, on the verifier's recorded constraints
        if SIM {
            for d in 1..=if th { 3 } else { 2 } {
                for i in 0..ar.pow(d as u32) {
                    s.add(format!("{}-ary search depth {} index {}", ar, d, i), move |c| search_case(c, ar, digits(i, ar, d)));
                }
            }
            for i in 0..if th { 300 } else { 40 } {
                s.add(format!("{}-ary search deeper #{}", ar, i), move |c| {
                    let d = if ar == 4 { 3 + i % 2 } else { 3 };
                    let k = rdigits(&mut c.rng, ar, d);
                    search_case(c, ar, k)
                });
            }
            for d in 1..=if ar == 4 { 3 } else { 2 } {
                for i in 0..if th { 20 } else { 2 } {
                    s.add(format!("{}-ary outside depth {} #{}", ar, d, i), move |c| outside_case(c, ar, d));
                }
            }
        }
        for d in 0..=4usize {
            let mut ns: Vec<usize> = vec![];
            for l in 0..=6usize {
                if l != d {
                    ns.push(l * (ar - 1));
                }
            }
            ns.extend(vec![d * (ar - 1) + 1, (d * (ar - 1)).saturating_sub(1)]);
            ns.retain(|n| *n != d * (ar - 1));
            if !SIM {
                ns.truncate(2);
            }
            for n in ns {
                s.add(format!("{}-ary length {} nodes {}", ar, d, n), move |c| length_case(c, ar, d, n));
            }
        }
    }
    s
}
