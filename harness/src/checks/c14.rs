//! C14: native sparse Merkle trees as authenticated maps, against a reference map.
use crate::gadgets::*;
use crate::runner::*;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::utils::hash_db::*;
use std::cell::Cell;
use std::collections::BTreeMap;

/// index as digits, root level first
pub type Digits = Vec<u8>;
pub fn digits_to_fe(d: &[u8], arity: u64) -> FE {
    let mut x = FE::zero();
    for k in d {
        x = &(&x * &fe(arity)) + &fe(*k as u64);
    }
    x
}
/// reference: every level from the definition; `levels[k]` holds the non-empty nodes at depth k
struct Ref {
    arity: usize,
    depth: usize,
    empty: Vec<FE>,
    nodes: Vec<BTreeMap<Digits, FE>>,
}
impl Ref {
    fn build(c: &BTreeMap<Digits, FE>, arity: usize, depth: usize, p: &PoseidonParams) -> Ref {
        let mut empty = vec![FE::zero()];
        for d in 0..depth {
            let e = vec![empty[d].clone(); arity];
            empty.push(ref_hash(&e, p, &SB));
        }
        let mut nodes = vec![BTreeMap::new(); depth + 1];
        nodes[depth] = c.clone();
        for lv in (0..depth).rev() {
            let mut up: BTreeMap<Digits, Vec<FE>> = BTreeMap::new();
            for (k, v) in &nodes[lv + 1] {
                let e = up
                    .entry(k[..lv].to_vec())
                    .or_insert_with(|| vec![empty[depth - lv - 1].clone(); arity]);
                e[k[lv] as usize] = v.clone();
            }
            nodes[lv] = up.into_iter().map(|(k, v)| (k, ref_hash(&v, p, &SB))).collect();
        }
        Ref { arity, depth, empty, nodes }
    }
    fn node(&self, k: &[u8]) -> FE {
        self.nodes[k.len()].get(k).cloned().unwrap_or(self.empty[self.depth - k.len()].clone())
    }
    fn root(&self) -> FE {
        self.node(&[])
    }
    fn path(&self, k: &Digits) -> Vec<Vec<FE>> {
        let mut o = vec![];
        for lv in 0..self.depth {
            let mut s = vec![];
            for j in 0..self.arity {
                if j != k[lv] as usize {
                    let mut q = k[..lv].to_vec();
                    q.push(j as u8);
                    s.push(self.node(&q));
                }
            }
            o.push(s);
        }
        o
    }
}
/// does (index, value, path) hash up to the root, by definition
fn ref_verify(k: &[u8], v: &FE, path: &[Vec<FE>], root: &FE, p: &PoseidonParams) -> bool {
    if path.len() != k.len() {
        return false;
    }
    let mut cur = v.clone();
    for lv in (0..k.len()).rev() {
        let mut c = path[lv].clone();
        c.insert(k[lv] as usize, cur);
        cur = ref_hash(&c, p, &SB);
    }
    cur == *root
}
/// store that can be told to fail a read
struct FaultyDb<T: Clone> {
    inner: InMemoryHashDb<T>,
    fail_in: Cell<i64>,
    pub reads: Cell<u64>,
    pub hit: Cell<bool>,
}
impl<T: Clone> HashDb<T> for FaultyDb<T> {
    fn insert(&mut self, h: Vec<u8>, v: T) {
        self.inner.insert(h, v)
    }
    fn get(&self, h: &[u8]) -> Result<T, R1CSError> {
        self.reads.set(self.reads.get() + 1);
        let f = self.fail_in.get();
        self.fail_in.set(f - 1);
        if f == 0 {
            self.hit.set(true);
            return Err(R1CSError::HashNotFoundInDB { hash: h.to_vec() });
        }
        self.inner.get(h)
    }
}
impl<T: Clone> FaultyDb<T> {
    fn new() -> Self {
        FaultyDb { inner: InMemoryHashDb::new(), fail_in: Cell::new(-1), reads: Cell::new(0), hit: Cell::new(false) }
    }
}

fn rand_index(r: &mut Rng, arity: usize, depth: usize, used: &[Digits], style: usize) -> Digits {
    let mut d: Digits = (0..depth).map(|_| r.below(arity) as u8).collect();
    match style % 6 {
        0 => {}
        1 if !used.is_empty() => {
            // near an existing one: one digit changed
            d = r.pick(used).clone();
            let k = r.below(depth);
            d[k] = r.below(arity) as u8;
        }
        2 if !used.is_empty() => d = r.pick(used).clone(),
        3 => d = vec![[0, arity as u8 - 1][r.below(2)]; depth],
        4 => {
            // few leaves of a narrow sub-tree
            for k in 0..depth.saturating_sub(1) {
                d[k] = 0;
            }
        }
        _ => {
            for k in 1..depth {
                d[k] = d[0];
            }
        }
    }
    d
}

macro_rules! tree_checks {
    ($modn:ident, $tree:ident, $node:ident, $val:ident, $arity:expr, $width:expr) => {
        pub mod $modn {
            use super::*;
            fn to_path(p: &[$node]) -> Vec<Vec<FE>> {
                p.iter().map(|n| n.to_vec()).collect()
            }
            fn from_path(p: &[Vec<FE>]) -> Vec<$node> {
                p.iter()
                    .map(|n| {
                        let mut a: $node = Default::default();
                        a.clone_from_slice(n);
                        a
                    })
                    .collect()
            }
            /// run a history of updates and look at everything after each of them
            pub fn history(ctx: &mut Ctx, depth: usize, n: usize, style: usize, pf: (usize, usize, usize)) {
                let mut r = ctx.rng.fork();
                let p = params($width, pf.0, pf.1, pf.2);
                let mut db = FaultyDb::<$val>::new();
                let mut t = $tree::new(&p, depth, &mut db);
                let mut map: BTreeMap<Digits, FE> = BTreeMap::new();
                let mut used: Vec<Digits> = vec![];
                let mut olds: Vec<(FE, BTreeMap<Digits, FE>)> = vec![];
                let e = Ref::build(&map, $arity, depth, &p).root();
                ctx.check(t.root == e, "empty root", &|| format!("root of the empty tree of depth {}", depth));
                for step in 0..n {
                    let st = style + r.below(6);
                    let k = rand_index(&mut r, $arity, depth, &used, st);
                    let i = digits_to_fe(&k, $arity);
                    let v = match r.below(7) {
                        0 => FE::zero(),
                        1 if !used.is_empty() => map[&used[r.below(used.len())]].clone(),
                        2 => t.root.clone(),
                        3 => i.clone(),
                        _ => r.fe_mixed(),
                    };
                    olds.push((t.root.clone(), map.clone()));
                    if r.chance(1, 6) {
                        // a store that fails during the update: error, nothing changes
                        let before = t.root.clone();
                        db.fail_in.set(r.below(depth) as i64);
                        db.hit.set(false);
                        let res = guard(|| t.update(&i, v.clone(), &mut db));
                        db.fail_in.set(-1);
                        let hit = db.hit.get();
                        let ok = match &res {
                            Ok(Err(_)) => t.root == before,
                            Ok(Ok(_)) => !hit,
                            Err(_) => false,
                        };
                        ctx.count("faults_injected", 1);
                        ctx.check(ok, &format!("fault step {}", step), &|| {
                            format!("update over a failing store: panicked={} root changed={}", res.is_err(), t.root != before)
                        });
                    }
                    let res = match guard(|| t.update(&i, v.clone(), &mut db)) {
                        Ok(Ok(x)) => x,
                        o => {
                            ctx.check(false, "update", &|| format!("update failed: {:?}", o));
                            return;
                        }
                    };
                    map.insert(k.clone(), v.clone());
                    if !used.contains(&k) {
                        used.push(k.clone());
                    }
                    let rf = Ref::build(&map, $arity, depth, &p);
                    ctx.count("updates", 1);
                    let sig = |s: &str| format!("{} d={} step {}", s, depth, step);
                    ctx.check(t.root == rf.root() && res == rf.root(), &sig("root"), &|| {
                        format!("arity {} depth {} after {} updates: root differs from the definition", $arity, depth, step + 1)
                    });
                    // read back: everything written, and neighbours never written
                    let mut probes: Vec<Digits> = used.clone();
                    r.shuffle(&mut probes);
                    probes.truncate(4);
                    probes.push(k.clone());
                    for s in 0..3 {
                        probes.push(rand_index(&mut r, $arity, depth, &used, s));
                    }
                    for q in &probes {
                        let qi = digits_to_fe(q, $arity);
                        let want = map.get(q).cloned().unwrap_or(FE::zero());
                        let with_proof = r.chance(1, 2);
                        let mut pr = if with_proof { Some(vec![]) } else { None };
                        let got = guard(|| t.get(&qi, &mut pr, &db));
                        ctx.check(got == Ok(Ok(want.clone())), &sig(&format!("get {:?}", q)), &|| {
                            format!("arity {} depth {}: get returned {:?}", $arity, depth, got)
                        });
                        ctx.count("reads", 1);
                        if let Some(pr) = pr {
                            ctx.check(to_path(&pr) == rf.path(q), &sig(&format!("path {:?}", q)), &|| {
                                format!("arity {} depth {}: siblings returned by get are not those of the definition", $arity, depth)
                            });
                            if got.is_ok() {
                                proofs(ctx, &mut r, &t, &p, q, &want, &to_path(&pr), &rf, &map, &olds, step);
                            }
                        }
                    }
                    // older roots stay readable
                    for _ in 0..2 {
                        let (oroot, omap) = r.pick(&olds).clone();
                        let mut old = t.clone();
                        old.root = oroot;
                        let q = probes[r.below(probes.len())].clone();
                        let got = guard(|| old.get(&digits_to_fe(&q, $arity), &mut None, &db));
                        let want = omap.get(&q).cloned().unwrap_or(FE::zero());
                        ctx.check(got == Ok(Ok(want)), &sig("old root"), &|| format!("an older root reads {:?}", got));
                        ctx.count("old_reads", 1);
                    }
                }
                // same contents by other histories, in the same and in a fresh store
                for h in 0..2 {
                    let mut order: Vec<Digits> = used.clone();
                    r.shuffle(&mut order);
                    let mut db2 = FaultyDb::<$val>::new();
                    let shared = h == 0;
                    let d: &mut FaultyDb<$val> = if shared { &mut db } else { &mut db2 };
                    let mut t2 = $tree::new(&p, depth, d);
                    if r.chance(1, 2) {
                        for k in order.iter() {
                            let junk = r.fe();
                            let _ = t2.update(&digits_to_fe(k, $arity), junk, d);
                        }
                        let k = rand_index(&mut r, $arity, depth, &used, 0);
                        if !map.contains_key(&k) {
                            let _ = t2.update(&digits_to_fe(&k, $arity), r.fe(), d);
                            let _ = t2.update(&digits_to_fe(&k, $arity), FE::zero(), d);
                        }
                    }
                    for k in order.iter() {
                        let _ = t2.update(&digits_to_fe(k, $arity), map[k].clone(), d);
                    }
                    ctx.check(t2.root == t.root, &format!("order {} d={} n={}", h, depth, n), &|| {
                        format!("arity {} depth {}: the same contents written in another order give another root", $arity, depth)
                    });
                    ctx.count("other_orders", 1);
                }
            }
            fn proofs(
                ctx: &mut Ctx, r: &mut Rng, t: &$tree, p: &PoseidonParams, k: &Digits, v: &FE, path: &[Vec<FE>], rf: &Ref,
                map: &BTreeMap<Digits, FE>, olds: &[(FE, BTreeMap<Digits, FE>)], step: usize,
            ) {
                let depth = rf.depth;
                let mut one = |ctx: &mut Ctx, k: &Digits, v: &FE, path: &[Vec<FE>], root: Option<&FE>, what: &str| {
                    let want = ref_verify(k, v, path, &root.cloned().unwrap_or(rf.root()), p);
                    let got = guard(|| t.verify_proof(&digits_to_fe(k, $arity), v, &from_path(path), root));
                    ctx.count(if want { "proofs_true" } else { "proofs_false" }, 1);
                    ctx.check(got == Ok(want), &format!("{} {:?} step {}", what, k, step), &|| {
                        format!("arity {} depth {} {}: verify_proof gives {:?}, by definition {}", $arity, depth, what, got, want)
                    });
                };
                let root = rf.root();
                one(ctx, k, v, path, None, "valid");
                one(ctx, k, v, path, Some(&root), "valid, root given");
                // other value
                one(ctx, k, &(v + &FE::one()), path, None, "value+1");
                one(ctx, k, &v.negation(), path, None, "negated value");
                one(ctx, k, &r.fe(), path, None, "random value");
                if let Some(o) = map.values().next() {
                    one(ctx, k, o, path, None, "value of another index");
                }
                // other index: every digit changed at least once
                for lv in 0..depth {
                    if depth > 12 && !r.chance(8, depth) {
                        continue;
                    }
                    let mut q = k.clone();
                    q[lv] = ((q[lv] as usize + 1 + r.below($arity - 1)) % $arity) as u8;
                    one(ctx, &q, v, path, None, "other digit");
                }
                let mut q = k.clone();
                q.reverse();
                one(ctx, &q, v, path, None, "reversed digits");
                // other root
                one(ctx, k, v, path, Some(&r.fe()), "random root");
                one(ctx, k, v, path, Some(v), "value as root");
                if let Some((o, _)) = olds.last() {
                    one(ctx, k, v, path, Some(o), "older root");
                }
                // altered path
                let lv = r.below(depth);
                let j = r.below($arity - 1);
                let mut m = path.to_vec();
                m[lv][j] = &m[lv][j] + &FE::one();
                one(ctx, k, v, &m, None, "altered sibling");
                for lv in 0..depth.min(4) {
                    let mut m = path.to_vec();
                    let a = r.below($arity - 1);
                    m[lv][a] = r.fe();
                    one(ctx, k, v, &m, None, "replaced sibling");
                    let mut m = path.to_vec();
                    m[lv].reverse();
                    one(ctx, k, v, &m, None, "reversed siblings");
                }
                let mut m = path.to_vec();
                m.reverse();
                one(ctx, k, v, &m, None, "reversed path");
                // wrong length
                let mut m = path.to_vec();
                m.pop();
                one(ctx, k, v, &m, None, "path without leaf level");
                let m = path[1..].to_vec();
                one(ctx, k, v, &m, None, "path without root level");
                let mut m = path.to_vec();
                m.push(vec![FE::zero(); $arity - 1]);
                one(ctx, k, v, &m, None, "path with a level more below");
                let mut m = path.to_vec();
                m.insert(0, vec![FE::zero(); $arity - 1]);
                one(ctx, k, v, &m, None, "path with a level more above");
                one(ctx, k, v, &[], None, "empty path");
                one(ctx, k, &root, &[], None, "root as value, empty path");
                // an inner node presented as a leaf with the shorter path
                if depth > 1 {
                    one(ctx, k, &rf.node(&k[..depth - 1]), &path[..depth - 1], None, "inner node as leaf");
                }
            }
            /// every index of a small tree, all leaves different
            pub fn full(ctx: &mut Ctx, depth: usize) {
                let mut r = ctx.rng.fork();
                let p = params($width, 1, 1, 1);
                let mut db = FaultyDb::<$val>::new();
                let mut t = $tree::new(&p, depth, &mut db);
                let n = ($arity as usize).pow(depth as u32);
                let mut map = BTreeMap::new();
                let mut order: Vec<usize> = (0..n).collect();
                r.shuffle(&mut order);
                for i in order {
                    let mut k = vec![0u8; depth];
                    let mut x = i;
                    for lv in (0..depth).rev() {
                        k[lv] = (x % $arity) as u8;
                        x /= $arity;
                    }
                    let v = r.fe();
                    map.insert(k, v.clone());
                    let ok = guard(|| t.update(&fe(i as u64), v, &mut db));
                    ctx.check_trivial(match &ok { Ok(Ok(_)) => true, _ => false }, "update", &|| "update failed".into());
                }
                let rf = Ref::build(&map, $arity, depth, &p);
                ctx.check(t.root == rf.root(), &format!("full tree depth {}", depth), &|| {
                    format!("arity {}: root of the full tree of depth {} differs from the definition", $arity, depth)
                });
                for (k, v) in &map {
                    let mut pr = Some(vec![]);
                    let got = guard(|| t.get(&digits_to_fe(k, $arity), &mut pr, &db));
                    ctx.check(got == Ok(Ok(v.clone())), &format!("get {:?}", k), &|| format!("get {:?} returned {:?}", k, got));
                    let pr = to_path(&pr.unwrap());
                    ctx.check(pr == rf.path(k), &format!("path {:?}", k), &|| format!("path of {:?}", k));
                    if r.chance(64, n.max(64)) {
                        proofs(ctx, &mut r, &t, &p, k, v, &pr, &rf, &map, &[], 0);
                    }
                }
            }
        }
    };
}
tree_checks!(t4, VanillaSparseMerkleTree_4, ProofNode_4_ary, DBVal_4_ary, 4, 5);
tree_checks!(t8, VanillaSparseMerkleTree_8, ProofNode_8_ary, DBVal_8_ary, 8, 9);

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Histories of updates on both trees (clustered, colliding, boundary and deep indices, zero and \
         repeated values, failing store) with every root, read, sibling list and old root compared with a \
         reference map computed from the definition after each step; every returned proof is verified as \
         is and with every digit, value, root, sibling, order and length altered, each verdict compared \
         with the definition. Distinct by tree, depth, index and alteration.",
    );
    s.assume("an index is taken modulo arity^depth; indices are compared by their low digits");
    let f = if o.thorough { 12 } else { 1 };
    // the native tree code is the same on both backends: the real one carries the load
    let k = 1;
    for d in 1..=3 {
        s.add(format!("4-ary full depth {}", d), move |c| t4::full(c, d));
    }
    for d in 1..=2 {
        s.add(format!("8-ary full depth {}", d), move |c| t8::full(c, d));
    }
    let depths4 = vec![1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 126];
    let depths8 = vec![1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 21, 22, 32, 43, 84];
    for rep in 0..k * f {
        for st in 0..if SIM && !o.thorough { 1 } else { 3 } {
            for d in depths4.clone() {
                let n = if d > 40 { 3 } else if d > 12 { 6 } else { 14 };
                s.add(format!("4-ary depth {} style {} #{}", d, st, rep), move |c| {
                    t4::history(c, d, n, st * 2, [(1, 1, 0), (1, 1, 1), (2, 2, 3)][(rep + st) % 3])
                });
            }
            for d in depths8.clone() {
                let n = if d > 40 { 2 } else if d > 12 { 4 } else { 10 };
                s.add(format!("8-ary depth {} style {} #{}", d, st, rep), move |c| {
                    t8::history(c, d, n, st * 2, [(1, 1, 0), (1, 1, 1), (2, 2, 3)][(rep + st) % 3])
                });
            }
        }
    }
    s
}
