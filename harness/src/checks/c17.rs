//! C17: randomizer proofs and index selection.
use crate::gadgets::*;
use crate::runner::*;
use crate::solver::*;
use crate::util::*;
use amcl_wrapper::amcl::sha3::{SHA3, SHAKE256};
use amcl_wrapper::constants::MODBYTES;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use std::collections::HashSet;
use std::sync::Arc;

fn rp(r: &mut Rng) -> Arc<PoseidonParams> {
    let q = *r.pick(&[(1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)]);
    params(5, q.0, q.1, q.2)
}
/// original tree, new tree changed at `idx`, plus `extra` changes elsewhere
fn make(r: &mut Rng, depth: usize, idx: &[u64], extra: &[u64], p: Arc<PoseidonParams>) -> Rz {
    let n = 4u64.pow(depth as u32);
    let mut orig = vec![];
    for i in 0..n.min(24) {
        let i = if n <= 24 { i } else { r.next() % n };
        if r.chance(3, 4) {
            orig.push((fe(i), r.fe_mixed()));
        }
    }
    for i in idx {
        if r.chance(2, 3) {
            orig.push((fe(*i), r.fe_mixed()));
        }
    }
    let mut new = orig.clone();
    for i in idx {
        match r.below(6) {
            0 => {}                              // unchanged after all
            1 => new.push((fe(*i), FE::zero())), // removed
            _ => new.push((fe(*i), r.fe())),
        }
    }
    for i in extra {
        new.push((fe(*i), r.fe()));
    }
    Rz { orig, new, idx: idx.iter().map(|i| fe(*i)).collect(), depth, params: p }
}
fn pick_idx(r: &mut Rng, depth: usize, k: usize) -> Vec<u64> {
    let n = 4u64.pow(depth as u32);
    let mut v: Vec<u64> = vec![];
    let base = r.next() % n;
    while v.len() < k {
        // clustered: siblings, cousins, or anything
        let x = match r.below(3) {
            0 => (base & !3) + r.next() % 4,
            1 => (base & !15).wrapping_add(r.next() % 16) % n,
            _ => r.next() % n,
        } % n;
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
fn honest_case(ctx: &mut Ctx, depth: usize, idx: Vec<u64>, full: bool) {
    let mut r = ctx.rng.fork();
    let p = if full { params(5, 4, 4, 50) } else { rp(&mut r) };
    let z = make(&mut r, depth, &idx, &[], p);
    honest(ctx, &Gd::Randomizer(z), &format!("depth {} indices {:?}", depth, idx));
}
/// the committed values an honest prover would use
fn committed(z: &Rz) -> Vec<FE> {
    let (t, db) = tree4(&z.params, z.depth, &z.orig);
    let mut v = vec![t.root.clone()];
    for i in &z.idx {
        let mut pr = Some(vec![]);
        v.push(t.get(i, &mut pr, &db).expect("get"));
        for n in pr.unwrap() {
            v.extend(n.iter().cloned());
        }
    }
    v
}
fn fix(v: &[FE], root: bool) -> Vec<(usize, FE)> {
    v.iter().cloned().enumerate().skip(if root { 0 } else { 1 }).collect()
}
fn false_case(ctx: &mut Ctx, depth: usize, k: usize) {
    let mut r = ctx.rng.fork();
    let idx = pick_idx(&mut r, depth, k);
    let n = 4u64.pow(depth as u32);
    let p = rp(&mut r);
    let s = |x: &str| format!("depth {} indices {:?} {}", depth, idx, x);
    // differences elsewhere: sibling, cousin, far
    let mut outs: Vec<u64> = vec![];
    for _ in 0..4 {
        let b = idx[r.below(idx.len())];
        outs.push(match r.below(3) {
            0 => (b & !3) + r.next() % 4,
            1 => r.next() % n,
            _ => (b + n / 2) % n,
        });
    }
    outs.retain(|x| !idx.contains(x));
    for x in outs {
        let z = make(&mut r, depth, &idx, &[x], p.clone());
        let gd = Gd::Randomizer(z.clone());
        false_claim(ctx, &gd, &gd, &s(&format!("differs at {}", x)));
        if SIM && depth <= 2 {
            let c = committed(&z);
            attack(ctx, &gd, &fix(&c, true), None, 1500, &s(&format!("differs at {} search", x)));
            attack(ctx, &gd, &fix(&c, false), None, 1500, &s(&format!("differs at {} search, any root", x)));
        }
    }
    let z = make(&mut r, depth, &idx, &[], p.clone());
    let gd = Gd::Randomizer(z.clone());
    // an index missing from the list although changed there
    if k > 1 {
        let mut w = make(&mut r, depth, &idx, &[idx[k - 1]], p.clone());
        let drop = w.idx.pop().unwrap();
        let changed = {
            let (a, da) = tree4(&w.params, depth, &w.orig);
            let (b, db) = tree4(&w.params, depth, &w.new);
            a.get(&drop, &mut None, &da).ok() != b.get(&drop, &mut None, &db).ok()
        };
        if changed {
            let g2 = Gd::Randomizer(w);
            false_claim(ctx, &g2, &g2, &s("index missing"));
        }
        // indices exchanged between prover and verifier
        let mut w = z.clone();
        w.idx.swap(0, 1);
        let c = committed(&z);
        let c2 = committed(&w);
        if c != c2 {
            false_claim(ctx, &gd, &Gd::Randomizer(w), &s("indices exchanged"));
        }
    }
    // another list of indices for the verifier
    let mut w = z.clone();
    let other = (0..n).find(|x| !idx.contains(x) && r.chance(1, 2)).unwrap_or(n);
    if other < n {
        w.idx[0] = fe(other);
        // only false when the committed value or siblings do not fit there
        if committed(&z) != committed(&w) {
            false_claim(ctx, &gd, &Gd::Randomizer(w), &s("other index"));
        }
    }
    // committed values that are not those of the original tree
    if SIM && depth <= 2 {
        let c = committed(&z);
        let per = 1 + 3 * depth;
        for i in 0..k {
            let mut f = c.clone();
            f[1 + i * per] = &f[1 + i * per] + &r.fe_nonzero();
            attack(ctx, &gd, &fix(&f, true), None, 1500, &s(&format!("value {} wrong", i)));
            if k > 1 {
                // the path of every other index still contains the old value
                attack(ctx, &gd, &fix(&f, false), None, 1500, &s(&format!("value {} wrong, any root", i)));
            }
            let mut f = c.clone();
            let q = 2 + i * per + r.below(3 * depth);
            f[q] = &f[q] + &r.fe_nonzero();
            attack(ctx, &gd, &fix(&f, true), None, 1500, &s(&format!("sibling of {} wrong", i)));
            attack(ctx, &gd, &fix(&f, false), None, 1500, &s(&format!("sibling of {} wrong, any root", i)));
        }
        let mut f = c.clone();
        f[0] = r.fe();
        attack(ctx, &gd, &fix(&f, true), None, 1500, &s("root wrong"));
        let mut f = c.clone();
        let (nt, _) = tree4(&z.params, depth, &z.new);
        f[0] = nt.root.clone();
        if f[0] != c[0] {
            attack(ctx, &gd, &fix(&f, true), None, 1500, &s("root of the new tree"));
        }
    }
}

/// selection from the nonce, by its definition
fn ref_select(nonce: &FE, size: u64, count: usize) -> Vec<u64> {
    let mut h = SHA3::new(SHAKE256);
    for b in nonce.to_bytes() {
        h.process(b);
    }
    let len = 2 * count * MODBYTES;
    let mut t = vec![0u8; len];
    h.shake(&mut t, len);
    let mut v: Vec<u64> = vec![];
    for c in t.chunks(MODBYTES) {
        if v.len() >= count {
            break;
        }
        let n = FE::from_bytes(c).expect("bytes").to_bytes();
        let mut rem: u128 = 0;
        for b in n {
            rem = ((rem << 8) | b as u128) % size as u128;
        }
        if !v.contains(&(rem as u64)) {
            v.push(rem as u64);
        }
    }
    v
}
fn select_case(ctx: &mut Ctx, size: u64, count: usize) {
    let mut r = ctx.rng.fork();
    for k in 0..4 {
        let nonce = if k == 0 { r.fe_mixed() } else { r.fe() };
        let sig = format!("select size {} count {} #{}", size, count, k);
        let got = match ctx.total(&sig, || get_indices_to_modify(&nonce, size as usize, count)) {
            Some(g) => g,
            None => continue,
        };
        let want: HashSet<FE> = ref_select(&nonce, size, count).into_iter().map(fe).collect();
        ctx.check(got == want, &sig, &|| {
            format!("size {} count {}: selected {:?}, by definition {:?}", size, count,
                got.iter().map(shex).collect::<Vec<_>>(), want.iter().map(shex).collect::<Vec<_>>())
        });
        let again = get_indices_to_modify(&nonce, size as usize, count);
        ctx.check(again == got, &format!("{} again", sig), &|| "two selections with one nonce differ".into());
        if size >= 4096 * count as u64 {
            ctx.check(got.len() == count, &format!("{} number", sig), &|| format!("{} indices instead of {}", got.len(), count));
            let b = nonce.to_bytes();
            let mut other = b.clone();
            let i = b.len() - 1 - r.below(31);
            other[i] ^= 1 << r.below(8);
            if let Ok(n2) = FE::from_bytes(&other) {
                if n2 != nonce && count > 2 {
                    let o = get_indices_to_modify(&n2, size as usize, count);
                    ctx.check(o != got, &format!("{} nonce", sig), &|| format!("byte {} of the nonce does not matter", i));
                }
            }
        }
        ctx.count("selections", 1);
    }
}
fn data_case(ctx: &mut Ctx, size: usize, count: usize) {
    let mut r = ctx.rng.fork();
    let data: Vec<FE> = (0..size).map(|_| if r.chance(1, 3) { fe(5) } else { r.fe_mixed() }).collect();
    let nonce = r.fe();
    let idx = get_indices_to_modify(&nonce, size, count);
    let sig = format!("data {} {}", size, count);
    let (modified, new) = match ctx.total(&sig, || get_randomized_data(&fev(&data), &idx)) {
        Some(x) => x,
        None => return,
    };
    ctx.check(new.len() == size && modified.len() == idx.len(), &sig, &|| {
        format!("{} values out of {}, {} reported out of {}", new.len(), size, modified.len(), idx.len())
    });
    for i in 0..size.min(new.len()) {
        let sel = idx.contains(&fe(i as u64));
        let same = new[i] == data[i];
        ctx.check(same != sel, &format!("{} at {}", sig, i), &|| format!("index {} selected {} unchanged {}", i, sel, same));
        if sel {
            ctx.check(modified.get(&fe(i as u64)) == Some(&data[i]), &format!("{} original {}", sig, i), &|| {
                format!("original value of index {} is not reported", i)
            });
        }
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Pairs of trees differing at the listed indices (every index set of depth 1, clustered and spread sets \
         of deeper trees, unchanged and deleted leaves) must have accepted proofs; trees that differ elsewhere, \
         exchanged or missing indices, and committed values, siblings or roots that are not the original tree's \
         must not, for the library's prover and for a prover searching the verifier's recorded constraints. \
         Index selection is compared with its definition over a SHAKE stream. Distinct by index set and alteration.",
    );
    let th = o.thorough;
    if SIM {
        for m in 1..16u64 {
            for rep in 0..2 {
                s.add(format!("depth 1 set {} #{}", m, rep), move |c| {
                    let mut v: Vec<u64> = (0..4).filter(|i| (m >> i) & 1 == 1).collect();
                    c.rng.shuffle(&mut v);
                    honest_case(c, 1, v, false)
                });
            }
        }
        for d in 2..=if th { 9 } else { 6 } {
            for i in 0..if th { 60 } else { 12 } {
                s.add(format!("depth {} #{}", d, i), move |c| {
                    let k = 1 + i % 6;
                    let v = pick_idx(&mut c.rng, d, k);
                    honest_case(c, d, v, false)
                });
            }
        }
        s.add("full-size hash", |c| honest_case(c, 1, vec![2, 1], true));
        for d in 1..=3 {
            for i in 0..if th { 200 } else { 20 } {
                s.add(format!("false depth {} #{}", d, i), move |c| {
                    let k = 1 + i % if d == 1 { 3 } else { 4 };
                    false_case(c, d, k)
                });
            }
        }
    } else {
        for d in 1..=2 {
            for k in 1..=2 {
                s.add(format!("depth {} indices {}", d, k), move |c| {
                    let v = pick_idx(&mut c.rng, d, k);
                    honest_case(c, d, v, false)
                });
                s.add(format!("false depth {} indices {}", d, k), move |c| false_case(c, d, k));
            }
        }
    }
    for &size in &[1u64, 2, 3, 4, 5, 7, 16, 64, 100, 255, 256, 257, 1000, 1 << 16, 65537, 1_000_003, 1 << 32, (1 << 40) + 7] {
        for &count in &[1usize, 2, 3, 5, 10, 37, 64] {
            s.add(format!("select {} {}", size, count), move |c| select_case(c, size, count));
        }
    }
    for &size in &[1usize, 2, 10, 64, 300] {
        for &count in &[1usize, 3, 20] {
            s.add(format!("data {} {}", size, count), move |c| data_case(c, size, count));
        }
    }
    s
}
