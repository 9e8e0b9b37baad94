//! C19: serialized proofs.
use crate::prog::*;
use crate::refp::*;
use crate::runner::*;
use crate::subject::*;
use crate::util::*;
use bulletproofs_amcl::ipp::InnerProductArgumentProof;
use serde_json::{json, Value};

type P = R1CSProof;
/// every way through the formats at hand
fn trips(ctx: &mut Ctx, p: &P, sig: &str) -> Vec<(&'static str, P)> {
    let mut out = vec![];
    let text = serde_json::to_string(p).expect("json");
    macro_rules! way {
        ($n:expr, $e:expr) => {
            match guard(|| $e) {
                Ok(Ok(q)) => out.push(($n, q)),
                Ok(Err(e)) => {
                    ctx.check(false, &format!("{} {}", sig, $n), &|| format!("a serialized proof cannot be read back ({}): {}", $n, e));
                }
                Err(e) => {
                    ctx.check(false, &format!("{} {}", sig, $n), &|| format!("reading a serialized proof panicked ({}): {}", $n, e));
                }
            }
        };
    }
    way!("text", serde_json::from_str::<P>(&text).map_err(|e| e.to_string()));
    way!("bytes", serde_json::from_slice::<P>(&serde_json::to_vec(p).unwrap()).map_err(|e| e.to_string()));
    way!("reader", serde_json::from_reader::<_, P>(text.as_bytes()).map_err(|e| e.to_string()));
    way!("pretty", serde_json::from_str::<P>(&serde_json::to_string_pretty(p).unwrap()).map_err(|e| e.to_string()));
    way!("value", serde_json::from_value::<P>(serde_json::to_value(p).unwrap()).map_err(|e| e.to_string()));
    way!("binary", bincode::serialize(p).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize::<P>(&b).map_err(|e| e.to_string())));
    for (n, q) in &out {
        let again = serde_json::to_string(q).expect("json");
        ctx.check(again == text, &format!("{} {} same text", sig, n), &|| format!("reading back through {} gives another proof:\n{}\n{}", n, text, again));
        let (a, b) = (bincode::serialize(p).ok(), bincode::serialize(q).ok());
        ctx.check(a.is_some() && a == b, &format!("{} {} same bytes", sig, n), &|| "binary form differs after reading back".into());
    }
    ctx.count("round_trips", out.len() as u64);
    out
}
fn subj(ctx: &mut Ctx, kind: usize, size: usize) {
    let mut r = ctx.rng.fork();
    let s = match any_subj(&mut r, kind, size) {
        Ok(s) => s,
        Err(e) => {
            ctx.check(false, "prove", &|| format!("{:?}", e));
            return;
        }
    };
    // as the prover returned it (the subject holds the proof as text already)
    let p = jp(&s.proof);
    let sig = s.desc.clone();
    for (n, q) in trips(ctx, &p, &sig) {
        let v = s.verify_with(&pj(&q), &s.comms, s.label, &s.gn);
        ctx.check(v.is_ok(), &format!("{} {} accepted", sig, n), &|| format!("proof of {} rejected after {}: {:?}", sig, n, v));
    }
    // a broken proof stays the same broken proof
    for k in 0..4 {
        let mut t = s.proof.clone();
        let what = crate::checks::c02::tamper(&mut t, &mut r);
        let p = jp(&t);
        ctx.check(pj(&p) == t, &format!("{} tampered {} kept", sig, k), &|| format!("element {} is not what the text says", what));
        for (n, q) in trips(ctx, &p, &format!("{} tampered {}", sig, k)) {
            let v = s.verify_with(&pj(&q), &s.comms, s.label, &s.gn);
            ctx.check(v.is_err(), &format!("{} {} tampered {}", sig, n, what), &|| format!("altered {} accepted after {}", what, n));
        }
    }
}
/// the proof object itself, never having been text
fn direct(ctx: &mut Ctx, i: usize) {
    let mut r = ctx.rng.fork();
    let cfg = random_cfg(&mut r, false);
    let prog = gen_prog(&mut r, &cfg);
    let gn = gens(pow2((cfg.n1 + cfg.n2 + 2).max(1)) * 2);
    let (p, _) = prove_prog(&prog, &gn, b"c19", &POpts::default());
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ctx.check(false, "prove", &|| format!("{:?}", e));
            return;
        }
    };
    let sig = format!("direct {} {}", i, prog.desc);
    for wrong in 0..2 {
        let mut comms = p.comms.clone();
        if wrong == 1 {
            if comms.is_empty() {
                continue;
            }
            let k = r.below(comms.len());
            comms[k] = &comms[k] + &gn.g;
        }
        let want = verify_prog(&prog, &gn, b"c19", &p.proof, &comms, false).0;
        for (n, q) in trips(ctx, &p.proof, &sig) {
            let got = verify_prog(&prog, &gn, b"c19", &q, &comms, false).0;
            ctx.check(got == want, &format!("{} {} {}", sig, n, wrong), &|| format!("verdict {:?} becomes {:?} after {}", want, got, n));
        }
    }
}
fn elem_paths(k: usize) -> Vec<(Vec<String>, bool)> {
    let mut v: Vec<(Vec<String>, bool)> = vec![];
    for p in POINTS.iter() {
        v.push((vec![p.to_string()], true));
    }
    for p in SCALARS.iter() {
        v.push((vec![p.to_string()], false));
    }
    for p in ["a", "b"].iter() {
        v.push((vec!["ipp_proof".into(), p.to_string()], false));
    }
    for w in ["L", "R"].iter() {
        for i in 0..k {
            v.push((vec!["ipp_proof".into(), w.to_string(), "elems".into(), i.to_string()], true));
        }
    }
    v
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut x = v;
    for p in path {
        x = match p.parse::<usize>() {
            Ok(i) if x.is_array() => &mut x[i],
            _ => &mut x[p.as_str()],
        };
    }
    x
}
/// a proof made of unrelated elements: each must come back in its own place
fn arbitrary(ctx: &mut Ctx, k: usize, i: usize) {
    let mut r = ctx.rng.fork();
    let mut v = blank(k);
    let paths = elem_paths(k);
    for (p, point) in &paths {
        *at(&mut v, p) = if *point {
            match r.below(6) {
                0 => g1_json(&G1::identity()),
                _ => g1_json(&r.g1()),
            }
        } else {
            fe_json(&r.fe_mixed())
        };
    }
    let text = v.to_string();
    let sig = format!("arbitrary {} rounds #{}", k, i);
    let p = match guard(|| serde_json::from_str::<P>(&text)) {
        Ok(Ok(p)) => p,
        e => {
            let e = format!("{:?}", e.map(|x| x.map(|_| ())));
            ctx.check(false, &sig, &|| format!("well-formed proof refused: {}", e));
            return;
        }
    };
    let got = serde_json::to_value(&p).unwrap();
    let mut got2 = got.clone();
    let mut v2 = v.clone();
    for (path, _) in &paths {
        let (a, b) = (at(&mut v2, path).clone(), at(&mut got2, path).clone());
        ctx.check(a == b, &format!("{} {:?}", sig, path), &|| format!("{:?}: {} became {}", path, a, b));
    }
    trips(ctx, &p, &sig);
    // the fields the verifier sees are the ones written: one element changed, one element differs
    let (path, point) = r.pick(&paths).clone();
    let mut w = v.clone();
    *at(&mut w, &path) = if point { g1_json(&r.g1()) } else { fe_json(&r.fe()) };
    if w != v {
        let q = serde_json::from_value::<P>(w).unwrap();
        ctx.check(bincode::serialize(&q).ok() != bincode::serialize(&p).ok(), &format!("{} distinct {:?}", sig, path), &|| {
            format!("{:?} does not enter the serialized form", path)
        });
    }
    // the inner-product proof alone
    let ip = v["ipp_proof"].clone();
    let q = guard(|| serde_json::from_value::<InnerProductArgumentProof>(ip.clone()));
    let ok = match &q { Ok(Ok(q)) => serde_json::to_value(q).ok() == Some(ip.clone()), _ => false };
    ctx.check(ok, &format!("{} ipp", sig), &|| "inner-product proof does not round-trip".into());
    if let Ok(Ok(q)) = q {
        let b = bincode::serialize(&q).unwrap_or_default();
        let back = bincode::deserialize::<InnerProductArgumentProof>(&b);
        let same = match back { Ok(x) => serde_json::to_value(&x).ok() == Some(ip), _ => false };
        ctx.check(same, &format!("{} ipp binary", sig), &|| "inner-product proof does not round-trip (binary)".into());
    }
}
fn refuse(ctx: &mut Ctx, text: &str, sig: &str) {
    let g = guard(|| serde_json::from_str::<P>(text).map(|_| ()));
    ctx.count("malformed", 1);
    ctx.check(match &g { Ok(Err(_)) => true, _ => false }, sig, &|| match &g {
        Err(p) => format!("malformed text ({}) panicked: {}", sig, p),
        _ => format!("malformed text ({}) was read as a proof", sig),
    });
}
fn malformed(ctx: &mut Ctx, k: usize) {
    let mut r = ctx.rng.fork();
    let mut v = blank(k);
    for (p, point) in elem_paths(k) {
        *at(&mut v, &p) = if point { g1_json(&r.g1()) } else { fe_json(&r.fe()) };
    }
    let text = v.to_string();
    let mut all = elem_paths(k);
    all.push((vec!["ipp_proof".into()], false));
    for w in ["L", "R"].iter() {
        all.push((vec!["ipp_proof".into(), w.to_string()], false));
        all.push((vec!["ipp_proof".into(), w.to_string(), "elems".into()], false));
    }
    for (path, _) in &all {
        let leaf = path.last().unwrap().clone();
        let s = |x: &str| format!("{} rounds {:?} {}", k, path, x);
        // missing
        if leaf.parse::<usize>().is_err() {
            let mut w = v.clone();
            at(&mut w, &path[..path.len() - 1]).as_object_mut().unwrap().remove(&leaf);
            refuse(ctx, &w.to_string(), &s("missing"));
            // twice
            let mut w = v.clone();
            let o = at(&mut w, &path[..path.len() - 1]).clone();
            let t = o.to_string();
            let entry = format!("\"{}\":{}", leaf, o[leaf.as_str()]);
            let twice = format!("{{{},{}", entry, &t[1..]);
            refuse(ctx, &text.replacen(&t, &twice, 1), &s("twice"));
        }
        for (n, x) in vec![
            ("null", Value::Null),
            ("number", json!(1)),
            ("bool", json!(true)),
            ("array", json!([1])),
            ("object", json!({"x": 1})),
            ("not hex", json!("zz zz zz")),
            ("too long", json!("f".repeat(400))),
        ] {
            let mut w = v.clone();
            *at(&mut w, path) = x;
            refuse(ctx, &w.to_string(), &s(n));
        }
    }
    // every prefix
    let step = if ctx.thorough || k == 0 { 1 } else { 7 };
    let mut i = 0;
    while i < text.len() {
        refuse(ctx, &text[..i], &format!("{} rounds first {} bytes", k, i));
        i += step;
    }
    for t in vec![" x", "{}", ",", "}", "null"] {
        refuse(ctx, &format!("{}{}", text, t), &format!("{} rounds trailing {}", k, t));
    }
    for t in vec!["", "null", "{}", "[]", "\"\"", "1", "[[]]", "{\"ipp_proof\":{}}"] {
        refuse(ctx, t, &format!("{} rounds instead {}", k, t));
    }
    // binary: every prefix, too
    let b = bincode::serialize(&serde_json::from_value::<P>(v).unwrap()).unwrap_or_default();
    let mut i = 0;
    while i < b.len() {
        let g = guard(|| bincode::deserialize::<P>(&b[..i]).map(|_| ()));
        ctx.check(match &g { Ok(Err(_)) => true, _ => false }, &format!("{} rounds first {} binary bytes", k, i), &|| format!("truncated binary form: {:?}", g.as_ref().map(|_| ())));
        i += 11;
    }
}

pub fn suite(o: &Opts) -> Suite {
    let mut s = Suite::new(
        "Proofs of programs and of every gadget, altered proofs and proofs made of arbitrary elements go through JSON text, bytes, \
         reader, pretty text, value tree and a binary format; the result must serialize identically, keep every element in its place \
         and get the same verdict. Structurally malformed text (each field missing, doubled or of another type, non-hex elements, every \
         prefix) must be refused with an error. Distinct by proof and route, or by malformation.",
    );
    s.assume("element strings that the field/curve library itself accepts (unreduced, off-curve, empty) are not malformed for this property");
    let th = o.thorough;
    let reps = match (SIM, th) { (true, false) => 6, (true, true) => 120, (false, false) => 1, (false, true) => 10 };
    for kind in 0..crate::gadgets::KINDS + 2 {
        for i in 0..reps {
            s.add(format!("kind {} #{}", kind, i), move |c| subj(c, kind, if SIM { 1 + i % 3 } else { 1 }));
        }
    }
    for i in 0..if SIM { if th { 2000 } else { 150 } } else { if th { 100 } else { 10 } } {
        s.add(format!("direct #{}", i), move |c| direct(c, i));
    }
    for k in 0..if th { 12 } else { 7 } {
        for i in 0..if th { 40 } else { 4 } {
            s.add(format!("arbitrary {} #{}", k, i), move |c| arbitrary(c, k, i));
        }
        s.add(format!("malformed {}", k), move |c| malformed(c, k));
    }
    s
}
