//! Case runner: runs deterministic, seeded cases on worker threads, collects what the monitors
//! observed, confirms every failure by re-execution, and writes a result file.
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub rng: Rng,
    pub case: String,
    /// monitor verdicts evaluated
    pub evals: u64,
    /// signatures of distinct non-trivial evaluations
    pub sigs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<String>,
    pub notes: Vec<String>,
    /// values that must not depend on what else the process did
    pub digests: BTreeMap<String, String>,
    pub thorough: bool,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Ctx {
    fn new(seed: u64, case: &str, thorough: bool) -> Self {
        Ctx {
            rng: Rng::new(seed ^ fnv(case)),
            case: case.to_string(),
            evals: 0,
            sigs: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            notes: vec![],
            digests: BTreeMap::new(),
            thorough,
        }
    }
    /// One monitor verdict. `sig` identifies the (distinct) situation that was judged.
    pub fn check(&mut self, ok: bool, sig: &str, msg: &dyn Fn() -> String) -> bool {
        self.evals += 1;
        let s = fnv(&format!("{}|{}", self.case, sig));
        self.sigs.insert(s);
        if self.samples.len() < 2 {
            self.samples.push(format!("{} :: {}", self.case, sig));
        }
        if !ok && self.fails.len() < 20 {
            self.fails.push(format!("[{}] {}", sig, msg()));
        }
        ok
    }
    /// A verdict on something trivial: counted as an evaluation, not as a distinct one.
    #[allow(dead_code)]
    pub fn check_trivial(&mut self, ok: bool, sig: &str, msg: &dyn Fn() -> String) -> bool {
        self.evals += 1;
        if !ok && self.fails.len() < 20 {
            self.fails.push(format!("[{}] {}", sig, msg()));
        }
        ok
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn note(&mut self, s: String) {
        if self.notes.len() < 5 {
            self.notes.push(s);
        }
    }
    /// Run code that must not panic; a panic is reported with its location.
    pub fn total<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.evals += 1;
                if self.fails.len() < 20 {
                    self.fails.push(format!("[{}] panicked: {}", what, p));
                }
                None
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
/// catch_unwind returning the panic message and location
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

pub type CaseFn = Box<dyn Fn(&mut Ctx) + Send + Sync>;
pub struct Case {
    pub name: String,
    pub f: CaseFn,
    /// re-run to confirm a failure (false where the failure depends on the process history)
    pub confirm: bool,
}
pub struct Suite {
    pub cases: Vec<Case>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub threads: usize,
}
impl Suite {
    pub fn new(rule: &str) -> Self {
        Suite {
            cases: vec![],
            rule: rule.into(),
            assumptions: vec![],
            threads: 8,
        }
    }
    pub fn add(&mut self, name: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) {
        self.cases.push(Case {
            name: name.into(),
            f: Box::new(f),
            confirm: true,
        });
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
}

fn run_case(c: &Case, seed: u64, thorough: bool) -> Ctx {
    let mut ctx = Ctx::new(seed, &c.name, thorough);
    // fresh, reproducible entropy for the code under test
    amcl_wrapper::vp::set_seed(Some(seed ^ fnv(&c.name).rotate_left(17)));
    let r = guard(|| (c.f)(&mut ctx));
    amcl_wrapper::vp::set_seed(None);
    let _ = merlin::vp::take();
    if let Err(p) = r {
        ctx.fails.push(format!("case panicked: {}", p));
    }
    ctx
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub only: Option<String>,
    /// only cases whose name starts with this
    pub prefix: String,
    pub shift: usize,
}

pub fn run(prop: &str, suite: Suite, o: &Opts) -> Value {
    let start = Instant::now();
    let cases: Vec<Case> = suite
        .cases
        .into_iter()
                .filter(|c| c.name.starts_with(&o.prefix[..]))
        .filter(|c| o.only.as_ref().map(|n| c.name == *n).unwrap_or(true))
        .collect();
    let total = cases.len();
    let mut cases = cases;
    if o.shift % 2 == 1 {
        cases.reverse();
    }
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(Mutex::new(Vec::<(usize, Ctx, Option<Ctx>)>::new()));
    let nth = suite.threads.max(1);
    let running: Arc<Vec<Mutex<Option<(usize, Instant)>>>> =
        Arc::new((0..nth).map(|_| Mutex::new(None)).collect());
    let stop = Arc::new(AtomicBool::new(false));
    let mut handles = vec![];
    for t in 0..nth {
        let (cases, next, done, running, stop) = (
            cases.clone(),
            next.clone(),
            done.clone(),
            running.clone(),
            stop.clone(),
        );
        let (seed, thorough, budget) = (o.seed, o.thorough, o.budget);
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    if stop.load(Ordering::SeqCst) || start.elapsed() > budget {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    *running[t].lock().unwrap() = Some((i, Instant::now()));
                    let c = run_case(&cases[i], seed, thorough);
                    let again = if c.fails.is_empty() || !cases[i].confirm {
                        None
                    } else {
                        Some(run_case(&cases[i], seed, thorough))
                    };
                    *running[t].lock().unwrap() = None;
                    done.lock().unwrap().push((i, c, again));
                })
                .unwrap(),
        );
    }
    // supervise
    let hang_limit = Duration::from_secs(if o.thorough { 900 } else { 240 });
    let mut hung: Option<usize> = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut busy = false;
        for r in running.iter() {
            if let Some((i, t)) = *r.lock().unwrap() {
                busy = true;
                if t.elapsed() > hang_limit {
                    hung = Some(i);
                }
            }
        }
        let exhausted =
            next.load(Ordering::SeqCst) >= total || start.elapsed() > o.budget;
        if hung.is_some() || (exhausted && !busy && handles.iter().all(|h| h.is_finished())) {
            break;
        }
    }
    if hung.is_none() {
        for h in handles {
            let _ = h.join();
        }
    } else {
        stop.store(true, Ordering::SeqCst);
    }
    let mut res = std::mem::replace(&mut *done.lock().unwrap(), vec![]);
    res.sort_by_key(|r| r.0);
    let mut evals = 0;
    let mut sigs = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut violations = vec![];
    let mut unconfirmed = vec![];
    let mut notes = vec![];
    let mut digests: BTreeMap<String, String> = BTreeMap::new();
    let ncases = res.len();
    for (i, c, again) in res {
        evals += c.evals;
        sigs.extend(c.sigs.iter().cloned());
        for (k, v) in &c.counters {
            *counters.entry(k.clone()).or_insert(0) += v;
        }
        if ncases <= 6 || i % (ncases / 6 + 1) == 0 {
            samples.extend(c.samples.iter().take(2).cloned());
        }
        digests.extend(c.digests.clone());
        for n in c.notes {
            if notes.len() < 20 {
                notes.push(n);
            }
        }
        if !c.fails.is_empty() {
            let v = json!({"case": cases[i].name, "fails": c.fails});
            match again {
                Some(a) if a.fails.is_empty() => unconfirmed.push(v),
                _ => violations.push(v),
            }
        }
    }
    if let Some(i) = hung {
        violations.push(json!({"case": cases[i].name,
            "fails": [format!("case did not finish within {} s", hang_limit.as_secs())]}));
    }
    json!({
        "property": prop, "seed": o.seed, "backend": if SIM {"sim"} else {"real"}, "hooks": HOOKS,
        "cases_planned": total, "cases_run": ncases, "evaluations": evals,
        "distinct_nontrivial": sigs.len(), "rule": suite.rule, "assumptions": suite.assumptions,
        "counters": counters, "digests": digests, "samples": samples, "notes": notes,
        "violations": violations, "unconfirmed": unconfirmed,
        "wall_s": start.elapsed().as_secs_f64(),
    })
}
