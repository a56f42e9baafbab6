//! The engine: runs a property's facets with proptest, counts what was
//! generated, shrinks failures and turns them into replay files.
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A failed case: what went wrong, and a signature naming the kind of failure.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub tags: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, tags: vec![] }
    }
    pub fn tag<S: Into<String>>(mut self, s: S) -> Info {
        self.tags.push(s.into());
        self
    }
}
pub type CaseResult = Result<Info, Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return Err($crate::eng::Fail { sig: $sig.to_string(), msg: format!($($a)*) }); }
    };
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

/// Call into the code under test; a panic becomes Err(message).
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// As `lib`, for calls that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    lib(f).map_err(|m| Fail { sig: format!("panic:{}", what), msg: format!("{} panicked: {}", what, m) })
}

pub struct RunCfg {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub known: Vec<(String, String)>, // (property, signature)
    pub scale: f64,
}

pub struct FacetReport {
    pub name: String,
    pub cases: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, Fail)>,
    pub known: BTreeMap<String, (u64, String)>,
    pub wall: f64,
    pub seen: HashSet<u64>,
}

pub trait FacetDyn: Sync {
    fn name(&self) -> &str;
    fn run(&self, cfg: &RunCfg) -> FacetReport;
    fn replay(&self, v: &Value) -> CaseResult;
}

pub struct Facet<T> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub serial: bool,
    pub strat: fn(Tier) -> BoxedStrategy<T>,
    pub test: fn(&T) -> CaseResult,
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

const SHARDS: usize = 16;

impl<T> Facet<T>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn eval(&self, v: &T, json: &str) -> CaseResult {
        // every case starts from its own random stream, whatever ran before
        rand::verif::set_seed(Some(hash64(&[b"case", json.as_bytes()])));
        let _ = merlin::verif_log::take();
        match catch_unwind(AssertUnwindSafe(|| (self.test)(v))) {
            Ok(r) => r,
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                fail("panic:case", format!("the case panicked: {}", m))
            }
        }
    }

    fn shard(&self, cfg: &RunCfg, idx: usize, cases: u32, first_fail: &AtomicUsize) -> FacetReport {
        let mut seed = [0u8; 32];
        for (i, c) in seed.chunks_mut(8).enumerate() {
            c.copy_from_slice(
                &hash64(&[
                    &cfg.seed.to_le_bytes(),
                    cfg.property.as_bytes(),
                    self.name.as_bytes(),
                    &(idx as u64).to_le_bytes(),
                    &[i as u8],
                ])
                .to_le_bytes(),
            );
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 400,
            max_shrink_time: 60_000,
            source_file: None,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let rep = RefCell::new(FacetReport {
            name: self.name.to_string(),
            cases: 0,
            nontrivial: 0,
            distinct: 0,
            tags: BTreeMap::new(),
            samples: vec![],
            failure: None,
            known: BTreeMap::new(),
            wall: 0.0,
            seen: HashSet::new(),
        });
        let failed = Cell::new(false);
        let last: RefCell<Option<Fail>> = RefCell::new(None);
        let strat = (self.strat)(cfg.tier);
        let res = runner.run(&strat, |v: T| {
            if !failed.get() && first_fail.load(Ordering::Relaxed) < idx {
                return Ok(());
            }
            let js = serde_json::to_string(&v).unwrap();
            let r = self.eval(&v, &js);
            let mut rep = rep.borrow_mut();
            if !failed.get() {
                rep.cases += 1;
            }
            match r {
                Ok(info) => {
                    if !failed.get() {
                        if info.nontrivial {
                            rep.nontrivial += 1;
                            rep.seen.insert(hash64(&[js.as_bytes()]));
                            if rep.samples.len() < 1 {
                                let mut c = serde_json::to_value(&v).unwrap();
                                if js.len() > 4000 {
                                    c = json!(format!("{}...", &js[..2000.min(js.len())]));
                                }
                                rep.samples.push(json!({"facet": self.name, "case": c, "tags": info.tags}));
                            }
                        }
                        for t in info.tags {
                            *rep.tags.entry(t).or_insert(0) += 1;
                        }
                    }
                    Ok(())
                }
                Err(f) => {
                    if cfg.known.iter().any(|(p, s)| *p == cfg.property && *s == f.sig) {
                        let e = rep.known.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                        e.0 += 1;
                        return Ok(());
                    }
                    failed.set(true);
                    first_fail.fetch_min(idx, Ordering::Relaxed);
                    *last.borrow_mut() = Some(f.clone());
                    Err(TestCaseError::fail(f.msg))
                }
            }
        });
        let mut rep = rep.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, v)) => {
                let js = serde_json::to_string(&v).unwrap();
                let f = match self.eval(&v, &js) {
                    Err(f) => f,
                    Ok(_) => last.into_inner().unwrap(),
                };
                rep.failure = Some((serde_json::to_value(&v).unwrap(), f));
            }
            Err(TestError::Abort(r)) => {
                eprintln!("facet {}: generator aborted: {}", self.name, r);
                std::process::exit(2);
            }
        }
        rep
    }
}

impl<T> FacetDyn for Facet<T>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &str {
        self.name
    }
    fn replay(&self, v: &Value) -> CaseResult {
        let t: T = serde_json::from_value(v.clone()).expect("replay case");
        let js = serde_json::to_string(&t).unwrap();
        self.eval(&t, &js)
    }
    fn run(&self, cfg: &RunCfg) -> FacetReport {
        let start = std::time::Instant::now();
        let total = match cfg.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * cfg.scale).ceil() as usize).max(1);
        let shards = if self.serial { 1 } else { SHARDS.min(total) };
        let next = AtomicUsize::new(0);
        let first_fail = AtomicUsize::new(usize::MAX);
        let out: Mutex<BTreeMap<usize, FacetReport>> = Mutex::new(BTreeMap::new());
        let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(shards);
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= shards {
                            break;
                        }
                        let cases = total / shards + if i < total % shards { 1 } else { 0 };
                        let r = self.shard(cfg, i, cases as u32, &first_fail);
                        out.lock().unwrap().insert(i, r);
                    })
                    .unwrap();
            }
        });
        let mut acc: Option<FacetReport> = None;
        for (_, r) in out.into_inner().unwrap() {
            match acc.as_mut() {
                None => acc = Some(r),
                Some(a) => {
                    a.cases += r.cases;
                    a.nontrivial += r.nontrivial;
                    a.seen.extend(r.seen);
                    for (k, v) in r.tags {
                        *a.tags.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in r.known {
                        let e = a.known.entry(k).or_insert((0, v.1));
                        e.0 += v.0;
                    }
                    if a.samples.len() < 2 {
                        a.samples.extend(r.samples);
                    }
                    if a.failure.is_none() {
                        a.failure = r.failure;
                    }
                }
            }
        }
        let mut a = acc.unwrap();
        a.distinct = a.seen.len() as u64;
        a.samples.truncate(2);
        a.wall = start.elapsed().as_secs_f64();
        a
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub facets: Vec<Box<dyn FacetDyn>>,
}

pub fn facet<T>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: fn(Tier) -> BoxedStrategy<T>,
    test: fn(&T) -> CaseResult,
) -> Box<dyn FacetDyn>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    Box::new(Facet { name, quick, thorough, serial: false, strat, test })
}
pub fn facet_serial<T>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: fn(Tier) -> BoxedStrategy<T>,
    test: fn(&T) -> CaseResult,
) -> Box<dyn FacetDyn>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    Box::new(Facet { name, quick, thorough, serial: true, strat, test })
}
