//! C16, C17: snapshots.
#[path = "../../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
use common::*;
use metriken::{
    metric, AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Lazy, LazyCounter, LazyGauge,
    Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value,
};
use metriken_exposition::{Snapshot, Snapshotter, SnapshotterBuilder};
use serde_json::{json, Value as J};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Deref;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant, SystemTime};

const MUST: Duration = Duration::from_secs(60);
const MAY: Duration = Duration::from_millis(15);
const MAIN: u64 = 6;

// ------------------------------------------------------------------ recording
static LOG: Mutex<Vec<(u64, J)>> = Mutex::new(Vec::new());
thread_local! {
    static MINE: RefCell<Vec<(u64, J)>> = const { RefCell::new(Vec::new()) };
    static ME: Cell<u64> = const { Cell::new(MAIN) };
    static ACC: RefCell<Option<BTreeSet<String>>> = const { RefCell::new(None) };
    static PAUSES: Cell<bool> = const { Cell::new(false) };
}
fn log(j: J) {
    let at = stamp();
    MINE.with(|l| l.borrow_mut().push((at, j)));
}
fn flush() {
    MINE.with(|l| LOG.lock().unwrap().append(&mut l.borrow_mut()));
}
fn hang(what: &str) -> ! {
    eprintln!("hang: {what}");
    std::process::exit(1)
}

// ------------------------------------------------------------------ metrics
trait Act: Metric {
    fn act(&self, op: &str, st: &J);
}
impl Act for Counter {
    fn act(&self, op: &str, st: &J) {
        let a = unword(&st["a"]);
        if op == "set" { self.set(a) } else { self.add(a) };
    }
}
impl Act for Gauge {
    fn act(&self, op: &str, st: &J) {
        let a = unword(&st["a"]) as i64;
        if op == "set" { self.set(a) } else { self.add(a) };
    }
}
impl Act for AtomicHistogram {
    fn act(&self, _: &str, st: &J) {
        let _ = self.increment(unword(&st["a"]));
    }
}
impl Act for RwLockHistogram {
    fn act(&self, _: &str, st: &J) {
        let mut data = vec![0u64; n(st, "len") as usize];
        for p in st["ps"].as_array().unwrap() {
            data[p[0].as_u64().unwrap() as usize] = unword(&p[1]);
        }
        let _ = self.update_from(&data);
    }
}
impl<T: Act> Act for Lazy<T> {
    fn act(&self, op: &str, st: &J) {
        if op == "force" {
            Lazy::force(self);
        } else {
            (**self).act(op, st)
        }
    }
}
/// User-defined metrics.
struct OwnCounter(Counter);
impl Metric for OwnCounter {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0.value()))
    }
}
impl Act for OwnCounter {
    fn act(&self, op: &str, st: &J) {
        self.0.act(op, st)
    }
}
struct OwnGauge(Gauge);
impl Metric for OwnGauge {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Gauge(self.0.value()))
    }
}
impl Act for OwnGauge {
    fn act(&self, op: &str, st: &J) {
        self.0.act(op, st)
    }
}
struct Nothing;
impl Metric for Nothing {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}
impl Act for Nothing {
    fn act(&self, _: &str, _: &J) {}
}
struct Other(#[allow(dead_code)] u64);
impl Metric for Other {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Other(self))
    }
}
impl Act for Other {
    fn act(&self, _: &str, _: &J) {}
}

/// A metric handing on what another one reports.
struct Wrapped<T>(T);
impl Metric for Wrapped<AtomicHistogram> {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        self.0.value()
    }
}
impl Metric for Wrapped<RwLockHistogram> {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Other(&self.0))
    }
}
impl<T: Act> Act for Wrapped<T>
where
    Wrapped<T>: Metric,
{
    fn act(&self, op: &str, st: &J) {
        self.0.act(op, st)
    }
}
/// A metric that keeps what it has to itself.
struct Hidden(AtomicHistogram);
impl Metric for Hidden {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(&self.0)
    }
    fn value(&self) -> Option<Value<'_>> {
        let _ = self.0.increment(1);
        None
    }
}
impl Act for Hidden {
    fn act(&self, _: &str, _: &J) {}
}

fn f1(e: &MetricEntry, f: Format) -> String {
    format!("f1:{}:{}", if matches!(f, Format::Simple) { "simple" } else { "other" }, e.name())
}
fn f2(e: &MetricEntry, f: Format) -> String {
    format!("f2:{}:{}", if matches!(f, Format::Simple) { "simple" } else { "other" }, e.name())
}

#[metric(name = "s/counter", description = "a static counter", metadata = { unit = "ops", "odd key" = "odd, value" })]
static S1: Counter = Counter::new();
#[metric]
static S2: Gauge = Gauge::new();
#[metric(metadata = { description = "not the description" })]
static S3: LazyCounter = LazyCounter::new(Counter::default);
#[metric(formatter = f1, description = "")]
static S4: LazyGauge = LazyGauge::new(Gauge::default);
#[metric(metadata = { grouping_power = "99", other = "x" }, description = "an atomic histogram")]
static S5: AtomicHistogram = AtomicHistogram::new(2, 10);
#[metric(name = "bulk", formatter = f2)]
static S6: RwLockHistogram = RwLockHistogram::new(1, 6);
#[metric]
static S7: Lazy<AtomicHistogram> = Lazy::new(|| AtomicHistogram::new(7, 64));
#[metric(description = "lazy bulk")]
static S8: Lazy<RwLockHistogram> = Lazy::new(|| RwLockHistogram::new(0, 3));
#[metric]
static S9: Nothing = Nothing;
#[metric]
static S10: Other = Other(1);

type Declared = (u64, &'static dyn Act, J);
fn declared() -> Vec<Declared> {
    let d = |i: u64, a: &'static dyn Act, kind: &str, name: &str, desc: Option<&str>, meta: &[(&str, &str)], fmt: &str, g: u8, m: u8| {
        let meta: Vec<J> = meta.iter().map(|(k, v)| json!([k, v])).collect();
        (i, a, json!({"e":"static","i":i,"kind":kind,"name":name,"desc":opt(desc),"meta":meta,"fmt":fmt,"g":g,"m":m}))
    };
    vec![
        d(1, &S1, "counter", "s/counter", Some("a static counter"), &[("unit", "ops"), ("odd key", "odd, value")], "", 0, 1),
        d(2, &S2, "gauge", "S2", None, &[], "", 0, 1),
        d(3, &S3, "lcounter", "S3", None, &[("description", "not the description")], "", 0, 1),
        d(4, &S4, "lgauge", "S4", Some(""), &[], "f1", 0, 1),
        d(5, &S5, "ahist", "S5", Some("an atomic histogram"), &[("grouping_power", "99"), ("other", "x")], "", 2, 10),
        d(6, &S6, "rhist", "bulk", None, &[], "f2", 1, 6),
        d(7, &S7, "lahist", "S7", None, &[], "", 7, 64),
        d(8, &S8, "lrhist", "S8", Some("lazy bulk"), &[], "", 0, 3),
        d(9, &S9, "cnone", "S9", None, &[], "", 0, 1),
        d(10, &S10, "cother", "S10", None, &[], "", 0, 1),
    ]
}

enum Held<T: Metric> {
    Boxed(DynBoxedMetric<T>),
    Pinned(Pin<Box<DynPinnedMetric<T>>>),
}
impl<T: Metric> Deref for Held<T> {
    type Target = T;
    fn deref(&self) -> &T {
        match self {
            Held::Boxed(m) => m,
            Held::Pinned(m) => m,
        }
    }
}
trait Slot: Send + Sync {
    fn act(&self, op: &str, st: &J);
}
impl<T: Act> Slot for Held<T> {
    fn act(&self, op: &str, st: &J) {
        (**self).act(op, st)
    }
}
fn place<T: Act>(b: MetricBuilder, t: T, pinned: bool) -> Box<dyn Slot> {
    if pinned {
        let (m, e) = b.build_pinned(t);
        let m = Box::pin(m);
        m.as_ref().register(e);
        Box::new(Held::Pinned(m))
    } else {
        Box::new(Held::Boxed(b.build(t)))
    }
}
fn register(st: &J) -> Box<dyn Slot> {
    let mut b = MetricBuilder::new(s(st, "name").to_string());
    for p in st["meta"].as_array().unwrap() {
        b = b.metadata(p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string());
    }
    if let Some(d) = st["desc"].get(0) {
        b = b.description(d.as_str().unwrap().to_string());
    }
    match s(st, "fmt") {
        "f1" => b = b.formatter(f1),
        "f2" => b = b.formatter(f2),
        _ => {}
    }
    let (g, m) = (n(st, "g") as u8, n(st, "m") as u8);
    let p = s(st, "p") == "pinned";
    match s(st, "k") {
        "counter" => place(b, Counter::new(), p),
        "gauge" => place(b, Gauge::new(), p),
        "lcounter" => place(b, LazyCounter::new(Counter::default), p),
        "lgauge" => place(b, LazyGauge::new(Gauge::default), p),
        "ahist" => place(b, AtomicHistogram::new(g, m), p),
        "rhist" => place(b, RwLockHistogram::new(g, m), p),
        "lahist" => place(b, Lazy::<AtomicHistogram>::new(|| AtomicHistogram::new(3, 12)), p),
        "lrhist" => place(b, Lazy::<RwLockHistogram>::new(|| RwLockHistogram::new(3, 12)), p),
        "ccounter" => place(b, OwnCounter(Counter::new()), p),
        "cgauge" => place(b, OwnGauge(Gauge::new()), p),
        "wahist" => place(b, Wrapped(AtomicHistogram::new(g, m)), p),
        "wrhist" => place(b, Wrapped(RwLockHistogram::new(g, m)), p),
        "chidden" => place(b, Hidden(AtomicHistogram::new(2, 8)), p),
        "cnone" => place(b, Nothing, p),
        "cother" => place(b, Other(3), p),
        x => driver_bug(x),
    }
}

// ------------------------------------------------------------------ snapshots
#[derive(Default)]
struct Stop {
    at: u64,
    allow: u64,
    free: bool,
    finished: bool,
}
static STOPS: [(Mutex<Stop>, Condvar); 3] = [const { (Mutex::new(Stop { at: 0, allow: 0, free: true, finished: true }), Condvar::new()) }; 3];

fn filter(e: &MetricEntry) -> bool {
    if PAUSES.get() {
        let (m, c) = &STOPS[ME.get() as usize];
        let mut st = m.lock().unwrap();
        st.at += 1;
        c.notify_all();
        while !st.free && st.at > st.allow {
            st = c.wait(st).unwrap();
        }
    }
    ACC.with(|a| a.borrow().as_ref().map(|a| a.contains(e.name())).unwrap_or(true))
}

fn pairs(m: &HashMap<String, String>) -> Vec<J> {
    let m: BTreeMap<_, _> = m.iter().collect();
    m.into_iter().map(|(k, v)| json!([k, v])).collect()
}
fn readings(s: &mut Snapshot) -> Vec<J> {
    let mut obs = vec![];
    for c in s.counters() {
        obs.push(json!({"k":"counter","name":c.name,"meta":pairs(&c.metadata),"v":word(c.value)}));
    }
    for c in s.gauges() {
        obs.push(json!({"k":"gauge","name":c.name,"meta":pairs(&c.metadata),"v":word(c.value as u64)}));
    }
    for c in s.histograms() {
        let cfg = c.value.config();
        let b = c.value.as_slice();
        let nz: Vec<J> = b.iter().enumerate().filter(|(_, v)| **v != 0).map(|(i, v)| json!([i, word(*v)])).collect();
        obs.push(json!({"k":"histogram","name":c.name,"meta":pairs(&c.metadata),"g":cfg.grouping_power(),
            "m":cfg.max_value_power(),"len":b.len(),"c":nz}));
    }
    obs
}
static START: Mutex<Option<(SystemTime, Instant)>> = Mutex::new(None);
/// Microseconds since the start by the wall clock, and whether that agrees with
/// the monotonic one.
fn wall(at: SystemTime) -> i64 {
    let (s, _) = START.lock().unwrap().unwrap();
    match at.duration_since(s) {
        Ok(d) => d.as_micros() as i64,
        Err(e) => -(e.duration().as_micros() as i64) - 1,
    }
}
fn clock_ok() -> bool {
    let (s, i) = START.lock().unwrap().unwrap();
    let w = SystemTime::now().duration_since(s).map(|d| d.as_millis() as i64).unwrap_or(-1_000_000);
    (w - i.elapsed().as_millis() as i64).abs() < 500
}
fn snapshotter(st: &J) -> (Snapshotter, bool, Vec<String>) {
    let all = st["all"].as_bool().unwrap();
    let acc: Vec<String> = st["acc"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let mut b = SnapshotterBuilder::new();
    let plain = st["plain"].as_bool().unwrap_or(false);
    if !plain {
        b = b.filter(filter);
    }
    if plain && st["smeta"].as_array().unwrap().is_empty() && acc.is_empty() {
        return (Snapshotter::default(), all, acc);
    }
    for p in st["smeta"].as_array().unwrap() {
        b = b.metadata(p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string());
    }
    (b.build(), all, acc)
}
fn take(t: u64, snap: &Snapshotter, st: &J, all: bool, acc: &[String]) {
    ACC.with(|a| *a.borrow_mut() = if all { None } else { Some(acc.iter().cloned().collect()) });
    log(json!({"e":"snap","t":t,"all":all,"acc":acc,"smeta":st["smeta"]}));
    let t0 = wall(SystemTime::now());
    let r = guard(|| snap.snapshot());
    let t1 = wall(SystemTime::now()) + 1;
    match r {
        Ok(mut s) => {
            let ts = s.systemtime();
            let obs = readings(&mut s);
            let (t0, t1) = if clock_ok() { (t0, t1) } else { (i32::MIN as i64, i32::MAX as i64) };
            let ts = wall(ts).clamp(i32::MIN as i64, i32::MAX as i64);
            log(json!({"e":"snapped","t":t,"obs":obs,"smeta":pairs(&s.metadata()),"t0":t0,"t1":t1,"ts":ts}))
        }
        Err(x) => log(json!({"e":"panic","t":t,"what":x})),
    }
}

// ------------------------------------------------------------------ workers
struct Worker {
    tx: Sender<Box<dyn FnOnce() + Send>>,
    busy: Arc<AtomicBool>,
}
impl Worker {
    fn new(t: u64) -> Self {
        let (tx, rx) = channel::<Box<dyn FnOnce() + Send>>();
        let busy = Arc::new(AtomicBool::new(false));
        let b = busy.clone();
        std::thread::spawn(move || {
            ME.set(t);
            PAUSES.set(t <= 2);
            for job in rx {
                job();
                flush();
                b.store(false, SeqCst);
            }
        });
        Worker { tx, busy }
    }
    fn run(&self, f: impl FnOnce() + Send + 'static) {
        self.busy.store(true, SeqCst);
        self.tx.send(Box::new(f)).unwrap();
    }
    fn busy(&self) -> bool {
        self.busy.load(SeqCst)
    }
}

type Slots = Arc<Mutex<BTreeMap<u64, Box<dyn Slot>>>>;

struct World {
    statics: Vec<Declared>,
    slots: Slots,
    ws: BTreeMap<u64, Worker>,
    open: BTreeSet<u64>,
}

impl World {
    fn writers(&self) -> bool {
        (3..=5).any(|t| self.ws[&t].busy())
    }
    fn until(&self, what: &str, soon: bool, f: impl Fn() -> bool) {
        let t0 = Instant::now();
        let limit = if soon { MUST } else { MAY };
        while !f() {
            if t0.elapsed() > limit {
                if soon {
                    hang(what);
                }
                return;
            }
            if t0.elapsed() > Duration::from_millis(1) {
                std::thread::sleep(Duration::from_micros(200));
            } else {
                std::thread::yield_now();
            }
        }
    }
    fn registry(&self, st: &J, f: impl FnOnce() + Send + 'static) {
        let t = (3..=5).find(|t| !self.ws[t].busy()).unwrap();
        let mut ev = json!({"t":t,"i":st["i"]});
        if s(st, "op") == "reg" {
            ev["e"] = json!("reg");
            for k in ["name", "desc", "meta", "fmt", "g", "m"] {
                ev[k] = st[k].clone();
            }
            ev["kind"] = st["k"].clone();
        } else {
            ev["e"] = json!("call");
            ev["op"] = json!("drop");
        }
        self.ws[&t].run(move || {
            log(ev);
            match guard(f) {
                Ok(()) => log(json!({"e":"ret","t":t})),
                Err(x) => log(json!({"e":"panic","t":t,"what":x})),
            }
        });
        self.until("registration", self.open.is_empty(), || !self.ws[&t].busy());
    }
    fn snapper(&self, t: u64, f: impl Fn(&Stop) -> bool) {
        let w = &self.ws[&t];
        self.until("snapshot", !self.writers() && self.open.len() <= 1, || !w.busy() || f(&STOPS[t as usize].0.lock().unwrap()));
    }
    fn step(&mut self, st: &J) {
        let i = n(st, "i");
        match s(st, "op") {
            "reg" => {
                if (3..=5).all(|t| self.ws[&t].busy()) || self.slots.lock().unwrap().contains_key(&i) {
                    return;
                }
                let (slots, st2) = (self.slots.clone(), st.clone());
                self.registry(st, move || {
                    let x = register(&st2);
                    slots.lock().unwrap().insert(i, x);
                });
            }
            "drop" => {
                if (3..=5).all(|t| self.ws[&t].busy()) {
                    return;
                }
                let x = self.slots.lock().unwrap().remove(&i);
                let Some(x) = x else { return };
                self.registry(st, move || drop(x));
            }
            "snap" => {
                let (sn, all, acc) = snapshotter(st);
                for _ in 0..st["times"].as_u64().unwrap_or(1) {
                    take(MAIN, &sn, st, all, &acc);
                }
            }
            "open" => {
                if self.ws[&i].busy() {
                    return;
                }
                *STOPS[i as usize].0.lock().unwrap() = Stop::default();
                let st = st.clone();
                self.open.insert(i);
                self.ws[&i].run(move || {
                    let (sn, all, acc) = snapshotter(&st);
                    take(i, &sn, &st, all, &acc);
                });
                self.snapper(i, |s| s.at > s.allow);
            }
            "go" => {
                let (m, c) = &STOPS[i as usize];
                {
                    let mut g = m.lock().unwrap();
                    if g.at <= g.allow {
                        return; // not there yet
                    }
                    g.allow += 1;
                    c.notify_all();
                }
                self.snapper(i, |s| s.at > s.allow);
            }
            "close" => {
                if !self.open.contains(&i) {
                    return;
                }
                let (m, c) = &STOPS[i as usize];
                m.lock().unwrap().free = true;
                c.notify_all();
                self.snapper(i, |_| false);
                self.open.remove(&i);
                if self.open.is_empty() {
                    self.settle();
                }
            }
            op => {
                let mut ev = json!({"e":"call","t":MAIN,"op":op,"i":i});
                for k in ["a", "len", "ps"] {
                    if !st[k].is_null() {
                        ev[k] = st[k].clone();
                    }
                }
                let g = self.slots.lock().unwrap();
                let stat = self.statics.iter().find(|x| x.0 == i);
                if stat.is_none() && !g.contains_key(&i) {
                    return;
                }
                log(ev);
                let r = guard(|| match stat {
                    Some((_, a, _)) => a.act(op, st),
                    None => g[&i].act(op, st),
                });
                match r {
                    Ok(()) => log(json!({"e":"ret","t":MAIN})),
                    Err(x) => log(json!({"e":"panic","t":MAIN,"what":x})),
                }
            }
        }
    }
    fn settle(&self) {
        for t in 1..=5 {
            self.until("waiting for everything to finish", true, || !self.ws[&t].busy());
        }
    }
    fn run(&mut self, sc: &J) {
        if let Some(b) = sc.get("burst") {
            return burst(b);
        }
        if let Some(b) = sc.get("cycle") {
            return cycles(b);
        }
        if let Some(b) = sc.get("stress") {
            return stress(b);
        }
        for st in sc["steps"].as_array().unwrap() {
            self.step(st);
        }
        for t in [1, 2] {
            self.step(&json!({"op":"close","i":t}));
        }
        self.settle();
        let left: Vec<u64> = self.slots.lock().unwrap().keys().cloned().collect();
        for i in left {
            self.step(&json!({"op":"drop","i":i}));
        }
        self.settle();
    }
}

/// Real concurrency, recorded call by call.
fn stress(b: &J) {
    let (rounds, seed) = (n(b, "rounds"), n(b, "seed"));
    let shared: Vec<(u64, J)> = b["shared"].as_array().unwrap().iter().map(|x| (n(x, "i"), x.clone())).collect();
    let mut held: BTreeMap<u64, Box<dyn Slot>> = BTreeMap::new();
    let reg = |t: u64, st: &J| {
        let mut ev = json!({"e":"reg","t":t,"i":st["i"],"kind":st["k"]});
        for k in ["name", "desc", "meta", "fmt", "g", "m"] {
            ev[k] = st[k].clone();
        }
        log(ev);
        let x = register(st);
        log(json!({"e":"ret","t":t}));
        x
    };
    let unreg = |t: u64, i: u64, x: Box<dyn Slot>| {
        log(json!({"e":"call","t":t,"op":"drop","i":i}));
        drop(x);
        log(json!({"e":"ret","t":t}));
    };
    for (i, st) in &shared {
        held.insert(*i, reg(MAIN, st));
    }
    let go = std::sync::Barrier::new(5);
    std::thread::scope(|sc| {
        for t in 1..=5u64 {
            let (go, held, shared, reg, unreg) = (&go, &held, &shared, &reg, &unreg);
            let b = b.clone();
            sc.spawn(move || {
                let mut rng = Rng(seed * 100 + t);
                go.wait();
                match t {
                    1 | 2 => {
                        let st = json!({"all":t == 1,"acc":b["acc"],"smeta":[]});
                        let (sn, all, acc) = snapshotter(&st);
                        for _ in 0..rounds {
                            take(t, &sn, &st, all, &acc);
                        }
                    }
                    3 => {
                        // one after the other, overlapping
                        let mut prev: Option<(u64, Box<dyn Slot>)> = None;
                        for st in b["churn"].as_array().unwrap() {
                            let x = reg(t, st);
                            if let Some((i, p)) = prev.take() {
                                unreg(t, i, p);
                            }
                            prev = Some((n(st, "i"), x));
                            for _ in 0..rng.below(400) {
                                std::hint::spin_loop();
                            }
                        }
                        if let Some((i, p)) = prev {
                            unreg(t, i, p);
                        }
                    }
                    _ => {
                        for _ in 0..rounds * 2 {
                            // each metric has one writer
                            let k = rng.below(shared.len() as u64 / 2) * 2 + (t - 4);
                            let (i, st) = &shared[k as usize];
                            let a = rng.below(7);
                            let (op, x) = match s(st, "k") {
                                "counter" => ("add", json!({"a":word(a + 1)})),
                                "gauge" => ("set", json!({"a":word(a)})),
                                "ahist" => ("rec", json!({"a":word(a)})),
                                _ => ("upd", json!({"len":n(st, "len"),"ps":[[0, word(a + 1)], [1, word(a + 1)]]})),
                            };
                            let mut ev = x.clone();
                            for (k, v) in [("e", json!("call")), ("t", json!(t)), ("op", json!(op)), ("i", json!(i))] {
                                ev[k] = v;
                            }
                            log(ev);
                            held[i].act(op, &x);
                            log(json!({"e":"ret","t":t}));
                            for _ in 0..rng.below(200) {
                                std::hint::spin_loop();
                            }
                        }
                    }
                }
                flush();
            });
        }
    });
    for (i, x) in held {
        unreg(MAIN, i, x);
    }
}

/// Tight loops: only the bounds of what a snapshot may show are recorded.
fn burst(b: &J) {
    let (snaps, writers) = (n(b, "snaps"), n(b, "writers"));
    let c = MetricBuilder::new("burst-c").build(Counter::new());
    let g = MetricBuilder::new("burst-g").build(Gauge::new());
    let h = MetricBuilder::new("burst-h").build(AtomicHistogram::new(2, 8));
    let names = ["burst-c", "burst-g", "burst-h"];
    let stop = AtomicBool::new(false);
    let count: [(AtomicU64, AtomicU64); 3] = Default::default();
    let mut reads: Vec<Vec<J>> = vec![vec![]; 3];
    std::thread::scope(|sc| {
        for w in 0..writers {
            let (c, g, h, stop, count) = (&c, &g, &h, &stop, &count);
            sc.spawn(move || {
                while !stop.load(SeqCst) {
                    for k in 0..3 {
                        if w % 2 == 1 && k == 1 {
                            continue;
                        }
                        count[k].0.fetch_add(1, SeqCst);
                        match k {
                            0 => drop(c.increment()),
                            1 => drop(g.increment()),
                            _ => h.increment(5).unwrap(),
                        }
                        count[k].1.fetch_add(1, SeqCst);
                    }
                }
            });
        }
        let stop1 = &stop;
        sc.spawn(move || {
            // metrics come and go
            let mut ring: Vec<DynBoxedMetric<Counter>> = vec![];
            let mut k = 0u64;
            while !stop1.load(SeqCst) {
                ring.push(MetricBuilder::new(format!("noise-{k}")).build(Counter::new()));
                if ring.len() > (k % 17) as usize {
                    ring.remove((k % ring.len() as u64) as usize);
                }
                k += 1;
            }
        });
        let (sn, all, acc) = snapshotter(&json!({"all":false,"acc":names,"smeta":[]}));
        ACC.with(|a| *a.borrow_mut() = if all { None } else { Some(acc.iter().cloned().collect()) });
        // from here the histogram has something to show
        while count[2].1.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
        for _ in 0..snaps {
            let lo: Vec<u64> = count.iter().map(|x| x.1.load(SeqCst)).collect();
            let r = guard(|| sn.snapshot());
            let hi: Vec<u64> = count.iter().map(|x| x.0.load(SeqCst)).collect();
            let obs = r.map(|mut s| readings(&mut s)).unwrap_or_default();
            for k in 0..3 {
                let mine: Vec<&J> = obs.iter().filter(|o| o["name"] == names[k]).collect();
                let v: i64 = if mine.len() != 1 {
                    -1
                } else if k < 2 {
                    unword(&mine[0]["v"]) as i64
                } else {
                    match mine[0]["c"].as_array().unwrap().as_slice() {
                        [] => 0,
                        [x] => unword(&x[1]) as i64,
                        _ => -2,
                    }
                };
                reads[k].push(json!([lo[k], v.clamp(i32::MIN as i64, i32::MAX as i64), hi[k]]));
            }
        }
        stop.store(true, SeqCst);
    });
    for r in reads {
        log(json!({"e":"burst","reads":r}));
    }
}

/// Threads register and drop the same few metrics in a fixed cyclic order, at
/// full speed; every snapshot must show one moment of every cycle.
fn cycles(b: &J) {
    let snaps = n(b, "snaps");
    let progs: Vec<Vec<u64>> =
        b["toggles"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()).collect();
    let stop = AtomicBool::new(false);
    let count: Vec<(AtomicU64, AtomicU64)> = progs.iter().map(|_| Default::default()).collect();
    let mut reads: Vec<BTreeSet<(u64, Vec<u64>, u64)>> = vec![Default::default(); progs.len()];
    std::thread::scope(|sc| {
        for (w, p) in progs.iter().enumerate() {
            let (stop, count) = (&stop, &count[w]);
            sc.spawn(move || {
                let mut held: BTreeMap<u64, Box<dyn Slot>> = BTreeMap::new();
                let mut on = |k: u64| {
                    if held.remove(&k).is_none() {
                        let b = MetricBuilder::new(format!("cycle-{w}-{k}"));
                        let x: Box<dyn Slot> = match k % 4 {
                            0 => place(b, Counter::new(), k > 3),
                            1 => place(b, Gauge::new(), k > 3),
                            2 => {
                                let h = AtomicHistogram::new(1, 4);
                                h.increment(1).unwrap();
                                place(b, h, k > 3)
                            }
                            _ => {
                                let h = RwLockHistogram::new(0, 3);
                                h.update_from(&[0; 4]).unwrap();
                                place(b, h, k > 3)
                            }
                        };
                        held.insert(k, x);
                    }
                };
                while !stop.load(SeqCst) {
                    for k in p {
                        count.0.fetch_add(1, SeqCst);
                        on(*k);
                        count.1.fetch_add(1, SeqCst);
                    }
                }
            });
        }
        let sn = SnapshotterBuilder::new().filter(|e: &MetricEntry| e.name().starts_with("cycle-")).build();
        for _ in 0..snaps {
            let lo: Vec<u64> = count.iter().map(|x| x.1.load(SeqCst)).collect();
            let r = guard(|| sn.snapshot());
            let hi: Vec<u64> = count.iter().map(|x| x.0.load(SeqCst)).collect();
            let obs = r.map(|mut s| readings(&mut s)).unwrap_or_default();
            for (w, p) in progs.iter().enumerate() {
                let pre = format!("cycle-{w}-");
                let mut ids: Vec<u64> =
                    obs.iter().filter_map(|o| o["name"].as_str().unwrap().strip_prefix(&pre).map(|x| x.parse().unwrap())).collect();
                ids.sort();
                let len = p.len() as u64;
                reads[w].insert((lo[w] % len, ids, (hi[w] - lo[w]).min(len)));
            }
        }
        stop.store(true, SeqCst);
    });
    for (p, r) in progs.iter().zip(reads) {
        let r: Vec<J> = r.into_iter().map(|(a, b, c)| json!({"at":a,"ids":b,"steps":c})).collect();
        log(json!({"e":"cycle","toggles":p,"reads":r}));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    *START.lock().unwrap() = Some((SystemTime::now(), Instant::now()));
    let mut w = World {
        statics: declared(),
        slots: Default::default(),
        ws: (1..=5).map(|t| (t, Worker::new(t))).collect(),
        open: BTreeSet::new(),
    };
    log(json!({"e":"new"}));
    for (_, _, j) in &w.statics {
        log(j.clone());
    }
    for sc in scenarios(&a[1]) {
        w.run(&sc);
    }
    flush();
    let mut all = std::mem::take(&mut *LOG.lock().unwrap());
    all.sort_by_key(|x| x.0);
    for (_, j) in all {
        o.put(&j);
    }
    o.done();
    std::process::exit(0)
}
