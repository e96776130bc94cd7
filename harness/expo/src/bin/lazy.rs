//! C07: lazy metrics.
#[path = "../../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
use common::*;
use metriken::{
    metric, metrics, AtomicHistogram, Counter, DynBoxedMetric, Gauge, Lazy, LazyCounter, LazyGauge, Metric,
    MetricBuilder, MetricEntry, RwLockHistogram, Value,
};
use metriken_exposition::{Snapshot, SnapshotterBuilder};
use serde_json::{json, Value as J};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const MUST: Duration = Duration::from_secs(60);
static LOG: Mutex<Vec<J>> = Mutex::new(Vec::new());
fn log(j: J) {
    let j = match HOT.with(|h| {
        let mut h = h.borrow_mut();
        match &mut *h {
            Some(v) => {
                v.push((stamp(), j));
                None
            }
            None => Some(j),
        }
    }) {
        Some(j) => j,
        None => return,
    };
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(j);
}
thread_local! {
    static ME: Cell<u64> = const { Cell::new(0) };
    /// While set, events are kept here with their stamps.
    static HOT: RefCell<Option<Vec<(u64, J)>>> = const { RefCell::new(None) };
}

/// The state of the initializer: user code under the control of the scenario.
#[derive(Default)]
struct Gate {
    gated: bool,
    insts: u64,
    running: u64,
    release: Vec<&'static str>,
    free: &'static str,
    addrs: Vec<usize>,
}
static GATE: Mutex<Gate> =
    Mutex::new(Gate { gated: false, insts: 0, running: 0, release: vec![], free: "ok", addrs: vec![] });
static BELL: Condvar = Condvar::new();

fn gate() -> std::sync::MutexGuard<'static, Gate> {
    GATE.lock().unwrap_or_else(|e| e.into_inner())
}

fn initializer<T: Obj>() -> T {
    let mut g = gate();
    g.insts += 1;
    let inst = g.insts;
    log(json!({"e":"initstart","t":ME.get(),"obj":inst}));
    g.running += 1;
    let how = if g.gated {
        loop {
            if let Some(h) = g.release.pop() {
                break h;
            }
            g = BELL.wait(g).unwrap();
        }
    } else {
        let free = g.free;
        drop(g);
        for _ in 0..3 {
            std::thread::yield_now();
        }
        g = gate();
        free
    };
    g.running -= 1;
    log(json!({"e":"initend","t":ME.get(),"how":how}));
    drop(g);
    if how == "panic" {
        panic!("bomb");
    }
    T::make(inst)
}

/// What a lazy can hold here: something that carries the number of the run of
/// the initializer that made it, as its value.
trait Obj: Metric + Sized {
    fn make(inst: u64) -> Self;
    fn inst(&self) -> u64;
    fn read(v: Option<Value>) -> Option<u64>;
    fn in_snapshot(s: &mut Snapshot) -> Vec<u64>;
}

const ODD: u64 = 99_999;
fn carried(h: Option<metriken::histogram::Histogram>) -> u64 {
    h.map_or(ODD, |h| h.as_slice()[0])
}

impl Obj for P {
    fn make(inst: u64) -> P {
        P { inst }
    }
    fn inst(&self) -> u64 {
        self.inst
    }
    fn read(v: Option<Value>) -> Option<u64> {
        v.map(|v| if let Value::Counter(v) = v { v } else { ODD })
    }
    fn in_snapshot(s: &mut Snapshot) -> Vec<u64> {
        s.counters().iter().map(|c| c.value).collect()
    }
}

impl Obj for Counter {
    fn make(inst: u64) -> Counter {
        let c = Counter::new();
        c.set(inst);
        c
    }
    fn inst(&self) -> u64 {
        self.value()
    }
    fn read(v: Option<Value>) -> Option<u64> {
        v.map(|v| if let Value::Counter(v) = v { v } else { ODD })
    }
    fn in_snapshot(s: &mut Snapshot) -> Vec<u64> {
        s.counters().iter().map(|c| c.value).collect()
    }
}

impl Obj for Gauge {
    fn make(inst: u64) -> Gauge {
        let g = Gauge::new();
        g.set(-(inst as i64));
        g
    }
    fn inst(&self) -> u64 {
        -self.value() as u64
    }
    fn read(v: Option<Value>) -> Option<u64> {
        v.map(|v| if let Value::Gauge(v) = v { -v as u64 } else { ODD })
    }
    fn in_snapshot(s: &mut Snapshot) -> Vec<u64> {
        s.gauges().iter().map(|c| -c.value as u64).collect()
    }
}

impl Obj for AtomicHistogram {
    fn make(inst: u64) -> AtomicHistogram {
        let h = AtomicHistogram::new(1, 8);
        for _ in 0..inst {
            h.increment(0).unwrap();
        }
        h
    }
    fn inst(&self) -> u64 {
        carried(self.load())
    }
    fn read(v: Option<Value>) -> Option<u64> {
        v.map(|v| match v {
            Value::Other(a) => a.downcast_ref::<AtomicHistogram>().map_or(ODD, |h| carried(h.load())),
            _ => ODD,
        })
    }
    fn in_snapshot(s: &mut Snapshot) -> Vec<u64> {
        s.histograms().iter().map(|h| h.value.as_slice()[0]).collect()
    }
}

impl Obj for RwLockHistogram {
    fn make(inst: u64) -> RwLockHistogram {
        let h = RwLockHistogram::new(0, 2);
        let mut data = vec![0; h.config().total_buckets()];
        data[0] = inst;
        h.update_from(&data).unwrap();
        h
    }
    fn inst(&self) -> u64 {
        carried(self.load())
    }
    fn read(v: Option<Value>) -> Option<u64> {
        v.map(|v| match v {
            Value::Other(a) => a.downcast_ref::<RwLockHistogram>().map_or(ODD, |h| carried(h.load())),
            _ => ODD,
        })
    }
    fn in_snapshot(s: &mut Snapshot) -> Vec<u64> {
        s.histograms().iter().map(|h| h.value.as_slice()[0]).collect()
    }
}

pub struct P {
    inst: u64,
}
impl Default for P {
    fn default() -> Self {
        initializer()
    }
}
impl Metric for P {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.inst))
    }
}

fn ident<T: Obj>(p: &T) -> (u64, u64) {
    let a = p as *const T as usize;
    let mut g = gate();
    let i = g.addrs.iter().position(|x| *x == a).unwrap_or_else(|| {
        g.addrs.push(a);
        g.addrs.len() - 1
    });
    (p.inst(), i as u64 + 1)
}

enum Seen {
    Obj(Option<(u64, u64)>),
    Val(Option<u64>),
    Flag(bool),
}

fn observe<T: Obj>(m: &dyn Metric, op: &str) -> Seen {
    match op {
        "value" => Seen::Val(T::read(m.value())),
        "enabled" => Seen::Flag(m.is_enabled()),
        "any" => Seen::Obj(m.as_any().map(|a| match a.downcast_ref::<T>() {
            Some(p) => ident(p),
            None => (0, 0),
        })),
        x => driver_bug(x),
    }
}

type Pick = fn(&MetricEntry) -> bool;
fn is_dyn(e: &MetricEntry) -> bool {
    e.name() == "lazy.dyn"
}

trait Target: Send + Sync {
    fn op(&self, op: &str) -> Seen;
}

fn shared_op<T: Obj, F: FnOnce() -> T + Send + 'static>(l: &Lazy<T, F>, op: &str, pick: Pick) -> Seen {
    match op {
        "force" => Seen::Obj(Some(ident(Lazy::force(l)))),
        "deref" => Seen::Obj(Some(ident(&**l))),
        "get" => Seen::Obj(Lazy::get(l).map(ident)),
        "snapshot" => {
            let mut s: Snapshot = SnapshotterBuilder::new().filter(pick).build().snapshot();
            // the accessors take what they return
            let v = T::in_snapshot(&mut s);
            let other = s.counters().len() + s.gauges().len() + s.histograms().len();
            match (other, &v[..]) {
                (0, []) => Seen::Val(None),
                (0, [v]) => Seen::Val(Some(*v)),
                _ => Seen::Val(Some(ODD)),
            }
        }
        op if op.starts_with("entry.") => {
            let m = metrics();
            let e = m.iter().find(|e| pick(e)).expect("not listed");
            observe::<T>(&**e, &op[6..])
        }
        op => observe::<T>(l, op),
    }
}

struct Dyn<T: Obj, F: FnOnce() -> T + Send + 'static>(DynBoxedMetric<Lazy<T, F>>);
impl<T: Obj, F: FnOnce() -> T + Send + 'static> Target for Dyn<T, F> {
    fn op(&self, op: &str) -> Seen {
        shared_op(&*self.0, op, is_dyn)
    }
}

struct Bare<T: Obj>(Lazy<T>);
impl<T: Obj> Target for Bare<T> {
    fn op(&self, op: &str) -> Seen {
        shared_op(&self.0, op, is_dyn)
    }
}

/// Not registered, owned by one thread: the exclusive accesses.
struct Owned<T: Obj>(Mutex<Lazy<T>>);
impl<T: Obj> Target for Owned<T> {
    fn op(&self, op: &str) -> Seen {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        match op {
            "get_mut" => Seen::Obj(Lazy::get_mut(&mut g).map(|p| ident(p))),
            "deref_mut" => {
                let p: &mut T = &mut **g;
                Seen::Obj(Some(ident(p)))
            }
            "snapshot" => Seen::Val(Lazy::get(&g).map(|p| p.inst())),
            op => shared_op(&*g, op.trim_start_matches("entry."), is_dyn),
        }
    }
}

#[metric(name = "lazy.static")]
static STATIC: Lazy<P> = Lazy::new(initializer);
#[metric(name = "lazy.static.counter")]
static COUNTER: LazyCounter = LazyCounter::new(initializer);
#[metric(name = "lazy.static.gauge")]
static GAUGE: LazyGauge = LazyGauge::new(initializer);
#[metric(name = "lazy.static.ahist")]
static AHIST: Lazy<AtomicHistogram> = Lazy::new(initializer);
#[metric(name = "lazy.static.rhist")]
static RHIST: Lazy<RwLockHistogram> = Lazy::new(initializer);
struct Stat<T: Obj>(&'static Lazy<T>, Pick);
impl<T: Obj> Target for Stat<T> {
    fn op(&self, op: &str) -> Seen {
        shared_op(self.0, op, self.1)
    }
}

fn of<T: Obj>(kind: &str) -> Arc<dyn Target> {
    let b = MetricBuilder::new("lazy.dyn");
    match kind {
        "dyn" => {
            let f: Box<dyn FnOnce() -> T + Send> = Box::new(initializer);
            Arc::new(Dyn(b.build(Lazy::new(f))))
        }
        "fn" => Arc::new(Dyn(b.build(Lazy::new(initializer as fn() -> T)))),
        "owned" => Arc::new(Owned(Mutex::new(Lazy::new(initializer as fn() -> T)))),
        "bare" => Arc::new(Bare(Lazy::new(initializer as fn() -> T))),
        x => driver_bug(x),
    }
}

fn target(kind: &str, obj: &str) -> Arc<dyn Target> {
    match (kind, obj) {
        ("default", _) => Arc::new(Dyn(MetricBuilder::new("lazy.dyn").build(Lazy::<P>::default()))),
        ("owndef", _) => Arc::new(Owned(Mutex::new(Lazy::<P>::default()))),
        ("static", "custom") => Arc::new(Stat(&STATIC, |e| e.name() == "lazy.static")),
        ("static", "counter") => Arc::new(Stat(&COUNTER, |e| e.name() == "lazy.static.counter")),
        ("static", "gauge") => Arc::new(Stat(&GAUGE, |e| e.name() == "lazy.static.gauge")),
        ("static", "ahist") => Arc::new(Stat(&AHIST, |e| e.name() == "lazy.static.ahist")),
        ("static", "rhist") => Arc::new(Stat(&RHIST, |e| e.name() == "lazy.static.rhist")),
        (_, "custom") => of::<P>(kind),
        (_, "counter") => of::<Counter>(kind),
        (_, "gauge") => of::<Gauge>(kind),
        (_, "ahist") => of::<AtomicHistogram>(kind),
        (_, "rhist") => of::<RwLockHistogram>(kind),
        (_, x) => driver_bug(x),
    }
}

fn perform(tg: &dyn Target, op: &str) {
    let t = ME.get();
    let name = op.trim_start_matches("entry.");
    log(json!({"e":"call","t":t,"op":name}));
    log(result(t, guard(|| tg.op(op))));
}

fn result(t: u64, r: Result<Seen, String>) -> J {
    match r {
        Ok(Seen::Obj(Some((i, a)))) => json!({"e":"ret","t":t,"r":[i],"addr":a}),
        Ok(Seen::Val(Some(v))) => json!({"e":"ret","t":t,"r":[v & 0xffff_fff],"addr":0}),
        Ok(Seen::Obj(None)) | Ok(Seen::Val(None)) => json!({"e":"ret","t":t,"r":[],"addr":0}),
        Ok(Seen::Flag(on)) => json!({"e":"retflag","t":t,"on":on}),
        Err(_) => json!({"e":"retpanic","t":t}),
    }
}

fn reset(gated: bool, free: &'static str) {
    *gate() = Gate { gated, free, ..Gate::default() };
    log(json!({"e":"new"}));
}

fn stepped(sc: &J) -> bool {
    reset(true, "ok");
    let tg = target(s(sc, "kind"), s(sc, "obj"));
    let steps = sc["steps"].as_array().unwrap();
    let (dtx, done): (Sender<u64>, Receiver<u64>) = channel();
    let mut w: HashMap<u64, (Sender<String>, bool)> = HashMap::new();
    let mut handles = vec![];
    for t in 1..=steps.iter().map(|x| n(x, "t")).max().unwrap() {
        let (tx, rx) = channel::<String>();
        let (d, tg) = (dtx.clone(), tg.clone());
        handles.push(std::thread::spawn(move || {
            ME.set(t);
            for op in rx {
                perform(&*tg, &op);
                let _ = d.send(t);
            }
        }));
        w.insert(t, (tx, false));
    }
    // Wait until t is done; may_block says whether it is allowed not to be yet.
    let wait = |w: &mut HashMap<u64, (Sender<String>, bool)>, t: u64, force: bool, grace: u64| -> bool {
        let start = Instant::now();
        loop {
            match done.recv_timeout(Duration::from_millis(2)) {
                Ok(u) => w.get_mut(&u).unwrap().1 = false,
                Err(RecvTimeoutError::Timeout) => {}
                Err(_) => driver_bug("workers gone"),
            }
            if !w[&t].1 {
                return true;
            }
            if force && gate().running > 0 && start.elapsed() > Duration::from_millis(grace) {
                return true; // inside the initializer, or waiting for it
            }
            if start.elapsed() > MUST {
                log(json!({"e":"stuck","t":t}));
                return false;
            }
        }
    };
    let mut k = 0;
    for st in steps {
        let (t, op) = (n(st, "t"), s(st, "op"));
        while let Ok(u) = done.try_recv() {
            w.get_mut(&u).unwrap().1 = false;
        }
        if op == "release" {
            let how = if s(st, "how") == "ok" { "ok" } else { "panic" };
            {
                let mut g = gate();
                if g.running == 0 || !g.release.is_empty() {
                    continue;
                }
                g.release.push(how);
                BELL.notify_all();
            }
            // Everything waiting for the initializer must now finish.
            let busy: Vec<u64> = w.iter().filter(|x| x.1 .1).map(|x| *x.0).collect();
            for u in busy {
                if !wait(&mut w, u, true, 50) {
                    return false;
                }
            }
            continue;
        }
        if w[&t].1 {
            continue;
        }
        k += 1;
        let observer = ["value", "enabled", "any"].contains(&op);
        let name = if observer && k % 2 == 0 { format!("entry.{op}") } else { op.to_string() };
        let x = w.get_mut(&t).unwrap();
        x.1 = true;
        x.0.send(name).unwrap();
        if !wait(&mut w, t, ["force", "deref", "deref_mut"].contains(&op), 3) {
            return false;
        }
    }
    if gate().running > 0 {
        gate().release.push("ok");
        BELL.notify_all();
    }
    let all: Vec<u64> = w.keys().copied().collect();
    for t in &all {
        let end = Instant::now() + MUST;
        while w[t].1 {
            if let Ok(u) = done.recv_timeout(Duration::from_millis(100)) {
                w.get_mut(&u).unwrap().1 = false;
            }
            if Instant::now() > end {
                log(json!({"e":"stuck","t":t}));
                return false;
            }
        }
    }
    gate().gated = false;
    ME.set(1);
    for op in ["get", "value", "enabled", "entry.any", "snapshot", "force", "get", "entry.value"] {
        perform(&*tg, op);
    }
    // The metric has to be gone before the next one with its name comes.
    drop(w);
    for h in handles {
        let _ = h.join();
    }
    true
}

/// All threads at once, nothing controlled.
fn stress(sc: &J) {
    reset(false, if s(sc, "how") == "ok" { "ok" } else { "panic" });
    let tg = target(s(sc, "kind"), s(sc, "obj"));
    let progs = sc["progs"].as_array().unwrap();
    let bar = std::sync::Barrier::new(progs.len());
    std::thread::scope(|x| {
        for (i, p) in progs.iter().enumerate() {
            let (tg, bar) = (&tg, &bar);
            x.spawn(move || {
                ME.set(i as u64 + 1);
                bar.wait();
                for op in p.as_array().unwrap() {
                    perform(&**tg, op.as_str().unwrap());
                }
            });
        }
    });
}

fn spin(mut done: impl FnMut() -> bool) {
    let mut k = 0u32;
    while !done() {
        k += 1;
        if k % 4096 == 0 {
            std::thread::yield_now();
        }
        std::hint::spin_loop();
    }
}

/// The same few accesses at the same instant, over and over, each time on a
/// new lazy. Only histories not seen before are kept.
fn hot(sc: &J) {
    let progs: Vec<Vec<String>> = serde_json::from_value(sc["hot"].clone()).unwrap();
    let how = if s(sc, "how") == "ok" { "ok" } else { "panic" };
    let (rounds, k) = (n(sc, "rounds"), progs.len() as u64);
    let end = Instant::now() + Duration::from_millis(n(sc, "ms"));
    let slot: Mutex<Option<Arc<dyn Target>>> = Mutex::new(None);
    let (round, ready, finished, over) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
    let events: Mutex<Vec<(u64, J)>> = Mutex::new(vec![]);
    let mut seen = HashSet::new();
    std::thread::scope(|x| {
        for (i, prog) in progs.iter().enumerate() {
            let (slot, round, ready, finished, over, events) = (&slot, &round, &ready, &finished, &over, &events);
            x.spawn(move || {
                let t = i as u64 + 1;
                ME.set(t);
                for r in 1.. {
                    spin(|| round.load(SeqCst) == r || over.load(SeqCst));
                    if over.load(SeqCst) {
                        return;
                    }
                    let tg = slot.lock().unwrap().clone().unwrap();
                    HOT.with(|h| *h.borrow_mut() = Some(Vec::with_capacity(16)));
                    let mut seen = Vec::with_capacity(8);
                    ready.fetch_add(1, SeqCst);
                    spin(|| ready.load(SeqCst) >= k * r);
                    for op in prog {
                        let a = stamp();
                        let res = guard(|| tg.op(op));
                        seen.push((a, stamp(), op, res));
                    }
                    drop(tg);
                    let mut mine = HOT.with(|h| h.borrow_mut().take().unwrap());
                    for (a, b, op, res) in seen {
                        mine.push((a, json!({"e":"call","t":t,"op":op})));
                        mine.push((b, result(t, res)));
                    }
                    events.lock().unwrap().append(&mut mine);
                    finished.fetch_add(1, SeqCst);
                }
            });
        }
        for r in 1..=rounds {
            if Instant::now() > end {
                break;
            }
            *gate() = Gate { free: how, ..Gate::default() };
            *slot.lock().unwrap() = Some(target("bare", s(sc, "obj")));
            round.store(r, SeqCst);
            spin(|| finished.load(SeqCst) == k * r);
            let mut ev = std::mem::take(&mut *events.lock().unwrap());
            ev.sort_by_key(|e| e.0);
            let ev: Vec<J> = ev.into_iter().map(|e| e.1).collect();
            if seen.len() < 400 && seen.insert(serde_json::to_string(&ev).unwrap()) {
                log(json!({"e":"new"}));
                ev.into_iter().for_each(log);
            }
        }
        over.store(true, SeqCst);
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    for sc in scenarios(&a[1]) {
        let ok = if sc.get("steps").is_some() {
            stepped(&sc)
        } else {
            let (tx, rx) = channel();
            std::thread::spawn(move || {
                if sc.get("hot").is_some() {
                    hot(&sc);
                } else {
                    stress(&sc);
                }
                let _ = tx.send(());
            });
            let ok = rx.recv_timeout(MUST).is_ok();
            if !ok {
                log(json!({"e":"stuck","t":0}));
            }
            ok
        };
        for e in LOG.lock().unwrap_or_else(|e| e.into_inner()).drain(..) {
            o.put(&e);
        }
        if !ok {
            break;
        }
    }
    o.done();
    std::process::exit(0);
}
