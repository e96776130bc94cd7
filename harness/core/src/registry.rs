//! C01, C02, C03: the registry of dynamic metrics, driven step by step (one
//! worker thread per scenario thread), in bulk, and freely racing.
use crate::common::*;
use metriken::{metric, metrics, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Metric, MetricBuilder,
    MetricEntry, Metrics, Value};
use serde_json::{json, Value as J};
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::pin::Pin;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

const MUST: Duration = Duration::from_secs(60);

// ---- the log ---------------------------------------------------------------
static LOG: Mutex<Vec<J>> = Mutex::new(Vec::new());

fn log(j: J) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(j);
}
fn flush(out: &mut Out) {
    for e in LOG.lock().unwrap_or_else(|e| e.into_inner()).drain(..) {
        out.put(&e);
    }
}

// ---- metric types ----------------------------------------------------------
thread_local! {
    /// The scenario thread this OS thread plays.
    static ME: Cell<u64> = const { Cell::new(0) };
    /// Which callback is to panic, and the view open at that moment.
    static BOMB: RefCell<Option<(String, u64)>> = const { RefCell::new(None) };
}

/// Called from user callbacks: panics if armed for this kind of callback.
fn fuse(kind: &str) {
    let armed = BOMB.with(|b| {
        let mut b = b.borrow_mut();
        match &*b {
            Some((w, v)) if w == kind => {
                let v = *v;
                *b = None;
                Some(v)
            }
            _ => None,
        }
    });
    if let Some(v) = armed {
        log(json!({"e":"call","t":ME.get(),"op":"close","v":v,"how":"panic"}));
        panic!("bomb");
    }
}

pub struct Probe {
    id: u64,
    nested: bool,
    pub bomb: bool,
}

impl Probe {
    const fn fixed(id: u64) -> Self {
        Probe { id, nested: false, bomb: false }
    }
}

impl Metric for Probe {
    fn is_enabled(&self) -> bool {
        fuse("enabled");
        true
    }
    fn as_any(&self) -> Option<&dyn Any> {
        fuse("any");
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        fuse("value");
        Some(Value::Counter(self.id))
    }
    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
        fuse("provide");
        request.provide_ref(&self.id);
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        let t = ME.get();
        if self.nested && t != 0 {
            // What does a listing show while this very metric is being destroyed?
            log(json!({"e":"indrop","t":t,"id":self.id}));
            let v = 1_000_000 + self.id;
            ME.set(t + 100);
            let m = open(v);
            list(&m, v);
            close(m, v);
            ME.set(t);
        }
        if self.bomb {
            panic!("bomb in drop");
        }
    }
}

pub fn probe_formatter(e: &MetricEntry, _f: Format) -> String {
    fuse("format");
    e.name().to_string()
}

#[metric(name = "static.one", description = "one")]
static ONE: Probe = Probe::fixed(900_001);
#[metric(formatter = probe_formatter)]
static TWO: Probe = Probe::fixed(900_002);
#[metric(name = "a", metadata = { k = "v" })]
static THREE: Probe = Probe::fixed(900_003);
const STATICS: [u64; 3] = [900_001, 900_002, 900_003];

/// A zero-sized metric; its identity is its type.
struct Zst<const N: u64>;
impl<const N: u64> Metric for Zst<N> {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(800_000 + N))
    }
}

/// A metric that says it is not set up, though it has a value.
struct Off(u64);
impl Metric for Off {
    fn is_enabled(&self) -> bool {
        false
    }
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0))
    }
}

struct Big {
    id: u64,
    _pad: [u8; 5000],
}
impl Metric for Big {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.id))
    }
}

#[repr(align(256))]
struct Aligned(u64);
impl Metric for Aligned {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Gauge(self.0 as i64))
    }
}

// ---- placement -------------------------------------------------------------
struct Arena {
    addrs: Vec<usize>,
    used: Vec<bool>,
}
type Arenas = HashMap<(TypeId, bool), Arena>;
static ARENAS: Mutex<Option<Arenas>> = Mutex::new(None);

/// Addresses that are equal modulo 2^32 (and so in every narrower key).
fn far_regions() -> &'static Vec<usize> {
    static R: OnceLock<Vec<usize>> = OnceLock::new();
    R.get_or_init(|| {
        (0..7usize)
            .map(|i| i << 32)
            .chain([36, 40, 42, 43, 44].map(|k| 1usize << k))
            .filter_map(|d| {
                let want = 0x1000_0000_0000usize + d;
                let p = unsafe {
                    libc::mmap(
                        want as *mut _,
                        1 << 20,
                        libc::PROT_READ | libc::PROT_WRITE,
                        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                        -1,
                        0,
                    )
                };
                (p as usize == want).then_some(want)
            })
            .collect()
    })
}

fn take_slot<T: 'static>(far: bool) -> Option<(usize, usize)> {
    let mut g = ARENAS.lock().unwrap();
    let map = g.get_or_insert_with(HashMap::new);
    let n = map.len();
    let a = map.entry((TypeId::of::<T>(), far)).or_insert_with(|| {
        let size = std::mem::size_of::<T>();
        let addrs: Vec<usize> = if far {
            far_regions().iter().map(|r| r + (n % 60) * 16384).collect()
        } else {
            let p = unsafe {
                libc::mmap(
                    std::ptr::null_mut(),
                    size * 64 + 8192,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                )
            } as usize;
            (0..64).map(|i| p + i * size).collect()
        };
        Arena { used: vec![false; addrs.len()], addrs }
    });
    let i = a.used.iter().position(|u| !u)?;
    a.used[i] = true;
    Some((i, a.addrs[i]))
}

fn free_slot<T: 'static>(far: bool, i: usize) {
    let mut g = ARENAS.lock().unwrap();
    g.as_mut().unwrap().get_mut(&(TypeId::of::<T>(), far)).unwrap().used[i] = false;
}

pub trait Held: Send {
    fn register(&self, entry: MetricEntry);
}

struct Slot<M: Metric> {
    ptr: *mut DynPinnedMetric<M>,
    far: bool,
    i: usize,
}
unsafe impl<M: Metric> Send for Slot<M> {}
impl<M: Metric> Held for Slot<M> {
    fn register(&self, entry: MetricEntry) {
        unsafe { Pin::new_unchecked(&*self.ptr) }.register(entry);
    }
}
impl<M: Metric> Drop for Slot<M> {
    fn drop(&mut self) {
        struct Free<F: FnMut()>(F);
        impl<F: FnMut()> Drop for Free<F> {
            fn drop(&mut self) {
                (self.0)()
            }
        }
        let (far, i) = (self.far, self.i);
        let _f = Free(|| free_slot::<DynPinnedMetric<M>>(far, i));
        unsafe { std::ptr::drop_in_place(self.ptr) };
    }
}

struct PinBox<M: Metric>(Pin<Box<DynPinnedMetric<M>>>);
impl<M: Metric> Held for PinBox<M> {
    fn register(&self, entry: MetricEntry) {
        self.0.as_ref().register(entry);
    }
}

struct Boxed<M: Metric> {
    _m: DynBoxedMetric<M>,
}
impl<M: Metric> Held for Boxed<M> {
    fn register(&self, _: MetricEntry) {
        driver_bug("a boxed metric cannot be registered again");
    }
}

fn builder(name: &str, desc: &[String]) -> MetricBuilder {
    let b = MetricBuilder::new(name.to_string());
    match desc {
        [d] => b.description(d.clone()),
        _ => b,
    }
}

/// Identifies metrics that have no value.
struct Tag(u64);

thread_local! {
    /// What the builder of the next metric is given besides name and description.
    static STYLE: Cell<u64> = const { Cell::new(0) };
}

fn make<M: Metric>(m: M, place: &str, name: &str, desc: &[String]) -> Box<dyn Held> {
    let style = STYLE.get();
    let mut b = builder(name, desc);
    if style & 1 == 0 {
        b = b.formatter(probe_formatter);
    }
    if style & 2 == 0 {
        b = b.metadata("k", "v");
    }
    b = b.provide(Tag(style >> 8));
    if place == "boxed" {
        #[allow(deprecated)]
        if style & 4 != 0 && matches!(m.value(), Some(Value::Counter(_) | Value::Gauge(_))) {
            return Box::new(Boxed { _m: DynBoxedMetric::new(m, b.into_entry()) });
        }
        return Box::new(Boxed { _m: b.build(m) });
    }
    #[allow(deprecated)]
    let pinned = if style & 4 != 0 && matches!(m.value(), Some(Value::Counter(_) | Value::Gauge(_))) {
        DynPinnedMetric::new(m)
    } else {
        b.build_pinned(m).0
    };
    let far = place == "far";
    match take_slot::<DynPinnedMetric<M>>(far) {
        Some((i, addr)) => {
            let ptr = addr as *mut DynPinnedMetric<M>;
            unsafe { ptr.write(pinned) };
            Box::new(Slot { ptr, far, i })
        }
        None => Box::new(PinBox(Box::pin(pinned))),
    }
}

macro_rules! zst {
    ($n:expr, $p:expr, $name:expr, $d:expr; $($k:literal)*) => {
        match $n { $($k => make(Zst::<$k>, $p, $name, $d),)* _ => driver_bug("zst") }
    };
}

fn make_kind(kind: &str, id: u64, place: &str, name: &str, desc: &[String]) -> Box<dyn Held> {
    STYLE.set(STYLE.get() & 0xff | id << 8);
    match kind {
        "off" => make(Off(id), place, name, desc),
        "lazy" => make(metriken::Lazy::<Counter>::new(Counter::new), place, name, desc),
        "lazyhist" => make(metriken::RwLockHistogram::new(1, 8), place, name, desc),
        "counter" => {
            let c = Counter::new();
            c.add(id);
            make(c, place, name, desc)
        }
        "gauge" => make(Gauge::with_value(id as i64), place, name, desc),
        "probe" => make(Probe { id, nested: true, bomb: false }, place, name, desc),
        "bomb" => make(Probe { id, nested: true, bomb: true }, place, name, desc),
        "plain" => make(Probe { id, nested: false, bomb: false }, place, name, desc),
        "big" => make(Big { id, _pad: [7; 5000] }, place, name, desc),
        "aligned" => make(Aligned(id), place, name, desc),
        "zst" => zst!(id - 800_000, place, name, desc; 0 1 2 3 4 5 6 7 8 9 10 11),
        k => driver_bug(k),
    }
}

// ---- logged operations -----------------------------------------------------
fn open(v: u64) -> Metrics {
    log(json!({"e":"call","t":ME.get(),"op":"open","v":v}));
    let m = metrics();
    log(json!({"e":"ret","t":ME.get(),"outcome":"ok"}));
    m
}

fn close(m: Metrics, v: u64) {
    log(json!({"e":"call","t":ME.get(),"op":"close","v":v,"how":"ok"}));
    drop(m);
    log(json!({"e":"ret","t":ME.get(),"outcome":"ok"}));
}

fn id_of(e: &MetricEntry) -> u64 {
    let n = match e.value() {
        Some(Value::Counter(v)) => v,
        Some(Value::Gauge(v)) => v as u64,
        _ => e.request_ref::<Tag>().map_or(0, |t| t.0),
    };
    n & 0x7fff_ffff
}

fn list(m: &Metrics, v: u64) {
    let dyns: Vec<J> = m
        .dynamic_metrics()
        .map(|e| {
            let d: Vec<&str> = e.description().into_iter().collect();
            json!({"id":id_of(e),"name":e.name(),"desc":d})
        })
        .collect();
    let all: Vec<u64> = m.iter().map(id_of).collect();
    let st: Vec<u64> = m.static_metrics().iter().map(id_of).collect();
    log(json!({"e":"list","t":ME.get(),"v":v,"dyn":dyns,"all":all,"st":st}));
}

#[derive(Clone)]
struct Info {
    kind: String,
    real: u64,
}
type Table = Arc<Mutex<HashMap<u64, (Info, Box<dyn Held>)>>>;

fn desc_of(st: &J) -> Vec<String> {
    st["desc"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

/// Runs f while the thread is unwinding from a panic.
fn unwinding(f: impl FnOnce()) {
    struct G<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for G<F> {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }
    let _ = guard(|| {
        let _g = G(Some(f));
        panic!("unwinding");
    });
}

thread_local! {
    static KEEP: RefCell<Option<Leave>> = const { RefCell::new(None) };
}
struct Leave(Option<Box<dyn Held>>);
impl Drop for Leave {
    fn drop(&mut self) {
        drop(self.0.take())
    }
}

/// One step on a worker thread. `views` are the views this thread holds.
/// The step can be asked to happen in an unusual place: while the thread is
/// unwinding, or on a thread that ends right afterwards.
fn step(st: &J, real: u64, views: &mut HashMap<u64, Metrics>, table: &Table) {
    if let Some(x) = st.get("style") {
        STYLE.set(x.as_u64().unwrap());
    }
    let (t, style) = (ME.get(), STYLE.get());
    match st.get("via").and_then(|x| x.as_str()) {
        Some("unwind") => unwinding(|| step_(st, real, views, table)),
        Some("thread") if matches!(s(st, "op"), "build" | "register" | "drop") => std::thread::scope(|x| {
            x.spawn(|| {
                ME.set(t);
                STYLE.set(style);
                step_(st, real, &mut HashMap::new(), table)
            });
        }),
        _ => step_(st, real, views, table),
    }
}

fn step_(st: &J, real: u64, views: &mut HashMap<u64, Metrics>, table: &Table) {
    let t = ME.get();
    match s(st, "op") {
        "build" => {
            let (kind, place, name) = (s(st, "kind"), s(st, "place"), s(st, "name"));
            let desc = desc_of(st);
            let boxed = place == "boxed";
            if boxed {
                log(json!({"e":"call","t":t,"op":"register","id":real,"name":name,"desc":desc}));
            }
            match guard(|| make_kind(kind, real, place, name, &desc)) {
                Ok(h) => {
                    if boxed {
                        log(json!({"e":"ret","t":t,"outcome":"ok"}));
                    }
                    table.lock().unwrap().insert(n(st, "id"), (Info { kind: kind.into(), real }, h));
                }
                Err(p) => log(json!({"e":"ret","t":t,"outcome":p})),
            }
        }
        "register" => {
            let (info, h) = table.lock().unwrap().remove(&n(st, "id")).unwrap();
            let (name, desc) = (s(st, "name"), desc_of(st));
            log(json!({"e":"call","t":t,"op":"register","id":info.real,"name":name,"desc":desc}));
            let r = guard(|| h.register(builder(name, &desc).into_entry()));
            log(json!({"e":"ret","t":t,"outcome":r.err().unwrap_or("ok".into())}));
            table.lock().unwrap().insert(n(st, "id"), (info, h));
        }
        "drop" => {
            let (info, h) = table.lock().unwrap().remove(&n(st, "id")).unwrap();
            if info.kind != "bomb" && st.get("via").and_then(|x| x.as_str()) == Some("exit") {
                // Destroyed with the thread's own storage, after its last function returned.
                log(json!({"e":"call","t":t,"op":"drop","id":info.real,"how":"ok"}));
                let r = std::thread::spawn(move || {
                    ME.set(t);
                    KEEP.with(|k| *k.borrow_mut() = Some(Leave(Some(h))));
                })
                .join();
                log(json!({"e":"ret","t":t,"outcome": if r.is_ok() { "ok" } else { "panic at exit" }}));
                return;
            }
            drop_held(info, h);
        }
        "open" => {
            let v = n(st, "v");
            let m = open(v);
            views.insert(v, m);
        }
        "list" => {
            let v = n(st, "v");
            if let Err(p) = guard(|| list(&views[&v], v)) {
                log(json!({"e":"panic","what":p}));
            }
        }
        "close" => {
            let v = n(st, "v");
            close(views.remove(&v).unwrap(), v);
        }
        "panic" => panic_under_view(s(st, "where"), n(st, "v")),
        x => driver_bug(x),
    }
}

fn drop_held(info: Info, h: Box<dyn Held>) {
    let t = ME.get();
    let how = if info.kind == "bomb" { "panic" } else { "ok" };
    log(json!({"e":"call","t":t,"op":"drop","id":info.real,"how":how}));
    let r = guard(move || drop(h));
    log(json!({"e":"ret","t":t,"outcome": outcome(r)}));
}

fn outcome<T>(r: Result<T, String>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(p) if p.starts_with("bomb") => "panic".into(),
        Err(p) => p,
    }
}

fn panic_under_view(wher: &str, v: u64) {
    let t = ME.get();
    log(json!({"e":"call","t":t,"op":"open","v":v}));
    let arm = |k: &str| BOMB.with(|b| *b.borrow_mut() = Some((k.to_string(), v)));
    let r = guard(|| {
        #[cfg(feature = "expo")]
        if wher == "filter" || wher == "snapvalue" || wher == "snapformat" {
            return crate::snapbomb::run(wher, &arm, || log(json!({"e":"ret","t":t,"outcome":"ok"})), fuse);
        }
        let m = metrics();
        log(json!({"e":"ret","t":t,"outcome":"ok"}));
        arm(match wher {
            "loop" | "fold" => "loop",
            x => x,
        });
        match wher {
            "loop" => {
                let k = (v % 4) as usize;
                let mut i = 0;
                let body = |_: &MetricEntry| {
                    if i == k.min(2) {
                        fuse("loop");
                    }
                    i += 1;
                };
                // in all the ways there are
                match (v / 4) % 3 {
                    0 => m.iter().for_each(body),
                    1 => m.iter().rev().for_each(body),
                    _ => m.static_metrics().iter().for_each(body),
                }
            }
            "fold" => {
                m.iter().fold(0, |n, _| {
                    if n == 2 {
                        fuse("loop");
                    }
                    n + 1
                });
            }
            "value" => m.iter().for_each(|e| drop(e.value())),
            "enabled" => m.iter().for_each(|e| drop(e.is_enabled())),
            "any" => m.iter().for_each(|e| drop(e.as_any().is_some())),
            "provide" => m.iter().for_each(|e| drop(e.request_ref::<u32>())),
            "format" if v % 2 == 0 => m.iter().for_each(|e| drop(e.formatted(Format::Simple))),
            "format" => m.iter().rev().for_each(|e| drop(e.formatted(Format::Prometheus))),
            x => driver_bug(x),
        }
        // Not reached, unless a callback was skipped: the missing panic shows.
    });
    BOMB.with(|b| *b.borrow_mut() = None);
    log(json!({"e":"ret","t":t,"outcome":outcome(r)}));
}

// ---- stepped scenarios -----------------------------------------------------
enum Cmd {
    Step(J, u64),
    Finish,
}

struct Worker {
    tx: Sender<Cmd>,
    busy: Option<String>, // the operation in progress
    views: Vec<u64>,      // views held, as far as the controller knows
    opening: Option<u64>,
}

fn worker(t: u64, rx: Receiver<Cmd>, done: Sender<u64>, table: Table) {
    ME.set(t);
    let mut views: HashMap<u64, Metrics> = HashMap::new();
    for c in rx {
        match c {
            Cmd::Step(st, real) => step(&st, real, &mut views, &table),
            Cmd::Finish => {
                for (v, m) in views.drain() {
                    close(m, v);
                }
            }
        }
        let _ = done.send(t);
    }
}

struct Control {
    w: HashMap<u64, Worker>,
    done: Receiver<u64>,
}

impl Control {
    fn settle(&mut self, t: u64) {
        let w = self.w.get_mut(&t).unwrap();
        w.busy = None;
        if let Some(v) = w.opening.take() {
            w.views.push(v);
        }
    }
    /// Wait for worker t; true if it finished.
    fn wait(&mut self, t: u64, d: Duration) -> bool {
        let end = Instant::now() + d;
        while self.w[&t].busy.is_some() {
            match self.done.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(u) => self.settle(u),
                Err(RecvTimeoutError::Timeout) => return false,
                Err(_) => driver_bug("worker gone"),
            }
        }
        true
    }
    fn drain(&mut self) {
        while let Ok(u) = self.done.try_recv() {
            self.settle(u);
        }
    }
    fn writers(&self) -> bool {
        self.w.values().any(|w| w.busy.as_deref() == Some("write"))
    }
    fn readers(&self) -> bool {
        self.w.values().any(|w| !w.views.is_empty() || w.opening.is_some() || w.busy.as_deref() == Some("read"))
    }
    fn send(&mut self, t: u64, class: &str, c: Cmd) {
        let w = self.w.get_mut(&t).unwrap();
        w.busy = Some(class.into());
        w.tx.send(c).unwrap();
    }
}

/// Returns false if something got stuck.
fn stepped(sc: &J, grace: Duration) -> bool {
    let steps = sc["steps"].as_array().unwrap();
    let mut ts: Vec<u64> = steps.iter().map(|x| n(x, "t")).collect();
    ts.extend([1, 2]);
    ts.sort();
    ts.dedup();
    let table: Table = Default::default();
    let (dtx, drx) = channel();
    let mut c = Control { w: HashMap::new(), done: drx };
    for t in ts {
        let (tx, rx) = channel();
        let (d, tb) = (dtx.clone(), table.clone());
        std::thread::spawn(move || worker(t, rx, d, tb));
        c.w.insert(t, Worker { tx, busy: None, views: vec![], opening: None });
    }
    let mut zfree: Vec<u64> = (0..12).rev().collect();
    let mut real: HashMap<u64, (u64, bool)> = HashMap::new(); // id -> real id, boxed
    let mut busy_ids: HashMap<u64, u64> = HashMap::new(); // id -> worker working on it

    log(json!({"e":"new","statics":STATICS}));
    for st in steps {
        let t = n(st, "t");
        c.drain();
        if c.w[&t].busy.is_some() {
            continue; // still waiting, as it may
        }
        busy_ids.retain(|_, w| c.w[w].busy.is_some());
        let op = s(st, "op");
        let holding = !c.w[&t].views.is_empty();
        let class = match op {
            "build" | "register" | "drop" => {
                if holding {
                    continue; // would deadlock, as documented
                }
                "write"
            }
            "open" | "panic" => {
                if holding && c.writers() {
                    continue; // not promised to succeed
                }
                "read"
            }
            _ => "own",
        };
        let mut rid = 0;
        match op {
            "build" => {
                let id = n(st, "id");
                rid = if s(st, "kind") == "zst" {
                    match zfree.pop() {
                        Some(z) => 800_000 + z,
                        None => continue,
                    }
                } else {
                    id
                };
                real.insert(id, (rid, s(st, "place") == "boxed"));
                busy_ids.insert(id, t);
            }
            "register" | "drop" => {
                let id = n(st, "id");
                if !table.lock().unwrap().contains_key(&id) || busy_ids.contains_key(&id) {
                    continue;
                }
                if op == "register" && real[&id].1 {
                    continue;
                }
                busy_ids.insert(id, t);
                if op == "drop" {
                    real.remove(&id);
                }
            }
            "list" | "close" if !c.w[&t].views.contains(&n(st, "v")) => continue,
            _ => {}
        }
        let must = match class {
            "own" => true,
            "write" => !c.writers() && !c.readers(),
            _ => !c.writers(),
        };
        if op == "close" {
            let v = n(st, "v");
            c.w.get_mut(&t).unwrap().views.retain(|x| *x != v);
        }
        if op == "open" {
            c.w.get_mut(&t).unwrap().opening = Some(n(st, "v"));
        }
        c.send(t, class, Cmd::Step(st.clone(), rid));
        if !c.wait(t, if must { MUST } else { grace }) && must {
            log(json!({"e":"stuck","t":t,"op":op}));
            return false;
        }
    }
    // Release every view; everything must then complete.
    let end = Instant::now() + MUST;
    loop {
        c.drain();
        if c.w.values().all(|w| w.busy.is_none() && w.views.is_empty()) {
            break;
        }
        if Instant::now() > end {
            log(json!({"e":"stuck","t":0,"op":"everything was released"}));
            return false;
        }
        let idle: Vec<u64> =
            c.w.iter().filter(|(_, w)| w.busy.is_none() && !w.views.is_empty()).map(|(t, _)| *t).collect();
        if idle.is_empty() {
            if let Ok(u) = c.done.recv_timeout(Duration::from_millis(200)) {
                c.settle(u);
            }
            continue;
        }
        for t in idle {
            c.w.get_mut(&t).unwrap().views.clear();
            c.send(t, "own", Cmd::Finish);
            c.wait(t, MUST);
        }
    }
    // Still usable from every thread: open, list, close; then drop what is left.
    let all: Vec<u64> = c.w.keys().copied().collect();
    let tail = |c: &mut Control, t: u64, class: &str, st: J| -> bool {
        c.send(t, class, Cmd::Step(st.clone(), st.get("id").and_then(|x| x.as_u64()).unwrap_or(0)));
        let ok = c.wait(t, MUST);
        if !ok {
            log(json!({"e":"stuck","t":t,"op":st["op"]}));
        }
        ok
    };
    let mut v = 500_000;
    for t in &all {
        v += 1;
        if !(tail(&mut c, *t, "read", json!({"t":t,"op":"open","v":v}))
            && tail(&mut c, *t, "own", json!({"t":t,"op":"list","v":v}))
            && tail(&mut c, *t, "own", json!({"t":t,"op":"close","v":v}))
            && tail(&mut c, *t, "write", json!({"t":t,"op":"build","id":600_000 + t,"kind":"counter","place":"boxed","name":"end","desc":[]})))
        {
            return false;
        }
        c.w.get_mut(t).unwrap().views.clear();
    }
    let mut rest: Vec<u64> = table.lock().unwrap().keys().copied().collect();
    rest.sort();
    for (i, id) in rest.iter().enumerate() {
        if !tail(&mut c, all[i % all.len()], "write", json!({"t":0,"op":"drop","id":id})) {
            return false;
        }
    }
    let t = all[0];
    tail(&mut c, t, "read", json!({"t":t,"op":"open","v":v + 1}))
        && tail(&mut c, t, "own", json!({"t":t,"op":"list","v":v + 1}))
        && tail(&mut c, t, "own", json!({"t":t,"op":"close","v":v + 1}))
}

// ---- many metrics ----------------------------------------------------------
fn bulk(sc: &J) {
    ME.set(1);
    log(json!({"e":"new","statics":STATICS}));
    let mut rng = Rng(n(sc, "seed"));
    let mut live: Vec<(u64, Box<dyn Held>)> = vec![];
    let mut next = 1;
    let mut v = 0;
    for round in sc["rounds"].as_array().unwrap() {
        let k = round.as_i64().unwrap();
        if k > 0 {
            let ids: Vec<u64> = (0..k as u64).map(|i| next + i).collect();
            next += k as u64;
            for id in &ids {
                let kind = ["counter", "gauge", "plain", "aligned", "off", "lazy"][rng.below(6) as usize];
                STYLE.set(rng.below(4));
                live.push((*id, make_kind(kind, *id, "boxed", "bulk", &[])));
            }
            log(json!({"e":"bulkreg","ids":ids,"name":"bulk"}));
        } else {
            let mut ids = vec![];
            for _ in 0..(-k) {
                if live.is_empty() {
                    break;
                }
                let (id, h) = live.swap_remove(rng.below(live.len() as u64) as usize);
                ids.push(id);
                drop(h);
            }
            log(json!({"e":"bulkdrop","ids":ids}));
        }
        v += 1;
        let m = open(v);
        list(&m, v);
        close(m, v);
    }
    let ids: Vec<u64> = live.iter().map(|x| x.0).collect();
    drop(live);
    log(json!({"e":"bulkdrop","ids":ids}));
    v += 1;
    let m = open(v);
    list(&m, v);
    close(m, v);
}

// ---- free running ----------------------------------------------------------
fn stress(sc: &J) {
    let (threads, ops, seed) = (n(sc, "stress"), n(sc, "ops"), n(sc, "seed"));
    log(json!({"e":"new","statics":STATICS}));
    let table: Table = Default::default();
    let bar = std::sync::Barrier::new(threads as usize);
    std::thread::scope(|x| {
        for t in 1..=threads {
            let (table, bar) = (&table, &bar);
            x.spawn(move || {
                ME.set(t);
                let mut rng = Rng(seed * 1000 + t);
                let mut mine: Vec<u64> = vec![];
                bar.wait();
                for k in 0..ops {
                    let id = t * 10_000 + k;
                    STYLE.set(rng.below(8));
                    let via = ["", "", "", "unwind", "thread", "exit"][rng.below(6) as usize];
                    match rng.below(10) {
                        0..=3 => {
                            let kind = ["counter", "probe", "plain", "gauge"][rng.below(4) as usize];
                            let place = ["boxed", "boxed", "near", "far"][rng.below(4) as usize];
                            step(&json!({"op":"build","id":id,"kind":kind,"place":place,"name":"s","desc":[],"via":via}), id, &mut HashMap::new(), table);
                            if place != "boxed" {
                                step(&json!({"op":"register","id":id,"name":"r","desc":["x"],"via":via}), id, &mut HashMap::new(), table);
                            }
                            mine.push(id);
                        }
                        4..=6 if !mine.is_empty() => {
                            let id = mine.swap_remove(rng.below(mine.len() as u64) as usize);
                            step(&json!({"op":"drop","id":id,"via":via}), id, &mut HashMap::new(), table);
                        }
                        7 if sc.get("panics").is_some() => {
                            let w = ["loop", "value", "provide", "format", "fold"][rng.below(5) as usize];
                            step(&json!({"op":"panic","where":w,"v":id}), 0, &mut HashMap::new(), table);
                        }
                        _ => {
                            let m = open(id);
                            list(&m, id);
                            for _ in 0..rng.below(3) {
                                std::thread::yield_now();
                            }
                            if rng.below(2) == 0 {
                                list(&m, id);
                            }
                            close(m, id);
                        }
                    }
                }
                for id in mine {
                    step(&json!({"op":"drop","id":id}), id, &mut HashMap::new(), table);
                }
            });
        }
    });
    ME.set(1);
    let m = open(1);
    list(&m, 1);
    close(m, 1);
}

/// A history that never ends is an observation too.
fn watched(what: &str, f: impl FnOnce() + Send + 'static) -> bool {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let r = guard(f);
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(120)) {
        Ok(Ok(())) => true,
        Ok(Err(p)) => {
            log(json!({"e":"panic","what":p}));
            false
        }
        Err(_) => {
            log(json!({"e":"stuck","t":0,"op":what}));
            false
        }
    }
}

pub fn run(scen: &str, out: &str) {
    let mut o = Out::new(out);
    for sc in scenarios(scen) {
        let ok = if sc.get("steps").is_some() {
            stepped(&sc, Duration::from_millis(sc.get("grace").and_then(|x| x.as_u64()).unwrap_or(4)))
        } else if sc.get("rounds").is_some() {
            watched("bulk", move || bulk(&sc))
        } else {
            watched("stress", move || stress(&sc))
        };
        flush(&mut o);
        if !ok {
            break;
        }
    }
    o.done();
    std::process::exit(0);
}
