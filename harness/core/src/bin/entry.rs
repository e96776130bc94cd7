//! C10 (handle), C11 (context), C12 and C13 (builder).
#[path = "../common.rs"]
#[allow(dead_code)]
mod common;
use common::*;
use metriken::{
    metric, metrics, AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Lazy, LazyCounter,
    LazyGauge, Metadata, Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value,
};
use metriken_core::Request;
use serde_json::{json, Value as J};
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local!(static LOG: RefCell<Vec<J>> = const { RefCell::new(Vec::new()) });
fn log(j: J) {
    LOG.with(|l| l.borrow_mut().push(j));
}

// ------------------------------------------------------------------ C10
trait Kind: Metric + Sized {
    fn make() -> Self;
    /// Change the state; returns it as the specification writes it.
    fn put(&self, k: u64) -> J;
    fn fresh() -> J;
    fn obj(&self) -> (*const (), TypeId);
}
const COUNTS: [u64; 6] = [0, 1, u64::MAX, 1 << 63, 12345, 2];
const GAUGES: [i64; 6] = [0, -1, i64::MIN, i64::MAX, 5, 7];
fn me<T: 'static>(x: &T) -> (*const (), TypeId) {
    (x as *const T as *const (), TypeId::of::<T>())
}
impl Kind for Counter {
    fn make() -> Self {
        Counter::new()
    }
    fn put(&self, k: u64) -> J {
        self.set(COUNTS[k as usize - 1]);
        json!(COUNTS[k as usize - 1].to_string())
    }
    fn fresh() -> J {
        json!("0")
    }
    fn obj(&self) -> (*const (), TypeId) {
        me(self)
    }
}
impl Kind for Gauge {
    fn make() -> Self {
        Gauge::new()
    }
    fn put(&self, k: u64) -> J {
        self.set(GAUGES[k as usize - 1]);
        json!(GAUGES[k as usize - 1].to_string())
    }
    fn fresh() -> J {
        json!("0")
    }
    fn obj(&self) -> (*const (), TypeId) {
        me(self)
    }
}
impl<T: Kind + Default> Kind for Lazy<T> {
    fn make() -> Self {
        Lazy::default()
    }
    fn put(&self, k: u64) -> J {
        Lazy::force(self).put(k)
    }
    fn fresh() -> J {
        json!("")
    }
    fn obj(&self) -> (*const (), TypeId) {
        match Lazy::get(self) {
            Some(x) => me(x),
            None => me(self),
        }
    }
}
impl Kind for AtomicHistogram {
    fn make() -> Self {
        AtomicHistogram::new(3, 20)
    }
    fn put(&self, k: u64) -> J {
        let _ = self.increment(k);
        json!("")
    }
    fn fresh() -> J {
        json!("")
    }
    fn obj(&self) -> (*const (), TypeId) {
        me(self)
    }
}
impl Kind for RwLockHistogram {
    fn make() -> Self {
        RwLockHistogram::new(0, 1)
    }
    fn put(&self, k: u64) -> J {
        let _ = self.update_from(&[k, 2]);
        json!("")
    }
    fn fresh() -> J {
        json!("")
    }
    fn obj(&self) -> (*const (), TypeId) {
        me(self)
    }
}
/// User code that reports whatever its state says.
struct Probe(AtomicU64);
const PROBES: [(bool, &str, &str); 6] = [
    (true, "counter:7", "self"),
    (false, "none", "none"),
    (true, "none", "self"),
    (false, "gauge:-3", "none"),
    (true, "other:self", "none"),
    (false, "counter:18446744073709551615", "self"),
];
impl Probe {
    fn st(&self) -> (bool, &'static str, &'static str) {
        PROBES[self.0.load(Ordering::SeqCst) as usize]
    }
}
impl Metric for Probe {
    fn is_enabled(&self) -> bool {
        self.st().0
    }
    fn as_any(&self) -> Option<&dyn Any> {
        (self.st().2 == "self").then_some(self as &dyn Any)
    }
    fn value(&self) -> Option<Value<'_>> {
        match self.st().1 {
            "counter:7" => Some(Value::Counter(7)),
            "none" => None,
            "gauge:-3" => Some(Value::Gauge(-3)),
            "other:self" => Some(Value::Other(self)),
            _ => Some(Value::Counter(u64::MAX)),
        }
    }
}
impl Kind for Probe {
    fn make() -> Self {
        Probe(AtomicU64::new(0))
    }
    fn put(&self, k: u64) -> J {
        self.0.store(k - 1, Ordering::SeqCst);
        let p = self.st();
        json!([p.0, p.1, p.2])
    }
    fn fresh() -> J {
        json!([true, "counter:7", "self"])
    }
    fn obj(&self) -> (*const (), TypeId) {
        me(self)
    }
}

/// A metric with other metrics inside, none of them at its own address.
#[repr(C)]
struct Outer<M> {
    pad: u64,
    first: Counter,
    inner: M,
    last: Gauge,
}
impl<M: Metric> Metric for Outer<M> {
    fn is_enabled(&self) -> bool {
        self.inner.is_enabled()
    }
    fn as_any(&self) -> Option<&dyn Any> {
        self.inner.as_any()
    }
    fn value(&self) -> Option<Value<'_>> {
        self.inner.value()
    }
}

trait Held {
    fn metric(&self) -> &dyn Metric;
    fn put(&self, k: u64) -> J;
    fn obj(&self) -> (*const (), TypeId);
    /// Other metrics that live close by.
    fn strays(&self) -> Vec<&dyn Metric> {
        vec![]
    }
}
struct Boxed<M: Kind>(DynBoxedMetric<M>, Vec<Counter>);
impl<M: Kind> Held for Boxed<M> {
    fn metric(&self) -> &dyn Metric {
        &*self.0
    }
    fn put(&self, k: u64) -> J {
        self.0.put(k)
    }
    fn obj(&self) -> (*const (), TypeId) {
        self.0.obj()
    }
    fn strays(&self) -> Vec<&dyn Metric> {
        self.1.iter().map(|c| c as &dyn Metric).collect()
    }
}
struct Pinned<M: Kind>(Pin<Box<(DynPinnedMetric<M>, Counter)>>);
impl<M: Kind> Held for Pinned<M> {
    fn metric(&self) -> &dyn Metric {
        &*self.0 .0
    }
    fn put(&self, k: u64) -> J {
        self.0 .0.put(k)
    }
    fn obj(&self) -> (*const (), TypeId) {
        self.0 .0.obj()
    }
    fn strays(&self) -> Vec<&dyn Metric> {
        vec![&self.0 .1]
    }
}
struct Within<M: Kind>(DynBoxedMetric<Outer<M>>);
impl<M: Kind> Held for Within<M> {
    fn metric(&self) -> &dyn Metric {
        &*self.0
    }
    fn put(&self, k: u64) -> J {
        let _ = self.0.pad;
        self.0.inner.put(k)
    }
    fn obj(&self) -> (*const (), TypeId) {
        self.0.inner.obj()
    }
    fn strays(&self) -> Vec<&dyn Metric> {
        vec![&self.0.first, &self.0.inner, &self.0.last]
    }
}
struct Stat<M: Kind>(&'static M);
impl<M: Kind> Held for Stat<M> {
    fn metric(&self) -> &dyn Metric {
        self.0
    }
    fn put(&self, k: u64) -> J {
        self.0.put(k)
    }
    fn obj(&self) -> (*const (), TypeId) {
        self.0.obj()
    }
}

/// A metric on a page of its own, and other metrics at every address that
/// differs from its own in one bit.
struct Spread<M: Kind> {
    at: *mut DynPinnedMetric<M>,
    strays: Vec<*const Counter>,
    pages: std::collections::BTreeSet<usize>,
}
fn page(at: usize) -> bool {
    let p = unsafe {
        libc::mmap(
            at as *mut _,
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    if p as usize != at && p != libc::MAP_FAILED {
        unsafe { libc::munmap(p, 4096) };
    }
    p as usize == at
}
impl<M: Kind> Spread<M> {
    fn new(m: DynPinnedMetric<M>, e: MetricEntry) -> Option<Self> {
        let size = std::mem::size_of::<DynPinnedMetric<M>>();
        assert!(size < 2048);
        let base = (0..64usize).map(|i| 0x1234_5678_9000 + i * (1 << 16)).find(|b| page(*b))?;
        let at = (base + 2048) as *mut DynPinnedMetric<M>;
        unsafe { at.write(m) };
        let mut x = Spread { at, strays: vec![], pages: [base].into() };
        unsafe { Pin::new_unchecked(&*at) }.register(e);
        let own = x.metric() as *const dyn Metric as *const () as usize;
        for k in 3..47 {
            let other = own ^ (1 << k);
            let p = other & !4095;
            if (base + 2048 - 8..base + 2048 + size).contains(&other) || !(x.pages.contains(&p) || page(p)) {
                continue;
            }
            x.pages.insert(p);
            unsafe { (other as *mut Counter).write(Counter::new()) };
            x.strays.push(other as *const Counter);
        }
        Some(x)
    }
}
impl<M: Kind> Drop for Spread<M> {
    fn drop(&mut self) {
        unsafe {
            self.at.drop_in_place();
            for p in &self.pages {
                libc::munmap(*p as *mut _, 4096);
            }
        }
    }
}
impl<M: Kind> Held for Spread<M> {
    fn metric(&self) -> &dyn Metric {
        unsafe { &**self.at }
    }
    fn put(&self, k: u64) -> J {
        unsafe { (*self.at).put(k) }
    }
    fn obj(&self) -> (*const (), TypeId) {
        unsafe { (*self.at).obj() }
    }
    fn strays(&self) -> Vec<&dyn Metric> {
        self.strays.iter().map(|c| unsafe { &**c as &dyn Metric }).collect()
    }
}

fn place<M: Kind>(place: &str, name: String) -> Box<dyn Held> {
    let b = MetricBuilder::new(name);
    match place {
        "boxed" => Box::new(Boxed(b.build(M::make()), (0..3).map(|_| Counter::new()).collect())),
        "ctx" => Box::new(Boxed(b.description("d").metadata("k", "v").provide(5u8).provide("x").build(M::make()), vec![])),
        "pinned" => {
            let (m, e) = b.build_pinned(M::make());
            let p = Box::pin((m, Counter::new()));
            // SAFETY: structural pinning of the first field.
            let r = unsafe { p.as_ref().map_unchecked(|x| &x.0) };
            r.register(e);
            Box::new(Pinned(p))
        }
        "spread" => {
            let (m, e) = b.build_pinned(M::make());
            Box::new(Spread::new(m, e).unwrap_or_else(|| driver_bug("no page")))
        }
        "outer" => {
            let o = Outer { pad: 0, first: Counter::new(), inner: M::make(), last: Gauge::new() };
            Box::new(Within(b.build(o)))
        }
        x => driver_bug(x),
    }
}

fn reading(by: &str, i: u64, m: &dyn Metric, h: &dyn Held) -> J {
    match guard(|| {
        let (p, ty) = h.obj();
        let same = |a: &dyn Any| a.type_id() == ty && a as *const dyn Any as *const () == p;
        let value = match m.value() {
            None => "none".to_string(),
            Some(Value::Counter(v)) => format!("counter:{v}"),
            Some(Value::Gauge(v)) => format!("gauge:{v}"),
            Some(Value::Other(o)) => format!("other:{}", if same(o) { "self" } else { "?" }),
            Some(_) => "?".into(),
        };
        let any = match m.as_any() {
            None => "none",
            Some(a) if same(a) => "self",
            Some(_) => "?",
        };
        json!({"e":"read","by":by,"i":i,"enabled":m.is_enabled(),"value":value,"any":any})
    }) {
        Ok(j) => j,
        Err(p) => json!({"e":"panic","what":p}),
    }
}

#[metric(name = "h101")]
static S101: Counter = Counter::new();
#[metric(name = "h102", description = "d", metadata = { "k" = "v" })]
static S102: Gauge = Gauge::new();
#[metric(name = "h103")]
static S103: LazyCounter = LazyCounter::new(Counter::new);
#[metric(name = "h104", formatter = custom)]
static S104: AtomicHistogram = AtomicHistogram::new(3, 20);
#[metric(name = "h105")]
static S105: Probe = Probe(AtomicU64::new(0));
fn custom(_: &MetricEntry, _: Format) -> String {
    "x".into()
}

/// An array of metrics that are not registered: same type, nearby addresses.
static STRAYS: [Counter; 4] = [const { Counter::new() }; 4];

fn observe_all(held: &BTreeMap<u64, Box<dyn Held>>, names: &BTreeMap<u64, String>) {
    let view = metrics();
    for (i, h) in held {
        log(reading("direct", *i, h.metric(), &**h));
        let name = names[i].clone();
        let e = match name.is_empty() {
            false => view.iter().find(|e| e.name() == name),
            // statics used elsewhere in this program may have no name either
            true => view.dynamic_metrics().find(|e| e.name() == name),
        };
        let Some(e) = e else {
            log(json!({"e":"unlisted","i":i}));
            continue;
        };
        log(reading("entry", *i, &**e, &**h));
        log(reading("metric()", *i, e.metric(), &**h));
        match guard(|| {
            let mut yes: Vec<u64> = held.iter().filter(|(_, o)| e.is(o.metric())).map(|(j, _)| *j).collect();
            for (j, o) in held {
                yes.extend(o.strays().iter().filter(|m| e.is(**m)).map(|_| 1000 + j));
            }
            yes.extend(STRAYS.iter().filter(|m| e.is(*m)).map(|_| 2000));
            yes
        }) {
            Ok(yes) => log(json!({"e":"is","i":i,"yes":yes})),
            Err(p) => log(json!({"e":"panic","what":p})),
        }
    }
}

fn handle(sc: &J, statics: &mut BTreeMap<u64, J>) {
    log(json!({"e":"new"}));
    let mut held: BTreeMap<u64, Box<dyn Held>> = BTreeMap::new();
    let mut names: BTreeMap<u64, String> = (101..=105).map(|i| (i, format!("h{i}"))).collect();
    held.insert(101, Box::new(Stat(&S101)));
    held.insert(102, Box::new(Stat(&S102)));
    held.insert(103, Box::new(Stat(&S103)));
    held.insert(104, Box::new(Stat(&S104)));
    held.insert(105, Box::new(Stat(&S105)));
    for (i, ty) in [(101, "counter"), (102, "gauge"), (103, "lazyc"), (104, "ahist"), (105, "probe")] {
        log(json!({"e":"add","i":i,"type":ty,"st":statics[&i]}));
    }
    if sc.get("alias").is_some() {
        // A metric that is the first field of the registered one.
        #[repr(C)]
        struct Front {
            inner: Counter,
            rest: u64,
        }
        impl Metric for Front {
            fn as_any(&self) -> Option<&dyn Any> {
                Some(self)
            }
            fn value(&self) -> Option<Value<'_>> {
                Some(Value::Counter(self.rest))
            }
        }
        let b = MetricBuilder::new("h1").build(Front { inner: Counter::new(), rest: 0 });
        log(json!({"e":"add","i":1,"type":"counter","st":"0"}));
        let v = metrics();
        let e = v.iter().find(|e| e.name() == "h1").unwrap();
        let mut yes = vec![];
        if e.is(&*b) {
            yes.push(1);
        }
        if e.is(&b.inner) {
            yes.push(1001);
        }
        log(json!({"e":"is","i":1,"yes":yes}));
        return;
    }
    for st in sc["steps"].as_array().unwrap() {
        let i = n(st, "i");
        let (a, b) = (s(st, "a"), s(st, "b"));
        match s(st, "op") {
            "add" => {
                // odd ones, as long as they tell the metrics apart
                let nm = match i % 5 {
                    0 if !names.values().any(|n| n.is_empty()) => String::new(),
                    1 => format!("h{i}{}", "x".repeat(300)),
                    2 => format!("{i}\u{65e5}\n\""),
                    _ => format!("h{i}"),
                };
                names.insert(i, nm.clone());
                let (h, fresh): (Box<dyn Held>, J) = match a {
                    "counter" => (place::<Counter>(b, nm), Counter::fresh()),
                    "gauge" => (place::<Gauge>(b, nm), Gauge::fresh()),
                    "lazyc" => (place::<LazyCounter>(b, nm), LazyCounter::fresh()),
                    "lazyg" => (place::<LazyGauge>(b, nm), LazyGauge::fresh()),
                    "ahist" => (place::<AtomicHistogram>(b, nm), AtomicHistogram::fresh()),
                    "rwhist" => (place::<RwLockHistogram>(b, nm), RwLockHistogram::fresh()),
                    "probe" => (place::<Probe>(b, nm), Probe::fresh()),
                    x => driver_bug(x),
                };
                held.insert(i, h);
                log(json!({"e":"add","i":i,"type":a,"st":fresh}));
            }
            "set" => {
                let v = held[&i].put(a.parse().unwrap());
                if i > 100 {
                    statics.insert(i, v.clone());
                }
                log(json!({"e":"set","i":i,"st":v}));
            }
            "drop" => {
                held.remove(&i);
                names.remove(&i);
                log(json!({"e":"drop","i":i}));
            }
            x => driver_bug(x),
        }
        observe_all(&held, &names);
    }
}

// ------------------------------------------------------------------ C11
#[derive(Clone)]
struct A(u64);
struct B(u64);
/// Nothing to it: what is found does not say which one it is.
struct Z;
type Big = [u64; 64];
trait Tr: Send + Sync {
    fn id(&self) -> u64;
}
impl Tr for A {
    fn id(&self) -> u64 {
        self.0
    }
}

struct Step {
    op: String,
    man: String,
    ty: String,
    how: String,
    id: u64,
    a: A,
    aref: &'static A,
    b: B,
    u: u64,
    string: String,
    sstr: &'static str,
    meta: Metadata,
    z: Z,
    none: Option<A>,
    opt: Option<u64>,
    big: Big,
}

fn meta_of(id: u64) -> Metadata {
    Metadata::new(HashMap::from([("id".to_string(), id.to_string())]))
}
fn meta_id(m: &Metadata) -> u64 {
    m.get("id").and_then(|x| x.parse().ok()).unwrap_or(999)
}

impl Step {
    fn new(j: &J, id: u64) -> Step {
        Step {
            op: s(j, "op").into(),
            man: s(j, "man").into(),
            ty: s(j, "ty").into(),
            how: s(j, "how").into(),
            id,
            a: A(id),
            aref: Box::leak(Box::new(A(id))),
            b: B(id),
            u: id,
            string: id.to_string(),
            sstr: Box::leak(id.to_string().into_boxed_str()),
            meta: meta_of(id),
            z: Z,
            none: None,
            opt: Some(id),
            big: [id; 64],
        }
    }

    fn run<'a>(&'a self, r: &mut Request<'a>) {
        macro_rules! go {
            ($t:ty, $f:ident, Ref) => {{
                go!(@ref $t, |x: &'a Step| -> &'a $t { &x.$f })
            }};
            ($t:ty, $f:ident, $val:expr) => {{
                if self.man == "ref" {
                    go!(@ref $t, |x: &'a Step| -> &'a $t { &x.$f })
                } else {
                    let get: fn(&Step) -> $t = $val;
                    match (self.op.as_str(), self.how.as_str()) {
                        ("ask", _) => Ok(r.would_be_satisfied_by_value_of::<$t>()),
                        (_, "plain") => { r.provide_value::<$t>(get(self)); Err(()) }
                        _ => {
                            let mut used = false;
                            r.provide_value_with::<$t>(|| { used = true; get(self) });
                            Ok(used)
                        }
                    }
                }
            }};
            (@ref $t:ty, $get:expr) => {{
                let get = $get;
                match (self.op.as_str(), self.how.as_str()) {
                    ("ask", _) => Ok(r.would_be_satisfied_by_ref_of::<$t>()),
                    (_, "plain") => { r.provide_ref::<$t>(get(self)); Err(()) }
                    _ => {
                        let mut used = false;
                        r.provide_ref_with::<$t>(|| { used = true; get(self) });
                        Ok(used)
                    }
                }
            }};
        }
        let res: Result<bool, ()> = match self.ty.as_str() {
            "A" => go!(A, a, |x| A(x.id)),
            "B" => go!(B, b, |x| B(x.id)),
            "refA" => go!(&'static A, aref, |x| x.aref),
            "u64" => go!(u64, u, |x| x.id),
            "String" => go!(String, string, |x| x.string.clone()),
            "sstr" => go!(&'static str, sstr, |x| x.sstr),
            "Metadata" => go!(Metadata, meta, |x| meta_of(x.id)),
            "Z" => go!(Z, z, |_| Z),
            "none" => go!(Option<A>, none, |_| None),
            "opt" => go!(Option<u64>, opt, |x| Some(x.id)),
            "big" => go!(Big, big, |x| [x.id; 64]),
            "str" => go!(@ref str, |x: &'a Step| -> &'a str { &x.string }),
            "dyn" => go!(@ref dyn Tr, |x: &'a Step| -> &'a (dyn Tr + 'static) { &x.a }),
            x => driver_bug(x),
        };
        let e = match (self.op.as_str(), res) {
            ("ask", Ok(yes)) => json!({"e":"ask","man":self.man,"ty":self.ty,"yes":yes}),
            ("offer", Ok(used)) => json!({"e":"offer","man":self.man,"ty":self.ty,"id":self.id,"used":used}),
            ("offer", Err(())) => json!({"e":"plain","man":self.man,"ty":self.ty,"id":self.id}),
            _ => driver_bug("context step"),
        };
        log(e);
    }
}

/// A metric that makes the offers of a scenario, the second half through a
/// metric inside it.
struct Offers(Vec<Step>, Option<Box<Offers>>);
impl Metric for Offers {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        for s in &self.0 {
            s.run(r);
        }
        if let Some(i) = &self.1 {
            i.provide(r);
        }
    }
}
thread_local!(static CURRENT: RefCell<Option<&'static Offers>> = const { RefCell::new(None) });
struct StaticOffers;
impl Metric for StaticOffers {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        if let Some(o) = CURRENT.with(|c| *c.borrow()) {
            o.provide(r);
        }
    }
}
#[metric(name = "offers", metadata = { "id" = "0" })]
static OFFERS: StaticOffers = StaticOffers;

fn request(man: &str, ty: &str, m: &dyn Metric, e: Option<&MetricEntry>) -> Option<u64> {
    macro_rules! val {
        ($t:ty) => {
            match e {
                Some(e) => e.request_value::<$t>(),
                None => metriken_core::request_value::<$t>(m),
            }
        };
    }
    macro_rules! by_ref {
        ($t:ty) => {
            match e {
                Some(e) => e.request_ref::<$t>(),
                None => metriken_core::request_ref::<$t>(m),
            }
        };
    }
    let num = |x: &str| x.parse().unwrap_or(998);
    if man == "value" {
        match ty {
            "A" => val!(A).map(|x| x.0),
            "B" => val!(B).map(|x| x.0),
            "refA" => val!(&'static A).map(|x| x.0),
            "u64" => val!(u64),
            "String" => val!(String).map(|x| num(&x)),
            "sstr" => val!(&'static str).map(num),
            "Metadata" => val!(Metadata).map(|x| meta_id(&x)),
            "Z" => val!(Z).map(|_| 0),
            "none" => val!(Option<A>).map(|x| if x.is_none() { 0 } else { 999 }),
            "opt" => val!(Option<u64>).map(|x| x.unwrap_or(999)),
            "big" => val!(Big).map(|x| if x.iter().all(|y| *y == x[0]) { x[0] } else { 999 }),
            x => driver_bug(x),
        }
    } else {
        match ty {
            "A" => by_ref!(A).map(|x| x.0),
            "B" => by_ref!(B).map(|x| x.0),
            "refA" => by_ref!(&'static A).map(|x| x.0),
            "u64" => by_ref!(u64).copied(),
            "String" => by_ref!(String).map(|x| num(x)),
            "sstr" => by_ref!(&'static str).map(|x| num(x)),
            "Metadata" => by_ref!(Metadata).map(meta_id),
            "Z" => by_ref!(Z).map(|_| 0),
            "none" => by_ref!(Option<A>).map(|x| if x.is_none() { 0 } else { 999 }),
            "opt" => by_ref!(Option<u64>).map(|x| x.unwrap_or(999)),
            "big" => by_ref!(Big).map(|x| if x.iter().all(|y| *y == x[0]) { x[0] } else { 999 }),
            "str" => by_ref!(str).map(num),
            "dyn" => by_ref!(dyn Tr).map(|x| x.id()),
            x => driver_bug(x),
        }
    }
}

/// Very many types.
struct T<const N: usize>(u64);
macro_rules! numbered {
    ($n:expr, $f:ident; $($k:literal)*) => { match $n { $($k => $f!($k),)* _ => driver_bug("numbered") } };
    ($n:expr, $f:ident) => {
        numbered!($n, $f; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)
    };
}
const NUMBERED: usize = 40;

fn attach(b: MetricBuilder, ty: &str, id: u64) -> MetricBuilder {
    if let Some(k) = ty.strip_prefix('T') {
        macro_rules! give {
            ($k:literal) => {
                b.provide(T::<$k>(id))
            };
        }
        return numbered!(k.parse::<usize>().unwrap(), give);
    }
    match ty {
        "A" => b.provide(A(id)),
        "B" => b.provide(B(id)),
        "refA" => b.provide::<&'static A>(Box::leak(Box::new(A(id)))),
        "u64" => b.provide(id),
        "String" => b.provide(id.to_string()),
        "sstr" => b.provide::<&'static str>(Box::leak(id.to_string().into_boxed_str())),
        "Z" => b.provide(Z),
        "none" => b.provide(None::<A>),
        "opt" => b.provide(Some(id)),
        "big" => b.provide::<Big>([id; 64]),
        x => driver_bug(x),
    }
}

fn context(sc: &J) {
    let own: Vec<J> = sc["steps"].as_array().unwrap().iter().enumerate().filter(|(_, st)| s(st, "op") == "offer")
        .map(|(k, st)| json!({"man":st["man"],"ty":st["ty"],"id":k + 1})).collect();
    log(json!({"e":"new","own":own}));
    let carrier = s(sc, "carrier");
    let dynamic = carrier == "boxed" || carrier == "pinned";
    let mut b = MetricBuilder::new("context").metadata("id", "0");
    let (mut own, mut want) = (vec![], None);
    for (k, st) in sc["steps"].as_array().unwrap().iter().enumerate() {
        let id = k as u64 + 1;
        match s(st, "op") {
            "attach" if dynamic => {
                b = attach(b, s(st, "ty"), id);
                log(json!({"e":"attach","man":"ref","ty":st["ty"],"id":id}));
            }
            "attach" => {}
            "request" => want = Some((s(st, "man"), s(st, "ty"))),
            _ => own.push(Step::new(st, id)),
        }
    }
    let inner = own.split_off(own.len() - own.len() / 3);
    let offers = Offers(own, Some(Box::new(Offers(inner, None))));
    if carrier != "bare" {
        log(json!({"e":"attach","man":"ref","ty":"Metadata","id":0}));
    }
    let (man, ty) = want.unwrap_or_else(|| driver_bug("no request"));
    let ask = |m: &dyn Metric, e: Option<&MetricEntry>| {
        for _ in 0..2 {
            log(json!({"e":"request","man":man,"ty":ty}));
            match guard(|| request(man, ty, m, e)) {
                Ok(r) => log(json!({"e":"result","r":r.into_iter().collect::<Vec<_>>()})),
                Err(p) => log(json!({"e":"panic","what":p})),
            }
        }
    };
    let listed = |name: &str| {
        let v = metrics();
        let e = v.iter().find(|e| e.name() == name).expect("not listed");
        ask(e.metric(), Some(e));
        ask(e.metric(), None);
    };
    match carrier {
        "bare" => ask(&offers, None),
        "boxed" => {
            let _b = b.build(offers);
            listed("context");
        }
        "pinned" => {
            let (m, e) = b.build_pinned(offers);
            let m = std::pin::pin!(m);
            m.as_ref().register(e);
            listed("context");
        }
        "static" => {
            CURRENT.with(|c| *c.borrow_mut() = Some(Box::leak(Box::new(offers))));
            listed("offers");
            CURRENT.with(|c| *c.borrow_mut() = None);
        }
        x => driver_bug(x),
    }
}

// ------------------------------------------------------------------ C12, C13
fn fmt_name(f: &Format) -> &'static str {
    match f {
        Format::Simple => "simple",
        Format::Prometheus => "prometheus",
        _ => "?",
    }
}
fn f1(e: &MetricEntry, f: Format) -> String {
    format!("f1:{}:{}", fmt_name(&f), e.name())
}
fn f2(e: &MetricEntry, f: Format) -> String {
    format!("f2:{}:{}", fmt_name(&f), e.name())
}

macro_rules! declared {
    ($($slot:literal $id:ident [$($args:tt)*] $name:expr, $desc:expr, [$($k:literal = $v:literal),*], $fmt:literal;)*) => {
        $(#[metric($($args)*)] static $id: Counter = Counter::new();)*
        fn declared() -> Vec<(u64, &'static Counter, &'static str, Option<&'static str>, Vec<(&'static str, &'static str)>, &'static str)> {
            vec![$(($slot, &$id, $name, $desc, vec![$(($k, $v)),*], $fmt)),*]
        }
    };
}
declared! {
    11 D11 [] "D11", None, [], "";
    12 D12 [name = "d12", description = "about d12"] "d12", Some("about d12"), [], "";
    13 D13 [name = "d13", metadata = { "k" = "v", "q" = "a\"b\\c\nd" }] "d13", None, ["k" = "v", "q" = "a\"b\\c\nd"], "";
    14 D14 [formatter = f1, metadata = { "z" = "" }] "D14", None, ["z" = ""], "f1";
    15 D15 [name = "d15 é日", description = "", formatter = f2] "d15 é日", Some(""), [], "f2";
    17 D17 [name = "", formatter = f1] "", None, [], "f1";
    18 D18 [name = "", description = "d"] "", Some("d"), [], "";
    19 D19 [name = "", metadata = { "" = "" }] "", None, ["" = ""], "";
    20 D20 [name = "x", formatter = f2, description = "d", metadata = { "k" = "v" }] "x", Some("d"), ["k" = "v"], "f2";
    16 D16 [formatter = metriken::default_formatter, metadata = { "a" = "1", "b" = "2", "c" = "3" }] "D16", None, ["a" = "1", "b" = "2", "c" = "3"], "";
}

enum Slot {
    Building(MetricBuilder),
    Boxed(DynBoxedMetric<Gauge>),
    Pinned(Pin<Box<DynPinnedMetric<Gauge>>>),
}
fn thin(m: &dyn Metric) -> *const () {
    m as *const dyn Metric as *const ()
}

fn examine(slot: u64, m: *const (), wide: bool) {
    let v = metrics();
    let Some(e) = v.iter().find(|e| thin(e.metric()) == m) else {
        return log(json!({"e":"unlisted","s":slot}));
    };
    let r = guard(|| {
        let meta: Vec<J> = e.metadata().iter().map(|(k, v)| json!([k, v])).collect();
        let mut ctx = serde_json::Map::new();
        for ty in ["A", "B", "u64", "String"] {
            ctx.insert(ty.into(), J::from(request("ref", ty, e.metric(), Some(e)).into_iter().collect::<Vec<u64>>()));
        }
        for k in 0..if wide { NUMBERED } else { 0 } {
            macro_rules! ask {
                ($k:literal) => {
                    e.request_ref::<T<$k>>().map(|x| x.0)
                };
            }
            ctx.insert(format!("T{k}"), J::from(numbered!(k, ask).into_iter().collect::<Vec<u64>>()));
        }
        json!({"e":"entry","s":slot,"name":e.name(),"desc":opt(e.description()),"meta":meta,"ctx":ctx})
    });
    log(r.unwrap_or_else(|p| json!({"e":"panic","what":p})));
    for f in ["simple", "prometheus"] {
        let r = guard(|| e.formatted(if f == "simple" { Format::Simple } else { Format::Prometheus }));
        log(match r {
            Ok(t) => json!({"e":"formatted","s":slot,"format":f,"text":t}),
            Err(p) => json!({"e":"panic","what":p}),
        });
    }
}

fn builder(sc: &J) {
    log(json!({"e":"new"}));
    let full = sc.get("statics").is_some();
    let wide = sc.get("wide").is_some();
    if full {
        for (slot, _, name, desc, meta, fmt) in declared() {
            let meta: Vec<J> = meta.iter().map(|(k, v)| json!([k, v])).collect();
            log(json!({"e":"static","s":slot,"name":name,"desc":opt(desc),"meta":meta,"fmt":fmt}));
        }
    }
    let mut slots: BTreeMap<u64, Slot> = BTreeMap::new();
    for (k, st) in sc["steps"].as_array().unwrap().iter().enumerate() {
        let id = n(st, "s");
        let (op, a, b) = (s(st, "op"), s(st, "a").to_string(), s(st, "b").to_string());
        let mut ev = json!({"e":op,"s":id,"a":a,"b":b});
        match op {
            "begin" => {
                slots.insert(id, Slot::Building(MetricBuilder::new(a)));
            }
            "build" | "desc" | "meta" | "ctx" | "fmt" => {
                let Some(Slot::Building(bl)) = slots.remove(&id) else { driver_bug("not building") };
                let new = match op {
                    "desc" => Slot::Building(bl.description(a)),
                    "meta" => Slot::Building(bl.metadata(a, b)),
                    "ctx" => {
                        ev["id"] = json!(k);
                        Slot::Building(attach(bl, &a, k as u64))
                    }
                    "fmt" => Slot::Building(bl.formatter(if a == "f1" { f1 } else { f2 })),
                    _ if a == "boxed" => Slot::Boxed(bl.build(Gauge::new())),
                    _ => {
                        let (m, e) = bl.build_pinned(Gauge::new());
                        let m = Box::pin(m);
                        m.as_ref().register(e);
                        Slot::Pinned(m)
                    }
                };
                slots.insert(id, new);
            }
            "again" => {
                let Some(Slot::Pinned(m)) = slots.get(&id) else { driver_bug("not pinned") };
                let mut bl = MetricBuilder::new(a);
                let none = b == "-";
                if !none {
                    bl = bl.description(b.clone());
                }
                ev["desc"] = opt(if none { None } else { Some(&b) });
                // What else is given to this builder is not for the metric.
                let e = bl.metadata("not", "mine").into_entry();
                m.as_ref().register(e);
            }
            "drop" => {
                slots.remove(&id);
            }
            x => driver_bug(x),
        }
        log(ev);
        if ["build", "drop", "again"].contains(&op) || k % 5 == 0 {
            for (i, x) in &slots {
                match x {
                    Slot::Boxed(m) => examine(*i, thin(&**m), wide),
                    Slot::Pinned(m) => examine(*i, thin(&***m), wide),
                    _ => {}
                }
            }
            if full {
                for (slot, c, ..) in declared() {
                    examine(slot, thin(c), wide);
                }
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[3]);
    let mut statics = BTreeMap::from([
        (101, Counter::fresh()),
        (102, Gauge::fresh()),
        (103, LazyCounter::fresh()),
        (104, AtomicHistogram::fresh()),
        (105, Probe::fresh()),
    ]);
    for sc in scenarios(&a[2]) {
        match a[1].as_str() {
            "handle" => handle(&sc, &mut statics),
            "context" => context(&sc),
            "builder" => builder(&sc),
            x => driver_bug(x),
        }
        LOG.with(|l| l.borrow_mut().drain(..).for_each(|e| o.put(&e)));
    }
    o.done();
}
