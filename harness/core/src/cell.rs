//! C05, C06: counters and gauges.
use crate::common::*;
use metriken::{metrics, Counter, DynBoxedMetric, Gauge, Metric, MetricBuilder, Value};
use serde_json::{json, Value as J};
use std::sync::Barrier;

pub trait Cell: Metric + Sized {
    fn make(v: u64) -> Self;
    fn apply(&self, op: Op, a: u64) -> u64;
    fn read_value(v: Option<Value<'_>>) -> u64;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Increment,
    Add,
    Set,
    Reset,
    Value,
    Decrement,
    Sub,
    Metric,
    Entry,
}

pub fn op(name: &str) -> Op {
    match name {
        "increment" => Op::Increment,
        "add" => Op::Add,
        "set" => Op::Set,
        "reset" => Op::Reset,
        "value" => Op::Value,
        "decrement" => Op::Decrement,
        "sub" => Op::Sub,
        "metric" => Op::Metric,
        "entry" => Op::Entry,
        _ => driver_bug(name),
    }
}

impl Cell for Counter {
    fn make(v: u64) -> Self {
        // Exercise every constructor.
        match v {
            0 => Counter::new(),
            1 => {
                let c = Counter::default();
                c.set(1);
                c
            }
            _ => Counter::with_value(v),
        }
    }
    #[inline]
    fn apply(&self, op: Op, a: u64) -> u64 {
        match op {
            Op::Increment => self.increment(),
            Op::Add => self.add(a),
            Op::Set => self.set(a),
            Op::Reset => self.reset(),
            Op::Value => self.value(),
            Op::Metric => Self::read_value(Metric::value(self)),
            _ => driver_bug("counter op"),
        }
    }
    fn read_value(v: Option<Value<'_>>) -> u64 {
        match v {
            Some(Value::Counter(v)) => v,
            _ => panic!("the value of a counter is not a counter value"),
        }
    }
}

impl Cell for Gauge {
    fn make(v: u64) -> Self {
        match v {
            0 => Gauge::new(),
            1 => {
                let c = Gauge::default();
                c.set(1);
                c
            }
            _ => Gauge::with_value(v as i64),
        }
    }
    #[inline]
    fn apply(&self, op: Op, a: u64) -> u64 {
        (match op {
            Op::Increment => self.increment(),
            Op::Decrement => self.decrement(),
            Op::Add => self.add(a as i64),
            Op::Sub => self.sub(a as i64),
            Op::Set => self.set(a as i64),
            Op::Reset => self.reset(),
            Op::Value => self.value(),
            Op::Metric => return Self::read_value(Metric::value(self)),
            _ => driver_bug("gauge op"),
        }) as u64
    }
    fn read_value(v: Option<Value<'_>>) -> u64 {
        match v {
            Some(Value::Gauge(v)) => v as u64,
            _ => panic!("the value of a gauge is not a gauge value"),
        }
    }
}

fn via_entry<C: Cell>(name: &str) -> u64 {
    let m = metrics();
    let e = m.dynamic_metrics().find(|e| e.name() == name).expect("metric is not listed");
    C::read_value(e.value())
}

fn perform<C: Cell>(cell: &C, name: &str, o: Op, a: u64) -> u64 {
    if o == Op::Entry {
        via_entry::<C>(name)
    } else {
        cell.apply(o, a)
    }
}

struct Rec {
    t: usize,
    i: usize,
    call: u64,
    ret: u64,
    r: Result<u64, String>,
}

/// One history: the calls of each thread, run concurrently.
fn history<C: Cell>(sc: &J, id: usize, out: &mut Out) {
    let init = unword(&sc["init"]);
    let kind = s(sc, "kind");
    out.put(&json!({"e":"new","kind":kind,"v":word(init)}));
    let name = format!("cell{id}");
    let cell: DynBoxedMetric<C> = MetricBuilder::new(name.clone()).build(C::make(init));
    let calls = sc["calls"].as_array().unwrap();
    let threads = calls.iter().map(|c| n(c, "t") as usize).max().unwrap_or(1);
    let progs: Vec<Vec<(Op, u64, &J)>> = (1..=threads)
        .map(|t| {
            calls
                .iter()
                .filter(|c| n(c, "t") as usize == t)
                .map(|c| (op(s(c, "op")), unword(&c["a"]), c))
                .collect()
        })
        .collect();

    if threads == 1 {
        for (o, a, c) in &progs[0] {
            out.put(&json!({"e":"call","t":1,"op":c["op"],"a":c["a"]}));
            match guard(|| perform(&*cell, &name, *o, *a)) {
                Ok(r) => out.put(&json!({"e":"ret","t":1,"r":word(r)})),
                Err(p) => {
                    out.put(&json!({"e":"panic","what":p}));
                    return;
                }
            }
        }
    } else {
        let bar = Barrier::new(threads);
        let recs: Vec<Vec<Rec>> = std::thread::scope(|sc| {
            let hs: Vec<_> = progs
                .iter()
                .enumerate()
                .map(|(t, prog)| {
                    let (cell, bar, name) = (&*cell, &bar, &name);
                    sc.spawn(move || {
                        let mut v = Vec::with_capacity(prog.len());
                        bar.wait();
                        for (i, (o, a, _)) in prog.iter().enumerate() {
                            let call = stamp();
                            let r = guard(|| perform(cell, name, *o, *a));
                            let ret = stamp();
                            let bad = r.is_err();
                            v.push(Rec { t: t + 1, i, call, ret, r });
                            if bad {
                                break;
                            }
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut evs: Vec<(u64, J)> = Vec::new();
        for r in recs.iter().flatten() {
            let c = progs[r.t - 1][r.i].2;
            evs.push((r.call, json!({"e":"call","t":r.t,"op":c["op"],"a":c["a"]})));
            evs.push((
                r.ret,
                match &r.r {
                    Ok(v) => json!({"e":"ret","t":r.t,"r":word(*v)}),
                    Err(p) => json!({"e":"panic","what":p}),
                },
            ));
        }
        evs.sort_by_key(|e| e.0);
        for (_, e) in &evs {
            out.put(e);
        }
    }
    quiet(&cell, &name, out);
}

fn quiet<C: Cell>(cell: &DynBoxedMetric<C>, name: &str, out: &mut Out) {
    out.put(&json!({"e":"quiet","v":word(cell.apply(Op::Value, 0)),"by":"direct"}));
    let r = guard(|| (cell.apply(Op::Metric, 0), via_entry::<C>(name)));
    match r {
        Ok((a, b)) => {
            out.put(&json!({"e":"quiet","v":word(a),"by":"metric"}));
            out.put(&json!({"e":"quiet","v":word(b),"by":"entry"}));
        }
        Err(p) => out.put(&json!({"e":"panic","what":p})),
    }
}

/// Every thread performs one operation many times; checked when quiet.
fn bursts<C: Cell>(sc: &J, id: usize, out: &mut Out) {
    let init = unword(&sc["init"]);
    out.put(&json!({"e":"new","kind":s(sc,"kind"),"v":word(init)}));
    let name = format!("burst{id}");
    let cell: DynBoxedMetric<C> = MetricBuilder::new(name.clone()).build(C::make(init));
    let bs = sc["bursts"].as_array().unwrap();
    for (t, b) in bs.iter().enumerate() {
        out.put(&json!({"e":"burst","t":t+1,"op":b["op"],"a":b["a"],"n":b["n"]}));
    }
    let ready = std::sync::atomic::AtomicUsize::new(0);
    let bad: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = bs
            .iter()
            .map(|b| {
                let (o, a, k) = (op(s(b, "op")), unword(&b["a"]), n(b, "n"));
                let (cell, ready, th) = (&*cell, &ready, bs.len());
                sc.spawn(move || {
                    // Spin rather than park, so that all start together.
                    ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while ready.load(std::sync::atomic::Ordering::SeqCst) < th {
                        std::thread::yield_now();
                    }
                    guard(|| {
                        let mut sum = 0u64;
                        for _ in 0..k {
                            sum = sum.wrapping_add(cell.apply(o, a));
                        }
                        sum
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut total = 0u64;
    for (t, b) in bad.iter().enumerate() {
        match b {
            Ok(s) => {
                total = total.wrapping_add(*s);
                out.put(&json!({"e":"burstret","t":t+1,"s":word(*s)}))
            }
            Err(p) => out.put(&json!({"e":"panic","what":p})),
        }
    }
    if sc.get("uniform").is_some() {
        let k: u64 = bs.iter().map(|b| n(b, "n")).sum();
        out.put(&json!({"e":"uniform","op":bs[0]["op"],"a":bs[0]["a"],"n":k,"v0":sc["init"],"s":word(total)}));
    }
    quiet(&cell, &name, out);
}

/// Threads race; every returned word is tallied.
fn race<C: Cell>(sc: &J, id: usize, out: &mut Out) {
    let init = unword(&sc["init"]);
    out.put(&json!({"e":"new","kind":s(sc,"kind"),"v":word(init)}));
    let name = format!("race{id}");
    let cell: DynBoxedMetric<C> = MetricBuilder::new(name.clone()).build(C::make(init));
    let progs: Vec<Vec<(Op, u64, &J)>> = sc["race"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| p.as_array().unwrap().iter().map(|c| (op(s(c, "op")), unword(&c["a"]), c)).collect())
        .collect();
    let k = n(sc, "n") as usize;
    let ready = std::sync::atomic::AtomicUsize::new(0);
    let all: Vec<Result<Vec<(usize, u64)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = progs
            .iter()
            .map(|p| {
                let (cell, ready, th) = (&*cell, &ready, progs.len());
                sc.spawn(move || {
                    let mut v = Vec::with_capacity(k);
                    // Spin rather than park, so that all start together.
                    ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while ready.load(std::sync::atomic::Ordering::SeqCst) < th {
                        std::hint::spin_loop();
                    }
                    guard(|| {
                        for i in 0..k {
                            let j = i % p.len();
                            v.push((j, cell.apply(p[j].0, p[j].1)));
                        }
                    })
                    .map(|_| v)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut tally = std::collections::BTreeMap::new();
    for (p, r) in progs.iter().zip(&all) {
        match r {
            Ok(v) => {
                for (j, r) in v {
                    *tally.entry((*r, p[*j].2["op"].as_str().unwrap(), p[*j].1)).or_insert(0u64) += 1;
                }
            }
            Err(w) => out.put(&json!({"e":"panic","what":w})),
        }
    }
    let edges: Vec<J> =
        tally.iter().map(|((v, o, a), n)| json!({"v":word(*v),"op":o,"a":word(*a),"n":n})).collect();
    out.put(&json!({"e":"race","edges":edges,"v":word(cell.apply(Op::Value, 0))}));
    quiet(&cell, &name, out);
}

pub fn run(scen: &str, out: &str) {
    let mut o = Out::new(out);
    for (i, sc) in scenarios(scen).iter().enumerate() {
        let counter = s(sc, "kind") == "counter";
        if sc.get("race").is_some() {
            if counter {
                race::<Counter>(sc, i, &mut o)
            } else {
                race::<Gauge>(sc, i, &mut o)
            }
            continue;
        }
        match (sc.get("bursts").is_some(), counter) {
            (false, true) => history::<Counter>(sc, i, &mut o),
            (false, false) => history::<Gauge>(sc, i, &mut o),
            (true, true) => bursts::<Counter>(sc, i, &mut o),
            (true, false) => bursts::<Gauge>(sc, i, &mut o),
        }
    }
    o.done();
}
