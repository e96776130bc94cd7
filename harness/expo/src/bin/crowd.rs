//! C01, C04, C16 with very many metrics: what is seen is written as runs of
//! consecutive numbers.
#[path = "../../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
use common::*;
use metriken::{metrics, AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Gauge, MetricBuilder, Value};
use metriken_exposition::SnapshotterBuilder;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::Mutex;

#[allow(dead_code)]
enum Held {
    C(DynBoxedMetric<Counter>),
    G(DynBoxedMetric<Gauge>),
    H(DynBoxedMetric<AtomicHistogram>),
    P(Pin<Box<DynPinnedMetric<Counter>>>),
}

fn make(kind: &str, i: u64) -> Held {
    let b = MetricBuilder::new(format!("m{i}"));
    match kind {
        "counter" => Held::C(b.build(Counter::with_value(i))),
        "gauge" => Held::G(b.metadata("k", format!("{i}")).build(Gauge::with_value(i as i64))),
        "histogram" => {
            let h = b.build(AtomicHistogram::new(3, 20));
            h.increment(i % 1000).unwrap();
            Held::H(h)
        }
        "pinned" => {
            let (m, e) = b.build_pinned(Counter::with_value(i));
            let p = Box::pin(m);
            p.as_ref().register(e);
            Held::P(p)
        }
        x => driver_bug(x),
    }
}

fn number(name: &str) -> u64 {
    name.strip_prefix('m').and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// Sorted, as runs. What is there twice gives a run of its own.
fn runs(mut ids: Vec<u64>) -> J {
    ids.sort();
    let mut rs: Vec<(u64, u64)> = vec![];
    for i in ids {
        match rs.last_mut() {
            Some(r) if r.1 + 1 == i => r.1 = i,
            _ => rs.push((i, i)),
        }
    }
    // something is badly wrong then; the specification need not see all of it
    rs.truncate(2000);
    json!(rs)
}

fn entry_id(e: &metriken::MetricEntry) -> u64 {
    let i = number(e.name());
    let ok = match e.value() {
        Some(Value::Counter(v)) => v == i,
        Some(Value::Gauge(v)) => v == i as i64 && e.metadata().get("k") == Some(&i.to_string()),
        Some(Value::Other(h)) => h.downcast_ref::<AtomicHistogram>().is_some_and(|h| {
            h.load().is_some_and(|h| h.into_iter().find(|b| b.count() > 0).is_some_and(|b| b.range().contains(&(i % 1000))))
        }),
        _ => false,
    };
    if ok {
        i
    } else {
        0
    }
}

fn observe(obs: &[&str], o: &mut Out, rng: &mut Rng) {
    let r = guard(|| {
        let mut ev = vec![];
        if obs.contains(&"list") {
            let v = metrics();
            ev.push(json!({"e":"see","by":"iter","runs":runs(v.iter().map(entry_id).collect())}));
            ev.push(json!({"e":"see","by":"dynamic","runs":runs(v.dynamic_metrics().map(entry_id).collect())}));
            let mut ids = vec![];
            for e in &v {
                ids.push(entry_id(e));
            }
            ev.push(json!({"e":"see","by":"loop","runs":runs(ids)}));
        }
        if obs.contains(&"sizes") {
            let v = metrics();
            let all: Vec<*const _> = v.iter().map(|e| e as *const _).collect();
            let dy: Vec<*const _> = v.dynamic_metrics().map(|e| e as *const _).collect();
            let back: Vec<*const _> = v.dynamic_metrics().rev().map(|e| e as *const _).collect();
            let rev = v.iter().rev().map(|e| e as *const _).zip(all.iter().rev()).take_while(|(a, b)| a == *b).count();
            let d = v.dynamic_metrics();
            let h = d.size_hint();
            ev.push(json!({"e":"sizes","ns":[
                all.len(), dy.len(), back.len(), rev, d.len(), h.0, h.1.unwrap_or(usize::MAX).min(i32::MAX as usize),
                v.iter().count(), v.dynamic_metrics().count(), v.iter().fold(0, |n, _| n + 1),
                v.iter().rfold(0, |n, _| n + 1), v.dynamic_metrics().fold(0, |n, _| n + 1), v.dynamic_metrics().rfold(0, |n, _| n + 1)]}));
            let h = v.iter().size_hint();
            ev.push(json!({"e":"bounds","lo":h.0.min(i32::MAX as usize),"hi":h.1.map(|x| x.min(i32::MAX as usize)).into_iter().collect::<Vec<_>>()}));
            let pos = |l: &[*const metriken::MetricEntry], e: Option<&metriken::MetricEntry>| {
                e.map_or(-1, |e| l.iter().position(|x| *x == e as *const _).map_or(-2, |p| p as i64))
            };
            let ks: Vec<usize> = [0, 1, 255, 256, 257, 1023, 1024, 65534, 65535, 65536, 65537, all.len().max(1) - 1, all.len(), all.len() + 1]
                .into_iter()
                .chain((0..6).map(|_| rng.below(all.len() as u64 + 1) as usize))
                .collect();
            ev.push(json!({"e":"skips","ks":ks.iter().map(|k| json!([k, pos(&all, v.iter().nth(*k))])).collect::<Vec<_>>()}));
            ev.push(json!({"e":"skips","ks":ks.iter().map(|k| json!([k, pos(&dy, v.dynamic_metrics().nth(*k))])).collect::<Vec<_>>()}));
            ev.push(json!({"e":"backskips","ks":ks.iter().map(|k| json!([k, pos(&all, v.iter().nth_back(*k))])).collect::<Vec<_>>()}));
            ev.push(json!({"e":"backskips","ks":ks.iter().map(|k| json!([k, pos(&dy, v.dynamic_metrics().nth_back(*k))])).collect::<Vec<_>>()}));
        }
        if obs.contains(&"snap") {
            let mut s = SnapshotterBuilder::new().build().snapshot();
            let mut ids = vec![];
            for c in s.counters() {
                let i = number(&c.name);
                ids.push(if c.value == i && c.metadata.is_empty() { i } else { 0 });
            }
            for g in s.gauges() {
                let i = number(&g.name);
                ids.push(if g.value == i as i64 && g.metadata.len() == 1 && g.metadata.get("k") == Some(&i.to_string()) { i } else { 0 });
            }
            for h in s.histograms() {
                let i = number(&h.name);
                let ok = h.metadata.len() == 2 && h.value.into_iter().find(|b| b.count() == 1).is_some_and(|b| b.range().contains(&(i % 1000)));
                ids.push(if ok { i } else { 0 });
            }
            ev.push(json!({"e":"see","by":"snapshot","runs":runs(ids)}));
        }
        ev
    });
    match r {
        Ok(ev) => ev.iter().for_each(|e| o.put(e)),
        Err(p) => o.put(&json!({"e":"panic","what":p})),
    }
}

fn run(sc: &J, o: &mut Out, rng: &mut Rng) {
    o.put(&json!({"e":"new"}));
    let obs: Vec<&str> = sc["obs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let kinds: Vec<&str> = sc["kinds"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let th = n(sc, "threads");
    let held: Mutex<BTreeMap<u64, Held>> = Mutex::default();
    for st in sc["steps"].as_array().unwrap() {
        let (lo, hi) = (n(st, "lo"), n(st, "hi"));
        let come = s(st, "op") == "come";
        let mut parts: Vec<Vec<(u64, Option<Held>)>> = (0..th).map(|_| vec![]).collect();
        for i in lo..=hi {
            let h = if come { None } else { held.lock().unwrap().remove(&i) };
            parts[rng.below(th) as usize].push((i, h));
        }
        let bad: Vec<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = parts
                .into_iter()
                .map(|p| {
                    let (held, kinds) = (&held, &kinds);
                    sc.spawn(move || {
                        guard(|| {
                            if come {
                                let made: Vec<_> = p.iter().map(|(i, _)| (*i, make(kinds[*i as usize % kinds.len()], *i))).collect();
                                held.lock().unwrap().extend(made);
                            } else {
                                drop(p);
                            }
                        })
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap().err()).collect()
        });
        for b in bad {
            o.put(&json!({"e":"panic","what":b}));
        }
        o.put(&json!({"e":if come { "come" } else { "go" },"lo":lo,"hi":hi}));
        observe(&obs, o, rng);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    for (i, sc) in scenarios(&a[1]).iter().enumerate() {
        run(sc, &mut o, &mut Rng(i as u64 + 1));
    }
    o.done();
}
