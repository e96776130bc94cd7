//! C04: traversals of the metric listing. Included by binaries with different
//! numbers of static metrics.
use crate::common::*;
use metriken::{metrics, DynBoxedMetric, MetricBuilder, MetricEntry, Value};
use serde_json::{json, Value as J};
use std::ops::ControlFlow;

pub fn id_of(e: &MetricEntry) -> u64 {
    match e.value() {
        Some(Value::Counter(v)) => v & 0x7fff_ffff,
        _ => 0,
    }
}

/// Drive one double-ended iterator as the scenario says.
fn drive<'a, I>(mut it: I, len: &dyn Fn(&I) -> Vec<usize>, sc: &J, out: &mut Out)
where
    I: DoubleEndedIterator<Item = &'a MetricEntry>,
{
    let hints = |it: &I| {
        let (lo, hi) = it.size_hint();
        // Bounds beyond 2^31 are all the same to the specification.
        let cap = |x: usize| x.min(0x7fff_ffff);
        (cap(lo), hi.map(cap).into_iter().collect::<Vec<_>>(), len(it).into_iter().map(cap).collect::<Vec<_>>())
    };
    for o in sc["ops"].as_array().unwrap() {
        let (lo, hi, ln) = hints(&it);
        let k = unword(&o["n"]) as usize;
        let r = match s(o, "op") {
            "next" => it.next(),
            "nth" => it.nth(k),
            "next_back" => it.next_back(),
            "nth_back" => it.nth_back(k),
            "peek" => None,
            x => driver_bug(x),
        };
        let r: Vec<u64> = r.into_iter().map(id_of).collect();
        out.put(&json!({"e":"op","op":o["op"],"n":o["n"],"r":r,"lo":lo,"hi":hi,"len":ln}));
    }
    let (lo, hi, ln) = hints(&it);
    let f = s(sc, "final");
    let mut r: Vec<u64> = vec![];
    match f {
        "fold" => r = it.fold(vec![], |mut v, e| {
            v.push(id_of(e));
            v
        }),
        "rfold" => r = it.rfold(vec![], |mut v, e| {
            v.push(id_of(e));
            v
        }),
        "collect" => r = it.map(id_of).collect(),
        "for_each" => it.for_each(|e| r.push(id_of(e))),
        "loop" => {
            for e in it.by_ref() {
                r.push(id_of(e));
            }
            // Exhausted iterators stay exhausted, at both ends.
            for _ in 0..3 {
                r.extend(it.next().map(id_of));
                r.extend(it.next_back().map(id_of));
                r.extend(it.nth(0).map(id_of));
                r.extend(it.nth_back(1).map(id_of));
            }
        }
        "loop_back" => {
            while let Some(e) = it.next_back() {
                r.push(id_of(e));
            }
            for _ in 0..3 {
                r.extend(it.next_back().map(id_of));
                r.extend(it.next().map(id_of));
            }
        }
        "try_fold" => {
            let _ = it.try_fold((), |(), e| -> ControlFlow<()> {
                r.push(id_of(e));
                ControlFlow::Continue(())
            });
        }
        "rev" => r = it.rev().map(id_of).collect(),
        "alternate" => loop {
            match it.next() {
                Some(e) => r.push(id_of(e)),
                None => break,
            }
            match it.next_back() {
                Some(e) => r.push(id_of(e)),
                None => break,
            }
        },
        "last" => r.extend(it.last().map(id_of)),
        "step2" => r = it.step_by(2).map(id_of).collect(),
        "skip1" => r = it.skip(1).map(id_of).collect(),
        "revskip1" => r = it.rev().skip(1).map(id_of).collect(),
        "count" => r.push(it.count() as u64),
        x => driver_bug(x),
    }
    out.put(&json!({"e":"final","op":f,"r":r,"lo":lo,"hi":hi,"len":ln}));
}

pub fn run(scen: &str, out: &str, statics: &[u64]) {
    let mut o = Out::new(out);
    let mut live: Vec<DynBoxedMetric<metriken::Counter>> = vec![];
    for sc in scenarios(scen) {
        let d = n(&sc, "dyn") as usize;
        while live.len() > d {
            live.pop();
        }
        while live.len() < d {
            let id = live.len() as u64 + 1;
            live.push(MetricBuilder::new(format!("d{id}")).build(metriken::Counter::with_value(id)));
        }
        let all = s(&sc, "kind") == "all";
        let mut expected: Vec<u64> = (1..=d as u64).collect();
        if all {
            expected.extend(statics);
        }
        let m = metrics();
        let r = guard(|| {
            let mut seq = vec![];
            if all {
                let mut it = m.iter();
                while let Some(e) = it.next() {
                    seq.push(id_of(e));
                }
            } else {
                let mut it = m.dynamic_metrics();
                while let Some(e) = it.next() {
                    seq.push(id_of(e));
                }
            }
            o.put(&json!({"e":"new","seq":seq,"expected":expected,"exact":!all}));
            if all {
                drive(m.iter(), &|_| vec![], &sc, &mut o);
            } else {
                drive(m.dynamic_metrics(), &|i| vec![i.len()], &sc, &mut o);
            }
        });
        if let Err(p) = r {
            o.put(&json!({"e":"panic","what":p}));
        }
    }
    o.done();
}
