//! C18: encodings.
#[path = "../../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../tab.rs"]
#[allow(dead_code)]
mod tab;
use common::*;
use metriken_exposition::{Counter, Gauge, Histogram, Snapshot};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::time::{Duration, SystemTime};
use tab::*;

fn time(t: SystemTime) -> J {
    match t.duration_since(SystemTime::UNIX_EPOCH) {
        Ok(d) => json!(d.as_nanos().to_string()),
        Err(_) => json!("before the epoch"),
    }
}
fn dur(d: Option<Duration>) -> J {
    match d {
        None => json!([]),
        Some(d) => json!([d.as_nanos().to_string()]),
    }
}
fn counters(v: &[Counter]) -> J {
    v.iter().map(|x| json!([x.name, x.value.to_string(), pairs(&x.metadata)])).collect()
}
fn gauges(v: &[Gauge]) -> J {
    v.iter().map(|x| json!([x.name, x.value.to_string(), pairs(&x.metadata)])).collect()
}
fn histograms(v: &[Histogram]) -> J {
    v.iter()
        .map(|x| {
            let b = x.value.as_slice();
            let nz: Vec<String> = b.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| format!("{i}:{c}")).collect();
            let c = x.value.config();
            json!([x.name, format!("{}/{}/{}", c.grouping_power(), c.max_value_power(), b.len()), nz, pairs(&x.metadata)])
        })
        .collect()
}
fn describe(s: &Snapshot) -> J {
    let (ver, t, d, m, c, g, h): (_, _, _, &HashMap<String, String>, _, _, _) = match s {
        Snapshot::V1(s) => (1, s.systemtime, None, &s.metadata, &s.counters, &s.gauges, &s.histograms),
        Snapshot::V2(s) => (2, s.systemtime, Some(s.duration), &s.metadata, &s.counters, &s.gauges, &s.histograms),
    };
    json!({"ver":ver,"ts":time(t),"dur":dur(d),"meta":pairs(m),"counters":counters(c),"gauges":gauges(g),"histograms":histograms(h)})
}
fn encode(s: &Snapshot, fmt: &str, form: &str) -> Result<Vec<u8>, String> {
    match (fmt, form, s) {
        ("json", "enum", s) => Snapshot::to_json(s).map_err(|e| e.to_string()),
        ("json", _, Snapshot::V1(s)) => Snapshot::to_json(s).map_err(|e| e.to_string()),
        ("json", _, Snapshot::V2(s)) => Snapshot::to_json(s).map_err(|e| e.to_string()),
        (_, "enum", s) => Snapshot::to_msgpack(s).map_err(|e| e.to_string()),
        (_, _, Snapshot::V1(s)) => Snapshot::to_msgpack(s).map_err(|e| e.to_string()),
        (_, _, Snapshot::V2(s)) => Snapshot::to_msgpack(s).map_err(|e| e.to_string()),
    }
}
fn access(s: &mut Snapshot, f: &str) -> J {
    match f {
        "ts" => time(s.systemtime()),
        "dur" => dur(s.duration()),
        "meta" => pairs(&s.metadata()),
        "counters" => counters(&s.counters()),
        "gauges" => gauges(&s.gauges()),
        _ => histograms(&s.histograms()),
    }
}
fn run(sc: &J, log: &mut Vec<J>) -> Result<(), String> {
    let (fmt, how, form) = (s(sc, "fmt"), s(sc, "dec"), s(sc, "form"));
    log.push(json!({"e":"new","fmt":fmt}));
    let mut encs = vec![];
    for x in sc["snaps"].as_array().unwrap() {
        let snap = snapshot(x);
        let b = encode(&snap, fmt, form)?;
        let nl: Vec<usize> = b.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect();
        log.push(json!({"e":"enc","s":describe(&snap),"nl":if fmt == "json" { nl } else { vec![] },"len":b.len()}));
        encs.push(b);
    }
    let all: Vec<u8> = encs.concat();
    let mut got: Vec<Snapshot> = vec![];
    match (fmt, how) {
        ("json", "each") => {
            for l in all.split_inclusive(|b| *b == b'\n') {
                got.push(serde_json::from_slice(l).map_err(|e| e.to_string())?);
            }
        }
        ("json", _) => {
            for x in serde_json::Deserializer::from_slice(&all).into_iter::<Snapshot>() {
                got.push(x.map_err(|e| e.to_string())?);
            }
        }
        (_, "each") => {
            for b in &encs {
                got.push(rmp_serde::from_slice(b).map_err(|e| e.to_string())?);
            }
        }
        _ => {
            let mut r: &[u8] = &all;
            while !r.is_empty() {
                got.push(rmp_serde::from_read(&mut r).map_err(|e| e.to_string())?);
            }
        }
    }
    for mut x in got {
        log.push(json!({"e":"dec","s":describe(&x)}));
        let mut y = x.clone();
        for f in sc["order"].as_array().unwrap() {
            log.push(json!({"e":"acc","f":f,"v":access(&mut y, text(f))}));
        }
        // and on the decoded one itself, the other way round
        for f in sc["order"].as_array().unwrap().iter().rev() {
            log.push(json!({"e":"acc","f":f,"v":access(&mut x, text(f))}));
        }
    }
    log.push(json!({"e":"end"}));
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    for sc in scenarios(&a[1]) {
        let mut log = vec![];
        match guard(|| run(&sc, &mut log)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => log.push(json!({"e":"error","what":e})),
            Err(e) => log.push(json!({"e":"panic","what":e})),
        }
        for j in &log {
            o.put(j);
        }
    }
    o.done();
}
