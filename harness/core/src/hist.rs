//! C08, C09: histograms.
use crate::common::*;
use metriken::histogram::Histogram;
use metriken::{metrics, AtomicHistogram, DynBoxedMetric, Metric, MetricBuilder, RwLockHistogram, Value};
use serde_json::{json, Value as J};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

/// Threads meet here and leave as simultaneously as possible.
struct Gate(AtomicUsize, usize, Barrier);
impl Gate {
    fn new(n: usize) -> Self {
        Gate(AtomicUsize::new(0), n, Barrier::new(n))
    }
    fn pass(&self) {
        self.2.wait();
        self.0.fetch_add(1, Ordering::SeqCst);
        let mut k = 0u32;
        while self.0.load(Ordering::SeqCst) < self.1 {
            k += 1;
            if k > 5000 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}

fn some(t: usize, h: &Histogram) -> J {
    let (mut idx, mut cnt) = (vec![], vec![]);
    for (i, c) in h.as_slice().iter().enumerate() {
        if *c != 0 {
            idx.push(i);
            cnt.push((*c).min(2_000_000_000));
        }
    }
    let c = h.config();
    json!({"e":"some","t":t,"idx":idx,"cnt":cnt,"len":h.as_slice().len(),"g":c.grouping_power(),"m":c.max_value_power()})
}

fn cfg_event(c: metriken::histogram::Config) -> J {
    json!({"e":"cfg","g":c.grouping_power(),"m":c.max_value_power()})
}

/// Through the entry: as_any, or the value.
fn entry_load<H: Metric, R>(name: &str, f: impl Fn(&H) -> R) -> R {
    let m = metrics();
    let e = m.dynamic_metrics().find(|e| e.name() == name).expect("not listed");
    match e.value() {
        Some(Value::Other(o)) => {
            let v = o.downcast_ref::<H>().expect("other type behind the value");
            let a = e.as_any().expect("no any").downcast_ref::<H>().expect("other type");
            assert!(std::ptr::eq(v, a), "value and as_any are different objects");
            f(a)
        }
        _ => panic!("wrong kind of value"),
    }
}

type Run<'a> = dyn Fn(usize, &J) -> Result<J, String> + Sync + 'a;

/// Run the calls of each thread concurrently; `call` gives the event of a call.
fn concurrently(calls: &[J], call: &dyn Fn(usize, &J) -> J, run: &Run, out: &mut Out) {
    let threads = calls.iter().map(|c| n(c, "t") as usize).max().unwrap_or(1);
    let progs: Vec<Vec<&J>> =
        (1..=threads).map(|t| calls.iter().filter(|c| n(c, "t") as usize == t).collect()).collect();
    let gate = Gate::new(threads);
    let recs: Vec<Vec<(u64, u64, Result<J, String>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = progs
            .iter()
            .enumerate()
            .map(|(t, prog)| {
                let gate = &gate;
                sc.spawn(move || {
                    let mut v = Vec::with_capacity(prog.len());
                    gate.pass();
                    for c in prog {
                        let a = stamp();
                        let r = guard(|| run(t + 1, c)).and_then(|x| x);
                        v.push((a, stamp(), r));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut evs: Vec<(u64, J)> = vec![];
    for (t, rs) in recs.into_iter().enumerate() {
        for (i, (a, b, r)) in rs.into_iter().enumerate() {
            evs.push((a, call(t + 1, progs[t][i])));
            evs.push((b, r.unwrap_or_else(|p| json!({"e":"panic","what":p}))));
        }
    }
    evs.sort_by_key(|e| e.0);
    for (_, e) in &evs {
        out.put(e);
    }
}

fn ahist(sc: &J, id: usize, out: &mut Out) {
    let (g, m) = (n(sc, "g") as u8, n(sc, "m") as u8);
    out.put(&json!({"e":"new","g":g,"m":m}));
    let name = format!("ahist{id}");
    let h: DynBoxedMetric<AtomicHistogram> = match guard(|| MetricBuilder::new(name.clone()).build(AtomicHistogram::new(g, m))) {
        Ok(h) => h,
        Err(p) => return out.put(&json!({"e":"panic","what":p})),
    };
    out.put(&cfg_event(h.config()));
    let load = |t: usize, op: &str| -> Result<J, String> {
        let r = if op == "load" { h.load() } else { entry_load(&name, |h: &AtomicHistogram| h.load()) };
        Ok(match r {
            None => json!({"e":"none","t":t}),
            Some(x) => some(t, &x),
        })
    };
    if let Some(vs) = sc.get("alone") {
        let every = n(sc, "every") as usize;
        for (i, a) in vs.as_array().unwrap().iter().enumerate() {
            if i % every == 0 {
                out.put(&json!({"e":"load","t":1}));
                out.put(&guard(|| load(1, "load")).and_then(|x| x).unwrap_or_else(|p| json!({"e":"panic","what":p})));
            }
            out.put(&match guard(|| h.increment(unword(a)).is_ok()) {
                Ok(ok) => json!({"e":"inc1","a":a,"ok":ok}),
                Err(p) => json!({"e":"panic","what":p}),
            });
        }
    } else {
        let call = |t: usize, c: &J| {
            if s(c, "op") == "inc" {
                json!({"e":"inc","t":t,"a":c["a"],"n":c.get("n").cloned().unwrap_or(json!(1))})
            } else {
                json!({"e":"load","t":t})
            }
        };
        let run = |t: usize, c: &J| {
            if s(c, "op") == "inc" {
                let a = unword(&c["a"]);
                let k = c.get("n").map_or(1, |x| x.as_u64().unwrap());
                let mut ok = h.increment(a).is_ok();
                for _ in 1..k {
                    ok &= h.increment(a).is_ok();
                }
                Ok(json!({"e":"incret","t":t,"ok":ok}))
            } else {
                load(t, s(c, "op"))
            }
        };
        concurrently(sc["calls"].as_array().unwrap(), &call, &run, out);
    }
    for op in ["load", "entry"] {
        out.put(&json!({"e":"load","t":1}));
        out.put(&guard(|| load(1, op)).and_then(|x| x).unwrap_or_else(|p| json!({"e":"panic","what":p})));
    }
    out.put(&cfg_event(h.config()));
}

fn rle(d: &[u64]) -> J {
    let mut v: Vec<J> = vec![];
    let mut i = 0;
    while i < d.len() {
        let mut j = i;
        while j < d.len() && d[j] == d[i] {
            j += 1;
        }
        v.push(json!([j - i, d[i].to_string()]));
        i = j;
    }
    J::from(v)
}

fn data(shape: &str, size: usize, serial: u64) -> Vec<u64> {
    match shape {
        "const" => vec![serial; size],
        "ramp" => (0..size as u64).map(|i| (i * 4 / size as u64) * 1000 + serial).collect(),
        "random" => {
            let mut r = Rng(serial);
            let k = r.below(7) + 1;
            let vals: Vec<u64> = (0..k).map(|_| r.next()).collect();
            (0..size).map(|i| vals[i * k as usize / size.max(1)]).collect()
        }
        "zero" => vec![0; size],
        "max" => vec![u64::MAX; size],
        "short" => vec![serial; size - 1],
        "long" => vec![serial; size + 1],
        "empty" => vec![],
        x => driver_bug(x),
    }
}

fn rhist(sc: &J, id: usize, out: &mut Out) {
    let (g, m) = (n(sc, "g") as u8, n(sc, "m") as u8);
    out.put(&json!({"e":"new","g":g,"m":m}));
    let name = format!("rhist{id}");
    let h: DynBoxedMetric<RwLockHistogram> = match guard(|| MetricBuilder::new(name.clone()).build(RwLockHistogram::new(g, m))) {
        Ok(h) => h,
        Err(p) => return out.put(&json!({"e":"panic","what":p})),
    };
    out.put(&cfg_event(h.config()));
    let size = (m as usize - g as usize + 1) << g;
    let load = |t: usize, op: &str| -> Result<J, String> {
        let r = if op == "load" { h.load() } else { entry_load(&name, |h: &RwLockHistogram| h.load()) };
        Ok(match r {
            None => json!({"e":"none","t":t}),
            Some(x) => {
                let c = x.config();
                json!({"e":"some","t":t,"d":rle(x.as_slice()),"g":c.grouping_power(),"m":c.max_value_power()})
            }
        })
    };
    let payload = |c: &J| data(s(c, "shape"), size, n(c, "serial"));
    let call = |t: usize, c: &J| {
        if s(c, "op") == "update" {
            json!({"e":"update","t":t,"d":rle(&payload(c))})
        } else {
            json!({"e":"load","t":t})
        }
    };
    let run = |t: usize, c: &J| {
        if s(c, "op") == "update" {
            let d = payload(c);
            let ok = h.update_from(&d).is_ok();
            Ok(json!({"e":"updret","t":t,"ok":ok}))
        } else {
            load(t, s(c, "op"))
        }
    };
    concurrently(sc["calls"].as_array().unwrap(), &call, &run, out);
    for op in ["load", "entry"] {
        out.put(&json!({"e":"load","t":1}));
        out.put(&guard(|| load(1, op)).and_then(|x| x).unwrap_or_else(|p| json!({"e":"panic","what":p})));
    }
    out.put(&cfg_event(h.config()));
}

fn hot_ahist(sc: &J, out: &mut Out) {
    let (g, m) = (n(sc, "g") as u8, n(sc, "m") as u8);
    let progs: Vec<Vec<J>> = serde_json::from_value(sc["hot"].clone()).unwrap();
    let load = |h: &AtomicHistogram, t| match h.load() {
        None => json!({"e":"none","t":t}),
        Some(x) => some(t, &x),
    };
    hot_rounds(
        &progs,
        n(sc, "ms"),
        n(sc, "keep") as usize,
        || (AtomicHistogram::new(g, m), vec![json!({"e":"new","g":g,"m":m})]),
        |t, c| match s(c, "op") {
            "inc" => json!({"e":"inc","t":t,"a":c["a"],"n":1}),
            _ => json!({"e":"load","t":t}),
        },
        |h, t, c| match s(c, "op") {
            "inc" => json!({"e":"incret","t":t,"ok":h.increment(unword(&c["a"])).is_ok()}),
            _ => load(h, t),
        },
        |h| vec![json!({"e":"load","t":1}), guard(|| load(h, 1)).unwrap_or_else(|p| json!({"e":"panic","what":p}))],
        |e| out.put(e),
    );
}

fn hot_rhist(sc: &J, out: &mut Out) {
    let (g, m) = (n(sc, "g") as u8, n(sc, "m") as u8);
    let size = (m as usize - g as usize + 1) << g;
    let progs: Vec<Vec<J>> = serde_json::from_value(sc["hot"].clone()).unwrap();
    let pre: Vec<J> = serde_json::from_value(sc["pre"].clone()).unwrap();
    // The data is made beforehand, so that the calls themselves come at once.
    let all: std::collections::HashMap<String, Vec<u64>> = progs
        .iter()
        .flatten()
        .chain(&pre)
        .filter(|c| s(c, "op") == "update")
        .map(|c| (c.to_string(), data(s(c, "shape"), size, n(c, "serial"))))
        .collect();
    let load = |h: &RwLockHistogram, t| match h.load() {
        None => json!({"e":"none","t":t}),
        Some(x) => {
            let c = x.config();
            json!({"e":"some","t":t,"d":rle(x.as_slice()),"g":c.grouping_power(),"m":c.max_value_power()})
        }
    };
    let keys: Vec<Vec<String>> = progs.iter().map(|p| p.iter().map(|c| c.to_string()).collect()).collect();
    let call = |t: usize, c: &J| match s(c, "op") {
        "update" => json!({"e":"update","t":t,"d":rle(&all[&c.to_string()])}),
        _ => json!({"e":"load","t":t}),
    };
    let run = |h: &RwLockHistogram, t: usize, c: &J| match s(c, "op") {
        "update" => {
            let d = match progs[t - 1].iter().position(|x| std::ptr::eq(x, c)) {
                Some(i) => &all[&keys[t - 1][i]],
                None => &all[&c.to_string()],
            };
            json!({"e":"updret","t":t,"ok":h.update_from(d).is_ok()})
        }
        _ => load(h, t),
    };
    hot_rounds(
        &progs,
        n(sc, "ms"),
        n(sc, "keep") as usize,
        || {
            let h = RwLockHistogram::new(g, m);
            let mut ev = vec![json!({"e":"new","g":g,"m":m})];
            for c in &pre {
                ev.push(call(1, c));
                ev.push(guard(|| run(&h, 1, c)).unwrap_or_else(|p| json!({"e":"panic","what":p})));
            }
            (h, ev)
        },
        call,
        run,
        |h| vec![json!({"e":"load","t":1}), guard(|| load(h, 1)).unwrap_or_else(|p| json!({"e":"panic","what":p}))],
        |e| out.put(e),
    );
}

pub fn run(atomic: bool, scen: &str, out: &str) {
    let mut o = Out::new(out);
    for (i, sc) in scenarios(scen).iter().enumerate() {
        if sc.get("hot").is_some() {
            if atomic {
                hot_ahist(sc, &mut o);
            } else {
                hot_rhist(sc, &mut o);
            }
        } else if atomic {
            ahist(sc, i, &mut o);
        } else {
            rhist(sc, i, &mut o);
        }
    }
    o.done();
}
