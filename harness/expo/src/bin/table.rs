//! C19, C20, C21: Parquet files.
#[path = "../../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../tab.rs"]
#[allow(dead_code)]
mod tab;
use common::*;
use metriken_exposition::ParquetSchema;
use serde_json::{json, Value as J};
use tab::*;

fn run(sc: &J, o: &mut Out) {
    o.put(&json!({"e":"new"}));
    let r = guard(|| {
        let mut file: Vec<u8> = vec![];
        let mut schema = if sc["opts"]["level"] == 3 { ParquetSchema::default() } else { ParquetSchema::new() };
        for x in sc["schema"].as_array().unwrap() {
            schema.push(snapshot(x));
        }
        let extra = &sc["extra"];
        let extra = if extra.as_array().unwrap().is_empty() && sc["opts"]["level"] != 2 { None } else { Some(map(extra)) };
        let mut w = schema.finalize(&mut file, options(&sc["opts"]), extra).map_err(|e| e.to_string())?;
        for x in sc["push"].as_array().unwrap() {
            w.push(snapshot(x)).map_err(|e| e.to_string())?;
        }
        w.finalize().map_err(|e| e.to_string())?;
        read_back(file)
    });
    o.put(&json!({"e":"schema","ss":sc["schema"]}));
    o.put(&json!({"e":"finalize","opts":sc["opts"],"extra":sc["extra"]}));
    o.put(&json!({"e":"push","ss":sc["push"]}));
    match r {
        Ok(Ok(f)) => o.put(&f),
        Ok(Err(e)) => o.put(&json!({"e":"error","what":e})),
        Err(e) => o.put(&json!({"e":"panic","what":e})),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    for sc in scenarios(&a[1]) {
        run(&sc, &mut o);
    }
    o.done();
}
