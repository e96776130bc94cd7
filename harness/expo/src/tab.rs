//! Snapshots as JSON, and Parquet files read back as JSON.
use crate::common::*;
use arrow::array::{Array, Int64Array, ListArray, UInt64Array};
use arrow::datatypes::DataType;
use bytes::Bytes;
use metriken_exposition::{
    Counter, Gauge, Histogram, ParquetCompression, ParquetHistogramType, ParquetOptions, Snapshot, SnapshotV1, SnapshotV2,
};
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime};

pub fn text<'a>(j: &'a J) -> &'a str {
    j.as_str().unwrap_or_else(|| driver_bug(&format!("not a string: {j}")))
}
pub fn map(j: &J) -> HashMap<String, String> {
    j.as_array().unwrap().iter().map(|p| (text(&p[0]).to_string(), text(&p[1]).to_string())).collect()
}
pub fn pairs(m: &HashMap<String, String>) -> J {
    let m: BTreeMap<_, _> = m.iter().collect();
    m.into_iter().map(|(k, v)| json!([k, v])).collect()
}
fn nanos(j: &J) -> Duration {
    let n: u128 = text(j).parse().unwrap();
    Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}
pub fn snapshot(j: &J) -> Snapshot {
    let (mut counters, mut gauges, mut histograms) = (vec![], vec![], vec![]);
    for r in j["reads"].as_array().unwrap() {
        let (name, metadata) = (s(r, "name").to_string(), map(&r["meta"]));
        match s(r, "k") {
            "counter" => counters.push(Counter { name, metadata, value: s(r, "v").parse().unwrap() }),
            "gauge" => gauges.push(Gauge { name, metadata, value: s(r, "v").parse().unwrap() }),
            _ => histograms.push(Histogram {
                name,
                metadata,
                value: histogram::Histogram::from_buckets(
                    n(r, "g") as u8,
                    n(r, "m") as u8,
                    r["v"].as_array().unwrap().iter().map(|x| text(x).parse().unwrap()).collect(),
                )
                .unwrap_or_else(|e| driver_bug(&format!("{e:?}"))),
            }),
        }
    }
    let systemtime = SystemTime::UNIX_EPOCH + nanos(&j["ts"]);
    let metadata = map(&j["meta"]);
    match j["dur"].get(0) {
        None => Snapshot::V1(SnapshotV1 { systemtime, metadata, counters, gauges, histograms }),
        Some(d) => Snapshot::V2(SnapshotV2 { systemtime, duration: nanos(d), metadata, counters, gauges, histograms }),
    }
}
/// A snapshot as JSON; None if it is outside the domain of the specification.
pub fn unsnapshot(x: Snapshot) -> Option<J> {
    let plain = |s: &str| s.bytes().all(|b| (32..127).contains(&b));
    let (mut ok, mut layouts) = (true, true);
    let mut reads = vec![];
    let (t, dur, meta, counters, gauges, histograms) = match x {
        Snapshot::V1(x) => (x.systemtime, None, x.metadata, x.counters, x.gauges, x.histograms),
        Snapshot::V2(x) => (x.systemtime, Some(x.duration), x.metadata, x.counters, x.gauges, x.histograms),
    };
    let mut one = |k: &str, name: &str, meta: &HashMap<String, String>, v: J| {
        ok &= plain(name) && meta.iter().all(|(k, v)| plain(k) && plain(v));
        reads.push(json!({"k":k,"name":name,"meta":pairs(meta),"v":v}));
    };
    for c in &counters {
        one("counter", &c.name, &c.metadata, json!(c.value.to_string()));
    }
    for c in &gauges {
        one("gauge", &c.name, &c.metadata, json!(c.value.to_string()));
    }
    for c in &histograms {
        let v: Vec<String> = c.value.as_slice().iter().map(|x| x.to_string()).collect();
        one("histogram", &c.name, &c.metadata, json!(v));
        // the layout has to be one
        let g = c.value.config();
        layouts &= histogram::Config::new(g.grouping_power(), g.max_value_power()).is_ok_and(|x| x == g && x.total_buckets() == v.len());
    }
    ok &= meta.iter().all(|(k, v)| plain(k) && plain(v));
    let ts = t.duration_since(SystemTime::UNIX_EPOCH).ok()?.as_nanos();
    let dur: Vec<u128> = dur.iter().map(|d| d.as_nanos()).collect();
    if !ok || !layouts || ts > u64::MAX as u128 || dur.iter().any(|d| *d > u64::MAX as u128) {
        return None;
    }
    let dur: Vec<String> = dur.iter().map(|d| d.to_string()).collect();
    Some(json!({"ver":dur.len() + 1,"ts":ts.to_string(),"dur":dur,"meta":pairs(&meta),"reads":reads}))
}
pub fn options(o: &J) -> ParquetOptions {
    let mut p = ParquetOptions::new();
    if n(o, "batch") != 50_000 {
        p = p.max_batch_size(n(o, "batch") as usize);
    }
    let c = match s(o, "codec") {
        "none" => ParquetCompression::none(),
        _ => ParquetCompression::zstd(n(o, "level") as i32).unwrap_or_else(|e| driver_bug(&e.to_string())),
    };
    // in either order
    let h = if o["sparse"] == true { ParquetHistogramType::Sparse } else { ParquetHistogramType::Standard };
    if n(o, "level") % 2 == 0 {
        p.compression(c).histogram_type(h)
    } else {
        p.histogram_type(h).compression(c)
    }
}
fn list(a: &dyn Array) -> J {
    let a = a.as_any().downcast_ref::<UInt64Array>().expect("list of u64");
    a.iter().map(|x| x.map(|x| x.to_string()).unwrap_or("null".into())).collect()
}
/// The content of a file, or why it cannot be read.
pub fn read_back(file: Vec<u8>) -> Result<J, String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let b = ParquetRecordBatchReaderBuilder::try_new(Bytes::from(file)).map_err(|x| e(&x))?;
    let md = b.metadata().clone();
    let groups: Vec<i64> = md.row_groups().iter().map(|g| g.num_rows()).collect();
    let mut codecs: Vec<String> = vec![];
    for g in md.row_groups() {
        for c in g.columns() {
            let x = format!("{:?}", c.compression());
            codecs.push(if x.starts_with("ZSTD") { "zstd".into() } else if x == "UNCOMPRESSED" { "none".into() } else { x });
        }
    }
    codecs.sort();
    codecs.dedup();
    let mut meta: Vec<(String, String)> = md
        .file_metadata()
        .key_value_metadata()
        .map(|v| v.iter().map(|k| (k.key.clone(), k.value.clone().unwrap_or("<none>".into()))).collect())
        .unwrap_or_default();
    meta.retain(|x| x.0 != "ARROW:schema");
    meta.sort();
    let schema = b.schema().clone();
    let mut cols: Vec<Vec<J>> = vec![vec![]; schema.fields().len()];
    for batch in b.build().map_err(|x| e(&x))? {
        let batch = batch.map_err(|x| e(&x))?;
        for (i, col) in batch.columns().iter().enumerate() {
            for r in 0..batch.num_rows() {
                cols[i].push(if col.is_null(r) {
                    json!([])
                } else if let Some(a) = col.as_any().downcast_ref::<UInt64Array>() {
                    json!([a.value(r).to_string()])
                } else if let Some(a) = col.as_any().downcast_ref::<Int64Array>() {
                    json!([a.value(r).to_string()])
                } else if let Some(a) = col.as_any().downcast_ref::<ListArray>() {
                    json!([list(&a.value(r))])
                } else {
                    return Err(format!("column of type {}", col.data_type()));
                });
            }
        }
    }
    let cols: Vec<J> = schema
        .fields()
        .iter()
        .zip(cols)
        .map(|(f, vals)| {
            let t = match f.data_type() {
                DataType::UInt64 => "u64",
                DataType::Int64 => "i64",
                DataType::List(x) if x.data_type() == &DataType::UInt64 => "list",
                _ => "other",
            };
            json!({"name":f.name(),"type":t,"meta":pairs(f.metadata()),"vals":vals})
        })
        .collect();
    let meta: Vec<J> = meta.iter().map(|(k, v)| json!([k, v])).collect();
    Ok(json!({"e":"closed","n":md.file_metadata().num_rows(),"groups":groups,"codecs":codecs,"meta":meta,"cols":cols}))
}
