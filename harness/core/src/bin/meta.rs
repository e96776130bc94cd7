//! C14: metadata as a read-only map.
#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
use common::*;
use metriken::{metric, metrics, Counter, DynBoxedMetric, Metadata, MetadataIter, MetricBuilder};
use serde_json::{json, Value as J};
use std::collections::HashMap;

macro_rules! statics {
    ($($id:ident $name:literal { $($k:literal = $v:literal),* })*) => {
        $(#[metric(name = $name, metadata = { $($k = $v),* })]
          static $id: Counter = Counter::new();)*
        fn table(name: &str) -> Option<Vec<(&'static str, &'static str)>> {
            match name { $($name => Some(vec![$(($k, $v)),*]),)* _ => None }
        }
    };
}

#[rustfmt::skip]
statics! {
    S0 "s0" { }
    S1 "s1" { "a" = "1" }
    S2 "s2" { "" = "", "b" = "x" }
    S3 "s3" { "k" = "v", "K" = "V", "k " = "v " }
    S4 "s4" { "é" = "ü", "日本" = "語", "a\"b" = "c\\d", "n\n" = "\t" }
    S8 "s8" { "k1" = "v1", "k2" = "v2", "k3" = "v3", "k4" = "v4", "k5" = "v5", "k6" = "v6", "k7" = "v7", "k8" = "v8" }
    S20 "s20" { "a00" = "0", "a01" = "1", "a02" = "2", "a03" = "3", "a04" = "4", "a05" = "5", "a06" = "6",
        "a07" = "7", "a08" = "8", "a09" = "9", "a10" = "10", "a11" = "11", "a12" = "12", "a13" = "13", "a14" = "14",
        "a15" = "15", "a16" = "16", "a17" = "17", "a18" = "18", "a19" = "19" }
    S300 "s300" { "x0" = "0", "x1" = "1", "x2" = "2", "x3" = "3", "x4" = "4", "x5" = "5", "x6" = "6", "x7" = "7", "x8" = "8", "x9" = "9",
        "x10" = "10", "x11" = "11", "x12" = "12", "x13" = "13", "x14" = "14", "x15" = "15", "x16" = "16", "x17" = "17", "x18" = "18", "x19" = "19",
        "x20" = "20", "x21" = "21", "x22" = "22", "x23" = "23", "x24" = "24", "x25" = "25", "x26" = "26", "x27" = "27", "x28" = "28", "x29" = "29",
        "x30" = "30", "x31" = "31", "x32" = "32", "x33" = "33", "x34" = "34", "x35" = "35", "x36" = "36", "x37" = "37", "x38" = "38", "x39" = "39",
        "x40" = "40", "x41" = "41", "x42" = "42", "x43" = "43", "x44" = "44", "x45" = "45", "x46" = "46", "x47" = "47", "x48" = "48", "x49" = "49",
        "x50" = "50", "x51" = "51", "x52" = "52", "x53" = "53", "x54" = "54", "x55" = "55", "x56" = "56", "x57" = "57", "x58" = "58", "x59" = "59",
        "x60" = "60", "x61" = "61", "x62" = "62", "x63" = "63", "x64" = "64", "x65" = "65", "x66" = "66", "x67" = "67", "x68" = "68", "x69" = "69",
        "x70" = "70", "x71" = "71", "x72" = "72", "x73" = "73", "x74" = "74", "x75" = "75", "x76" = "76", "x77" = "77", "x78" = "78", "x79" = "79",
        "x80" = "80", "x81" = "81", "x82" = "82", "x83" = "83", "x84" = "84", "x85" = "85", "x86" = "86", "x87" = "87", "x88" = "88", "x89" = "89",
        "x90" = "90", "x91" = "91", "x92" = "92", "x93" = "93", "x94" = "94", "x95" = "95", "x96" = "96", "x97" = "97", "x98" = "98", "x99" = "99",
        "x100" = "100", "x101" = "101", "x102" = "102", "x103" = "103", "x104" = "104", "x105" = "105", "x106" = "106", "x107" = "107", "x108" = "108", "x109" = "109",
        "x110" = "110", "x111" = "111", "x112" = "112", "x113" = "113", "x114" = "114", "x115" = "115", "x116" = "116", "x117" = "117", "x118" = "118", "x119" = "119",
        "x120" = "120", "x121" = "121", "x122" = "122", "x123" = "123", "x124" = "124", "x125" = "125", "x126" = "126", "x127" = "127", "x128" = "128", "x129" = "129",
        "x130" = "130", "x131" = "131", "x132" = "132", "x133" = "133", "x134" = "134", "x135" = "135", "x136" = "136", "x137" = "137", "x138" = "138", "x139" = "139",
        "x140" = "140", "x141" = "141", "x142" = "142", "x143" = "143", "x144" = "144", "x145" = "145", "x146" = "146", "x147" = "147", "x148" = "148", "x149" = "149",
        "x150" = "150", "x151" = "151", "x152" = "152", "x153" = "153", "x154" = "154", "x155" = "155", "x156" = "156", "x157" = "157", "x158" = "158", "x159" = "159",
        "x160" = "160", "x161" = "161", "x162" = "162", "x163" = "163", "x164" = "164", "x165" = "165", "x166" = "166", "x167" = "167", "x168" = "168", "x169" = "169",
        "x170" = "170", "x171" = "171", "x172" = "172", "x173" = "173", "x174" = "174", "x175" = "175", "x176" = "176", "x177" = "177", "x178" = "178", "x179" = "179",
        "x180" = "180", "x181" = "181", "x182" = "182", "x183" = "183", "x184" = "184", "x185" = "185", "x186" = "186", "x187" = "187", "x188" = "188", "x189" = "189",
        "x190" = "190", "x191" = "191", "x192" = "192", "x193" = "193", "x194" = "194", "x195" = "195", "x196" = "196", "x197" = "197", "x198" = "198", "x199" = "199",
        "x200" = "200", "x201" = "201", "x202" = "202", "x203" = "203", "x204" = "204", "x205" = "205", "x206" = "206", "x207" = "207", "x208" = "208", "x209" = "209",
        "x210" = "210", "x211" = "211", "x212" = "212", "x213" = "213", "x214" = "214", "x215" = "215", "x216" = "216", "x217" = "217", "x218" = "218", "x219" = "219",
        "x220" = "220", "x221" = "221", "x222" = "222", "x223" = "223", "x224" = "224", "x225" = "225", "x226" = "226", "x227" = "227", "x228" = "228", "x229" = "229",
        "x230" = "230", "x231" = "231", "x232" = "232", "x233" = "233", "x234" = "234", "x235" = "235", "x236" = "236", "x237" = "237", "x238" = "238", "x239" = "239",
        "x240" = "240", "x241" = "241", "x242" = "242", "x243" = "243", "x244" = "244", "x245" = "245", "x246" = "246", "x247" = "247", "x248" = "248", "x249" = "249",
        "x250" = "250", "x251" = "251", "x252" = "252", "x253" = "253", "x254" = "254", "x255" = "255", "x256" = "256", "x257" = "257", "x258" = "258", "x259" = "259",
        "x260" = "260", "x261" = "261", "x262" = "262", "x263" = "263", "x264" = "264", "x265" = "265", "x266" = "266", "x267" = "267", "x268" = "268", "x269" = "269",
        "x270" = "270", "x271" = "271", "x272" = "272", "x273" = "273", "x274" = "274", "x275" = "275", "x276" = "276", "x277" = "277", "x278" = "278", "x279" = "279",
        "x280" = "280", "x281" = "281", "x282" = "282", "x283" = "283", "x284" = "284", "x285" = "285", "x286" = "286", "x287" = "287", "x288" = "288", "x289" = "289",
        "x290" = "290", "x291" = "291", "x292" = "292", "x293" = "293", "x294" = "294", "x295" = "295", "x296" = "296", "x297" = "297", "x298" = "298", "x299" = "299" }
}

#[metric(name = "plain")]
static PLAIN: Counter = Counter::new();

fn pair(p: (&str, &str)) -> J {
    json!([p.0, p.1])
}

fn hints(it: &MetadataIter) -> (usize, Vec<usize>, Vec<usize>) {
    let cap = |x: usize| x.min(0x7fff_ffff);
    let (lo, hi) = it.size_hint();
    (cap(lo), hi.map(cap).into_iter().collect(), vec![cap(it.len())])
}

fn examine(m: &Metadata, expected: &[(String, String)], sc: &J, out: &mut Out) {
    let mut seq = vec![];
    let mut it = m.iter();
    while let Some(p) = it.next() {
        seq.push(pair(p));
        if seq.len() > 10_000 {
            break;
        }
    }
    let want: Vec<J> = expected.iter().map(|(k, v)| json!([k, v])).collect();
    out.put(&json!({"e":"new","seq":seq,"expected":want,"exact":true}));
    out.put(&json!({"e":"size","len":m.len(),"empty":m.is_empty()}));
    for k in sc["gets"].as_array().unwrap() {
        let k = k.as_str().unwrap();
        let v: Vec<&str> = m.get(k).into_iter().collect();
        out.put(&json!({"e":"get","k":k,"has":m.contains_key(k),"v":v}));
    }
    for (k, _) in expected {
        let v: Vec<&str> = m.get(k).into_iter().collect();
        out.put(&json!({"e":"get","k":k,"has":m.contains_key(k),"v":v}));
    }
    let mut it = if s(sc, "via") == "iter" { m.iter() } else { m.into_iter() };
    for o in sc["ops"].as_array().unwrap() {
        if s(o, "op") == "fork" {
            let r: Vec<J> = it.clone().map(pair).collect();
            out.put(&json!({"e":"fork","r":r}));
            continue;
        }
        let (lo, hi, len) = hints(&it);
        let r = match s(o, "op") {
            "next" => it.next(),
            "nth" => it.nth(unword(&o["n"]) as usize),
            "peek" => None,
            x => driver_bug(x),
        };
        let r: Vec<J> = r.into_iter().map(pair).collect();
        out.put(&json!({"e":"op","op":o["op"],"n":o["n"],"r":r,"lo":lo,"hi":hi,"len":len}));
    }
    let (lo, hi, len) = hints(&it);
    let mut r: Vec<J> = vec![];
    let f = s(sc, "final");
    match f {
        "fold" => {
            r = it.fold(vec![], |mut v, p| {
                v.push(pair(p));
                v
            })
        }
        "collect" => r = it.map(pair).collect(),
        "for_each" => it.for_each(|p| r.push(pair(p))),
        "loop" => {
            for p in it.by_ref() {
                r.push(pair(p));
            }
            for _ in 0..3 {
                r.extend(it.next().map(pair));
                r.extend(it.nth(0).map(pair));
            }
        }
        "last" => r.extend(it.last().map(pair)),
        "step2" => r = it.step_by(2).map(pair).collect(),
        "skip1" => r = it.skip(1).map(pair).collect(),
        "count" => r.push(json!(it.count())),
        x => driver_bug(x),
    }
    out.put(&json!({"e":"final","op":f,"r":r,"lo":lo,"hi":hi,"len":len}));
}

fn one(sc: &J, out: &mut Out) {
    let src = s(sc, "src");
    let given: Vec<(String, String)> = sc["pairs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string()))
        .collect();
    let map: HashMap<String, String> = given.iter().cloned().collect();
    if let Some(t) = table(src.trim_end_matches("+clone")) {
        let want: Vec<(String, String)> = t.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        let m = metrics();
        let e = m.static_metrics().iter().find(|e| e.name() == src.trim_end_matches("+clone")).unwrap();
        if src.ends_with("+clone") {
            examine(&e.metadata().clone(), &want, sc, out)
        } else {
            examine(e.metadata(), &want, sc, out)
        }
        return;
    }
    let with_entry = |name: &str, out: &mut Out, want: &[(String, String)], clone: bool| {
        let m = metrics();
        let e = m.iter().find(|e| e.name() == name).unwrap();
        if clone {
            examine(&e.metadata().clone(), want, sc, out)
        } else {
            examine(e.metadata(), want, sc, out)
        }
    };
    match src {
        "builder" | "builder+clone" => {
            let mut b = MetricBuilder::new("dyn");
            for (k, v) in &given {
                b = b.metadata(k.clone(), v.clone());
            }
            let _m = b.build(Counter::new());
            with_entry("dyn", out, &given, src != "builder");
        }
        "new" => examine(&Metadata::new(map), &given, sc, out),
        "from" => examine(&Metadata::from(map), &given, sc, out),
        "from+clone" => examine(&Metadata::from(map).clone(), &given, sc, out),
        "default" => examine(&Metadata::default(), &[], sc, out),
        "plain" => with_entry("plain", out, &[], false),
        "bare" => {
            // Neither builder nor attribute: no metadata at all.
            let e = MetricBuilder::new("bare").metadata("lost", "x").into_entry();
            #[allow(deprecated)]
            let _m = DynBoxedMetric::new(Counter::new(), e);
            with_entry("bare", out, &[], false);
        }
        x => driver_bug(x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    for sc in scenarios(&a[1]) {
        if let Err(p) = guard(|| one(&sc, &mut o)) {
            o.put(&json!({"e":"panic","what":p}));
        }
    }
    o.done();
}
