//! C22, C23: conversions of recordings.
#[path = "../../../core/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../tab.rs"]
#[allow(dead_code)]
mod tab;
use common::*;
use metriken_exposition::{MsgpackToParquet, Snapshot};
use serde_json::{json, Value as J};
use std::io::{Error, ErrorKind, Read, Result as R, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use tab::*;

/// What fails, and where: the operations of each kind are counted.
#[derive(Clone, Default)]
struct Plan {
    op: String,
    at: usize,
    sticky: bool,
    kind: usize,
}
#[derive(Default)]
struct World {
    plan: Plan,
    reads: usize,
    seeks: usize,
    writes: usize,
    flushes: usize,
    faults: Vec<J>,
}
impl World {
    fn op(&mut self, op: &str) -> R<()> {
        let n = match op {
            "read" => &mut self.reads,
            "seek" => &mut self.seeks,
            "flush" => &mut self.flushes,
            _ => &mut self.writes,
        };
        let at = *n;
        *n += 1;
        let kinds = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::TimedOut];
        let mine = self.plan.op == op || (self.plan.op == "zero" && op == "write");
        if mine && (at == self.plan.at || (self.plan.sticky && at > self.plan.at)) {
            self.faults.push(json!({"e":"fault","op":op,"at":at}));
            if self.plan.op != "zero" {
                return Err(Error::new(kinds[self.plan.kind % kinds.len()], "injected"));
            }
            return Err(Error::new(ErrorKind::WouldBlock, "zero"));
        }
        Ok(())
    }
}
type Shared = Arc<Mutex<World>>;

struct Src {
    w: Shared,
    data: Arc<Vec<u8>>,
    pos: usize,
    chunk: usize,
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> R<usize> {
        self.w.lock().unwrap().op("read")?;
        let left = self.data.len().saturating_sub(self.pos);
        let mut n = left.min(buf.len());
        if self.chunk > 0 {
            n = n.min(1 + (self.pos * 7 + self.chunk) % self.chunk);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> R<u64> {
        self.w.lock().unwrap().op("seek")?;
        let p = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if p < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek"));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
struct Dst {
    w: Shared,
    file: Arc<Mutex<Vec<u8>>>,
    short: bool,
}
impl Write for Dst {
    fn write(&mut self, buf: &[u8]) -> R<usize> {
        let r = self.w.lock().unwrap().op("write");
        if let Err(e) = r {
            if e.kind() == ErrorKind::WouldBlock {
                return Ok(0);
            }
            return Err(e);
        }
        let n = if self.short { buf.len().min(1 + buf.len() * 2 / 3) } else { buf.len() };
        self.file.lock().unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> R<()> {
        self.w.lock().unwrap().op("flush")
    }
}

struct Run<'a> {
    sc: &'a J,
    o: &'a mut Out,
    dir: PathBuf,
}

/// A converter with the options and metadata of the scenario.
fn converter(sc: &J) -> MsgpackToParquet {
    let opts = &sc["opts"];
    let mut c = if n(opts, "batch") == 50_000 && s(opts, "codec") == "zstd" && opts["level"] == 3 && opts["sparse"] == false {
        MsgpackToParquet::new()
    } else {
        MsgpackToParquet::with_options(options(opts))
    };
    for p in sc["extra"].as_array().unwrap() {
        if n(opts, "level") % 2 == 0 {
            c = c.metadata(text(&p[0]).to_string(), "to be replaced".to_string());
        }
        c = c.metadata(text(&p[0]).to_string(), text(&p[1]).to_string());
    }
    c
}

impl Run<'_> {
    /// One conversion: of bytes that are the first k snapshots and, if dirty,
    /// something more that is not one.
    fn one(&mut self, bytes: &Arc<Vec<u8>>, k: usize, dirty: bool, plan: Plan) -> Shared {
        let ss = self.sc["ss"].as_array().unwrap()[..k].to_vec();
        self.of(bytes, &ss, dirty, plan)
    }

    /// One conversion: of bytes that are the snapshots ss and, if dirty,
    /// something more that is not one.
    fn of(&mut self, bytes: &Arc<Vec<u8>>, ss: &[J], dirty: bool, plan: Plan) -> Shared {
        let sc = self.sc;
        let w: Shared = Arc::new(Mutex::new(World { plan: plan.clone(), ..Default::default() }));
        let conv = converter(sc);
        let file = Arc::new(Mutex::new(vec![]));
        let r = match s(sc, "api") {
            "handle" => {
                let src = Src { w: w.clone(), data: bytes.clone(), pos: 0, chunk: n(sc, "chunk") as usize };
                let dst = Dst { w: w.clone(), file: file.clone(), short: sc["short"] == true };
                guard(|| conv.convert_file_handle(src, dst).map_err(|e| e.to_string()))
            }
            api => {
                let (mut input, mut output) = (self.dir.join("in.msgpack"), self.dir.join("out.parquet"));
                std::fs::write(&input, &**bytes).unwrap();
                let _ = std::fs::remove_file(&output);
                let fault = |what: &str| w.lock().unwrap().faults.push(json!({"e":"fault","op":what,"at":0}));
                match plan.op.as_str() {
                    "noinput" => {
                        input = self.dir.join("missing.msgpack");
                        fault("open");
                    }
                    "dirinput" => {
                        input = self.dir.clone();
                        fault("read");
                    }
                    "nooutput" => {
                        output = self.dir.join("missing").join("out.parquet");
                        fault("create");
                    }
                    "full" => {
                        output = PathBuf::from("/dev/full");
                        fault("write");
                    }
                    _ => {
                        // something is there already, longer than what will be written
                        if plan.kind % 2 == 1 {
                            std::fs::write(&output, vec![0x41u8; 1 << 20]).unwrap();
                        }
                    }
                }
                let out2 = output.clone();
                let r = if api == "path" {
                    guard(|| conv.convert_file_path(input, out2).map_err(|e| e.to_string()))
                } else {
                    guard(|| {
                        let i = std::fs::File::open(input).map_err(|e| e.to_string())?;
                        let o = std::fs::File::create(out2).map_err(|e| e.to_string())?;
                        conv.convert_file_handle(i, o).map_err(|e| e.to_string())
                    })
                };
                if plan.op != "full" {
                    *file.lock().unwrap() = std::fs::read(&output).unwrap_or_default();
                }
                r
            }
        };
        self.o.put(&json!({"e":"new","ss":ss,"dirty":dirty,"opts":sc["opts"],"extra":sc["extra"]}));
        for f in &w.lock().unwrap().faults {
            self.o.put(f);
        }
        let file = std::mem::take(&mut *file.lock().unwrap());
        match r {
            Ok(Ok(rows)) => match guard(|| read_back(file)) {
                Ok(Ok(f)) => self.o.put(&json!({"e":"done","rows":rows,"file":f})),
                Ok(Err(e)) | Err(e) => self.o.put(&json!({"e":"unreadable","what":e,"rows":rows})),
            },
            Ok(Err(e)) => self.o.put(&json!({"e":"failed","what":e})),
            Err(e) => self.o.put(&json!({"e":"panic","what":e})),
        }
        w
    }
}

/// Up to max of the places 0..n: all of them, or the ends and some between.
fn places(n: usize, max: usize, rng: &mut Rng) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..max / 4).chain(n - max / 4..n).collect();
    while v.len() < max {
        v.push(rng.below(n as u64) as usize);
    }
    v
}

const JUNK: u64 = 26;

fn junk(i: u64, rng: &mut Rng) -> Vec<u8> {
    match i % JUNK {
        0 => vec![0xc0],
        1 => vec![0x05],
        2 => b"\xa3abc".to_vec(),
        3 => vec![0x93, 1, 2, 3],
        4 => vec![0x80],
        5 => vec![0xc1],
        6 => vec![0xdd, 0xff, 0xff, 0xff, 0xff],
        7 => vec![0xdb, 0xff, 0xff, 0xff, 0xff, 0x61],
        8 => vec![0x91; 3000],
        9 => vec![0x95, 0x92, 0, 0, 0x80, 0x91, 0x05, 0x90, 0x90],
        10 => vec![0x97, 0x92, 0, 0, 0x92, 0, 0, 0x80, 0x90, 0x90, 0x90, 0x90],
        11 => vec![0xca, 0, 0, 0, 0],
        12 => vec![0xdf, 0xff, 0xff, 0xff, 0xff],
        // what files are padded, ended or wrapped with
        13 => vec![0],
        14 => vec![0; 64],
        15 => vec![0; 20000],
        16 => vec![0xff; 8],
        17 => b"\n".to_vec(),
        18 => b"\r\n".to_vec(),
        19 => b" ".to_vec(),
        20 => b"{}".to_vec(),
        21 => b"\xef\xbb\xbf".to_vec(),
        22 => vec![0x90],
        23 => vec![0xc2],
        24 => vec![0xc4, 0],
        _ => {
            // no snapshot starts with an integer
            let mut v = vec![rng.below(128) as u8];
            v.extend((0..rng.below(40)).map(|_| rng.below(256) as u8));
            v
        }
    }
}

/// What the bytes are a recording of, and whether something else follows.
/// None if it is outside the domain.
fn decoded(b: &[u8]) -> Option<(Vec<J>, bool)> {
    let mut c = std::io::Cursor::new(b);
    let mut ss = vec![];
    while (c.position() as usize) < b.len() {
        match rmp_serde::from_read::<_, Snapshot>(&mut c) {
            Ok(x) => ss.push(unsnapshot(x)?),
            Err(_) => return Some((ss, true)),
        }
    }
    Some((ss, false))
}

fn run(sc: &J, o: &mut Out, dir: &std::path::Path, rng: &mut Rng) {
    let encs: Vec<Vec<u8>> = sc["ss"].as_array().unwrap().iter().map(|x| Snapshot::to_msgpack(&snapshot(x)).expect("encoding")).collect();
    let all = Arc::new(encs.concat());
    let count = encs.len();
    let max = n(sc, "max") as usize;
    let sticky = sc["sticky"] == true;
    let mut r = Run { sc, o, dir: dir.to_path_buf() };
    match s(sc, "fault") {
        "none" => {
            r.one(&all, count, false, Plan { kind: rng.below(2) as usize, ..Default::default() });
        }
        op @ ("read" | "seek" | "write" | "flush" | "zero") => {
            let w = r.one(&all, count, false, Plan::default());
            let n = {
                let w = w.lock().unwrap();
                match op {
                    "read" => w.reads,
                    "seek" => w.seeks,
                    "flush" => w.flushes,
                    _ => w.writes,
                }
            };
            for at in places(n, max, rng) {
                r.one(&all, count, false, Plan { op: op.to_string(), at, sticky, kind: rng.below(5) as usize });
            }
        }
        "truncate" => {
            let mut ends = vec![0];
            for e in &encs {
                ends.push(ends.last().unwrap() + e.len());
            }
            for at in places(all.len(), max, rng) {
                let k = ends.iter().filter(|e| **e <= at).count() - 1;
                r.one(&Arc::new(all[..at].to_vec()), k, ends[k] != at, Plan::default());
            }
        }
        "junk" => {
            for at in 0..=count {
                for i in 0..JUNK {
                    let mut b = encs[..at].concat();
                    b.extend(junk(i, rng));
                    b.extend(encs[at..].concat());
                    r.one(&Arc::new(b), at, true, Plan::default());
                }
            }
        }
        "flip" => {
            // other bytes in some places: whatever this is now a recording of
            for i in 0..max * 20 {
                let mut b = (*all).clone();
                for _ in 0..1 + rng.below(3) {
                    let at = rng.below(b.len() as u64) as usize;
                    match (i + at) % 5 {
                        0 => b[at] ^= 1 << rng.below(8),
                        1 => b[at] = rng.below(256) as u8,
                        2 => b[at] = b[at].wrapping_add(1),
                        3 => b.insert(at, rng.below(256) as u8),
                        _ => {
                            b.remove(at);
                        }
                    }
                    if b.is_empty() {
                        break;
                    }
                }
                if let Some((ss, dirty)) = decoded(&b) {
                    r.of(&Arc::new(b), &ss, dirty, Plan::default());
                }
            }
        }
        op => {
            r.one(&all, count, false, Plan { op: op.to_string(), ..Default::default() });
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out::new(&a[2]);
    let dir = PathBuf::from(format!("{}.dir", a[2]));
    std::fs::create_dir_all(&dir).unwrap();
    for (i, sc) in scenarios(&a[1]).iter().enumerate() {
        run(sc, &mut o, &dir, &mut Rng(i as u64 + 1));
    }
    o.done();
    std::fs::remove_dir_all(&dir).unwrap();
}
