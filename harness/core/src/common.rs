//! Recording. Every call of the code under test is bracketed by two stamps of
//! one global counter, so the order of the stamps never contradicts real time.
use serde_json::Value as J;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

static SEQ: AtomicU64 = AtomicU64::new(0);

#[inline]
pub fn stamp() -> u64 {
    SEQ.fetch_add(1, Ordering::SeqCst)
}

pub fn word(v: u64) -> J {
    J::from(vec![v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48])
}

pub fn unword(j: &J) -> u64 {
    let a = j.as_array().expect("word");
    (0..4).map(|i| a[i].as_u64().unwrap() << (16 * i)).sum()
}

pub fn scenarios(path: &str) -> Vec<J> {
    BufReader::new(File::open(path).expect("scenario file"))
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("scenario"))
        .collect()
}

/// Output of JSON lines, restricted to ASCII so that no reader has to guess an
/// encoding.
pub struct Out(BufWriter<File>);

impl Out {
    pub fn new(path: &str) -> Self {
        Out(BufWriter::new(File::create(path).expect("output file")))
    }
    pub fn put(&mut self, j: &J) {
        let s = serde_json::to_string(j).unwrap();
        let mut o = String::with_capacity(s.len() + 1);
        for c in s.chars() {
            if c.is_ascii() && c != '\u{7f}' {
                o.push(c);
            } else {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
        }
        o.push('\n');
        self.0.write_all(o.as_bytes()).unwrap();
    }
    pub fn done(mut self) {
        self.0.flush().unwrap();
    }
}

pub fn s<'a>(j: &'a J, k: &str) -> &'a str {
    j[k].as_str().unwrap_or_else(|| driver_bug(&format!("missing string {k} in {j}")))
}
pub fn n(j: &J, k: &str) -> u64 {
    j[k].as_u64().unwrap_or_else(|| driver_bug(&format!("missing number {k} in {j}")))
}

/// The driver (not the code under test) is at fault.
pub fn driver_bug(what: &str) -> ! {
    eprintln!("driver bug: {what}");
    std::process::exit(3)
}

/// Run code under test; a panic is an observation.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn opt(v: Option<&str>) -> J {
    match v {
        Some(x) => J::from(vec![x]),
        None => J::from(Vec::<String>::new()),
    }
}

/// A small deterministic generator (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

fn spin(mut done: impl FnMut() -> bool) {
    let mut k = 0u32;
    while !done() {
        k += 1;
        if k % 4096 == 0 {
            std::thread::yield_now();
        }
        std::hint::spin_loop();
    }
}

/// The same few calls at the same instant, over and over, each time on a new
/// object; only histories not seen before (at most `keep`) are kept. A history
/// is what `new` gave, then the calls and returns in order, then what `last` gave.
#[allow(clippy::too_many_arguments)]
pub fn hot_rounds<T: Send + Sync>(
    progs: &[Vec<J>],
    ms: u64,
    keep: usize,
    new: impl Fn() -> (T, Vec<J>),
    call: impl Fn(usize, &J) -> J,
    run: impl Fn(&T, usize, &J) -> J + Sync,
    last: impl Fn(&T) -> Vec<J>,
    mut sink: impl FnMut(&J),
) {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    let k = progs.len() as u64;
    let end = std::time::Instant::now() + std::time::Duration::from_millis(ms);
    let slot: Mutex<Option<Arc<T>>> = Mutex::new(None);
    let (round, ready, finished, over) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
    type Rec = (u64, u64, usize, usize, J);
    let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    let mut seen = std::collections::HashSet::new();
    std::thread::scope(|x| {
        for (i, prog) in progs.iter().enumerate() {
            let (slot, round, ready, finished, over, recs, run) = (&slot, &round, &ready, &finished, &over, &recs, &run);
            x.spawn(move || {
                for r in 1.. {
                    spin(|| round.load(SeqCst) == r || over.load(SeqCst));
                    if over.load(SeqCst) {
                        return;
                    }
                    let o = slot.lock().unwrap().clone().unwrap();
                    let mut mine = Vec::with_capacity(prog.len());
                    ready.fetch_add(1, SeqCst);
                    spin(|| ready.load(SeqCst) >= k * r);
                    for (j, c) in prog.iter().enumerate() {
                        let a = stamp();
                        let res = guard(|| run(&o, i + 1, c));
                        let b = stamp();
                        mine.push((a, b, i, j, res.unwrap_or_else(|p| serde_json::json!({"e":"panic","what":p}))));
                    }
                    drop(o);
                    recs.lock().unwrap().append(&mut mine);
                    finished.fetch_add(1, SeqCst);
                }
            });
        }
        for r in 1.. {
            if std::time::Instant::now() > end {
                break;
            }
            let (o, mut ev) = new();
            let o = Arc::new(o);
            *slot.lock().unwrap() = Some(o.clone());
            round.store(r, SeqCst);
            spin(|| finished.load(SeqCst) == k * r);
            let mut at: Vec<(u64, J)> = vec![];
            for (a, b, i, j, res) in recs.lock().unwrap().drain(..) {
                at.push((a, call(i + 1, &progs[i][j])));
                at.push((b, res));
            }
            at.sort_by_key(|e| e.0);
            ev.extend(at.into_iter().map(|e| e.1));
            ev.extend(last(&o));
            if seen.len() < keep && seen.insert(serde_json::to_string(&ev).unwrap()) {
                ev.iter().for_each(&mut sink);
            }
        }
        over.store(true, SeqCst);
    });
}
