//! C04 with 3 static metrics.
#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
#[path = "../iter.rs"]
mod iter;

#[metriken::metric(name = "s1")]
static S1: metriken::Counter = metriken::Counter::with_value(1000 + 1);
#[metriken::metric(name = "s2")]
static S2: metriken::Counter = metriken::Counter::with_value(1000 + 2);
#[metriken::metric(name = "s3")]
static S3: metriken::Counter = metriken::Counter::with_value(1000 + 3);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    iter::run(&a[1], &a[2], &[1000 + 1, 1000 + 2, 1000 + 3, ]);
}
