//! C04 with 1 static metrics.
#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
#[path = "../iter.rs"]
mod iter;

#[metriken::metric(name = "s1")]
static S1: metriken::Counter = metriken::Counter::with_value(1000 + 1);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    iter::run(&a[1], &a[2], &[1000 + 1, ]);
}
