//! C04 with 0 static metrics.
#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
#[path = "../iter.rs"]
mod iter;



fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    iter::run(&a[1], &a[2], &[]);
}
