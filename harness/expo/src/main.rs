#[path = "../../core/src/common.rs"]
mod common;
#[path = "../../core/src/registry.rs"]
mod registry;
mod snapbomb;

fn main() {
    // Panics of the code under test are recorded, not printed.
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "registry" => registry::run(&a[2], &a[3]),
        x => common::driver_bug(x),
    }
}
