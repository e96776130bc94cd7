mod cell;
mod common;
mod hist;
mod registry;

fn main() {
    // Panics of the code under test are recorded, not printed.
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "cell" => cell::run(&a[2], &a[3]),
        "ahist" => hist::run(true, &a[2], &a[3]),
        "rhist" => hist::run(false, &a[2], &a[3]),
        "registry" => registry::run(&a[2], &a[3]),
        x => common::driver_bug(x),
    }
}
