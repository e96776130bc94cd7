//! C03: user code panicking inside a snapshot.
use metriken_exposition::SnapshotterBuilder;
use std::cell::Cell;

thread_local! {
    static FUSE: Cell<Option<fn(&str)>> = const { Cell::new(None) };
    static SEEN: Cell<u32> = const { Cell::new(0) };
}

/// `opened` is to be called once the snapshot has its view, i.e. in the first
/// callback; the armed callback then goes off.
pub fn run(wher: &str, arm: &dyn Fn(&str), opened: impl Fn(), fuse: fn(&str)) {
    // The first callback of a snapshot is its filter, so "opened" is logged
    // there. fn pointers cannot capture, hence the thread locals.
    thread_local!(static OPENED: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) });
    let o: &dyn Fn() = &opened;
    let o: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(o as *const (dyn Fn() + '_)) };
    OPENED.set(Some(o));
    FUSE.set(Some(fuse));
    SEEN.set(0);
    arm(match wher {
        "filter" => "filter",
        "snapvalue" => "value",
        "snapformat" => "format",
        _ => crate::common::driver_bug(wher),
    });
    let s = SnapshotterBuilder::new()
        .filter(|_| {
            if let Some(o) = OPENED.take() {
                unsafe { (*o)() };
            }
            SEEN.set(SEEN.get() + 1);
            if SEEN.get() >= 2 {
                (FUSE.get().unwrap())("filter");
            }
            true
        })
        .build();
    let _ = s.snapshot();
}
