//! What the record types need of the seams, on a node that runs in the interpreter.

use std::cell::Cell;

pub struct Tl {
    pub count: Cell<bool>,
    pub shield: Cell<u32>,
    pub hash_seed: Cell<u64>,
    pub hash_draws: Cell<u64>,
}

thread_local! {
    pub static TL: Tl = const {
        Tl { count: Cell::new(false), shield: Cell::new(0), hash_seed: Cell::new(0), hash_draws: Cell::new(0) }
    };
}

pub struct Oom;

pub fn shielded<R>(f: impl FnOnce() -> R) -> R {
    f()
}

pub fn calm<R>(f: impl FnOnce() -> R) -> R {
    f()
}
