#![cfg_attr(not(far), feature(alloc_error_hook))]
#![cfg_attr(far, allow(warnings))]
#![allow(dead_code)]
//! Deterministic simulation of systems built on oasis-cbor. See /verif/DESIGN.md.

extern crate alloc;

#[cfg(not(far))]
mod abort;
#[cfg(not(far))]
mod append;
#[cfg(not(far))]
mod bombs;
mod callback;
mod calls;
#[cfg(not(far))]
mod cluster;
mod ctx;
mod foreign;
mod forms;
mod hand;
#[cfg(not(far))]
mod index;
#[cfg(not(far))]
mod isolation;
#[cfg(far)]
#[path = "interpreted.rs"]
mod seam;
mod model;
#[cfg(not(far))]
mod node;
#[cfg(not(far))]
mod runner;
#[cfg(not(far))]
mod sched;
#[cfg(not(far))]
mod seam;
mod src;
mod ty;
mod types;
mod zoo;

/// Text of a panic payload.
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if e.is::<seam::Oom>() {
        return "allocation failure".into();
    }
    if e.is::<callback::CbPanic>() {
        return "callback panic".into();
    }
    if let Some(s) = e.downcast_ref::<&str>() {
        return s.to_string();
    }
    if let Some(s) = e.downcast_ref::<String>() {
        return s.clone();
    }
    "panic".into()
}

#[cfg(far)]
fn main() {
    foreign::serve();
}

#[cfg(not(far))]
fn main() {
    seam::install();
    std::process::exit(runner::main());
}
