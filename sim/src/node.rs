//! A node of the simulated cluster: one OS thread per incarnation, so that thread-local state and
//! hash seeds die with a crash, driven synchronously (exactly one thread runs at any time).

use std::any::Any;
use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};

use crate::seam::TL;
use crate::zoo::Held;

/// Volatile memory of a node.
#[derive(Default)]
pub struct Mem {
    pub held: BTreeMap<u64, (usize, Box<dyn Held>)>,
    pub index: crate::index::Index,
}

type Job = Box<dyn FnOnce(&mut Mem) -> Box<dyn Any + Send> + Send>;

pub struct Node {
    tx: Option<Sender<Job>>,
    rx: Receiver<Result<Box<dyn Any + Send>, String>>,
    join: Option<std::thread::JoinHandle<()>>,
}

impl Node {
    pub fn boot(seed: u64, stack: usize) -> Node {
        let (tx, jobs) = channel::<Job>();
        let (out, rx) = channel();
        let join = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                TL.with(|t| {
                    t.hash_seed.set(seed);
                    t.hash_draws.set(0);
                });
                let mut mem = Mem::default();
                while let Ok(job) = jobs.recv() {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(&mut mem)));
                    let r = r.map_err(|e| crate::panic_text(&*e));
                    if out.send(r).is_err() {
                        break;
                    }
                }
            })
            .expect("spawn node");
        Node { tx: Some(tx), rx, join: Some(join) }
    }

    /// Run on the node. `Err` carries the text of a panic.
    pub fn run<R: Send + 'static>(&self, f: impl FnOnce(&mut Mem) -> R + Send + 'static) -> Result<R, String> {
        let job: Job = Box::new(move |m| Box::new(f(m)));
        self.tx.as_ref().unwrap().send(job).expect("node gone");
        match self.rx.recv().expect("node died") {
            Ok(b) => Ok(*b.downcast::<R>().expect("reply type")),
            Err(e) => Err(e),
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(j) = self.join.take() {
            let _ = j.join();
        }
    }
}
