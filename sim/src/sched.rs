//! A deterministic scheduler for caller threads. Exactly one thread holds the baton; it passes on
//! only at preemption points: allocations inside library calls, user callbacks, blocking and
//! yielding, and - inside single-step windows driven by the processor's trap flag - after any
//! instruction of the library. Which thread runs next, and when, is a list of decisions drawn
//! from the run's choice stream before the threads start.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

use crate::seam::{raw_syscall, SYS_FUTEX, TL};
use crate::src::mix;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Point {
    Alloc,
    Yield,
    Callback,
    Call,
}

#[derive(Clone, Copy, Debug)]
pub struct Decision {
    /// Preemption points to let pass first.
    pub gap: u32,
    /// Instructions to let pass after that (0: switch at the point itself).
    pub step: u32,
    /// Which of the runnable threads.
    pub next: u32,
}

pub const MAX: usize = 8;
const CONTROLLER: u32 = 0xff;
const RUNNABLE: u8 = 0;
const BLOCKED: u8 = 1;
const DONE: u8 = 2;

struct Plan(UnsafeCell<Vec<Decision>>);
// Only the holder of the baton touches the plan.
unsafe impl Sync for Plan {}

struct Sched {
    epoch: AtomicU32,
    turn: AtomicU32,
    n: AtomicUsize,
    status: [AtomicU8; MAX],
    addr: [AtomicUsize; MAX],
    plan: Plan,
    at: AtomicUsize,
    gap: AtomicU32,
    deadlock: AtomicBool,
    points: AtomicU64,
    switches: AtomicU64,
    step_switches: AtomicU64,
    blocks: AtomicU64,
    hist: AtomicU64,
}

#[allow(clippy::declare_interior_mutable_const)]
const A8: AtomicU8 = AtomicU8::new(DONE);
#[allow(clippy::declare_interior_mutable_const)]
const AU: AtomicUsize = AtomicUsize::new(0);

static S: Sched = Sched {
    epoch: AtomicU32::new(0),
    turn: AtomicU32::new(CONTROLLER),
    n: AtomicUsize::new(0),
    status: [A8; MAX],
    addr: [AU; MAX],
    plan: Plan(UnsafeCell::new(Vec::new())),
    at: AtomicUsize::new(0),
    gap: AtomicU32::new(0),
    deadlock: AtomicBool::new(false),
    points: AtomicU64::new(0),
    switches: AtomicU64::new(0),
    step_switches: AtomicU64::new(0),
    blocks: AtomicU64::new(0),
    hist: AtomicU64::new(0),
};

fn turn_of(id: u32) -> u32 {
    S.epoch.load(SeqCst) << 8 | id
}

fn wake() {
    unsafe { raw_syscall(SYS_FUTEX, &S.turn as *const _ as i64, 1 | 128, i32::MAX as i64, 0, 0, 0) };
}

/// Blocks until `turn` is handed to this thread in this epoch.
fn wait_turn(mine: u32) {
    let mut spins = 0;
    loop {
        let t = S.turn.load(SeqCst);
        if t == mine {
            return;
        }
        spins += 1;
        if spins < 60 {
            std::hint::spin_loop();
            continue;
        }
        unsafe { raw_syscall(SYS_FUTEX, &S.turn as *const _ as i64, 128, t as i64, 0, 0, 0) };
    }
}

fn give(to: u32) {
    S.turn.store(turn_of(to), SeqCst);
    wake();
}

fn runnable(k: u32) -> Option<u32> {
    let n = S.n.load(SeqCst);
    let mut ids = [0u32; MAX];
    let mut c = 0;
    for i in 0..n {
        if S.status[i].load(SeqCst) == RUNNABLE {
            ids[c] = i as u32;
            c += 1;
        }
    }
    if c == 0 {
        None
    } else {
        Some(ids[k as usize % c])
    }
}

fn note(kind: u64, me: u32, to: u32) {
    S.hist.store(mix(S.hist.load(SeqCst), mix(kind, mix(S.points.load(SeqCst), (me as u64) << 8 | to as u64))), SeqCst);
}

fn switch(me: u32, to: u32, kind: u64) {
    if me == to {
        return;
    }
    note(kind, me, to);
    S.switches.fetch_add(1, SeqCst);
    let mine = turn_of(me);
    give(to);
    wait_turn(mine);
}

fn next_decision() -> Option<Decision> {
    let plan = unsafe { &*S.plan.0.get() };
    let at = S.at.fetch_add(1, SeqCst);
    plan.get(at).copied()
}

/// A point at which the running thread may lose the processor.
pub fn preempt(p: Point) {
    let _ = TL.try_with(|t| {
        if t.in_sched.get() || t.me.get() == u32::MAX || std::thread::panicking() {
            return;
        }
        t.in_sched.set(true);
        S.points.fetch_add(1, SeqCst);
        let me = t.me.get();
        let gap = S.gap.load(SeqCst);
        if p == Point::Yield {
            // Progress for whoever is being waited for.
            if let Some(to) = runnable(me + 1) {
                let to = if to == me { runnable(me + 2).unwrap_or(me) } else { to };
                switch(me, to, 3);
            }
        } else if gap > 1 {
            S.gap.store(gap - 1, SeqCst);
        } else if gap == 1 {
            // The pending decision is due.
            let plan = unsafe { &*S.plan.0.get() };
            let d = plan[S.at.load(SeqCst)];
            S.at.fetch_add(1, SeqCst);
            let following = plan.get(S.at.load(SeqCst)).map_or(0, |d| d.gap.max(1));
            S.gap.store(following, SeqCst);
            if d.step > 0 {
                t.step_left.set(d.step);
                t.step_next.set(d.next);
                set_trap_flag();
            } else if let Some(to) = runnable(d.next) {
                switch(me, to, 1);
            }
        }
        t.in_sched.set(false);
    });
}

/// Stands in for the futex system call of a thread that takes part in the schedule.
pub fn futex(addr: usize, op: i64, val: i64) -> i64 {
    TL.with(|t| {
        let me = t.me.get();
        t.in_sched.set(true);
        let r = match op {
            0 | 9 => {
                let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
                if cur != val as u32 {
                    -11
                } else {
                    S.blocks.fetch_add(1, SeqCst);
                    S.addr[me as usize].store(addr, SeqCst);
                    S.status[me as usize].store(BLOCKED, SeqCst);
                    let k = next_decision().map_or(0, |d| d.next);
                    match runnable(k) {
                        Some(to) => switch(me, to, 2),
                        None => stuck(),
                    }
                    0
                }
            }
            1 | 10 => {
                let mut woken = 0;
                for i in 0..S.n.load(SeqCst) {
                    if woken < val && S.status[i].load(SeqCst) == BLOCKED && S.addr[i].load(SeqCst) == addr {
                        S.status[i].store(RUNNABLE, SeqCst);
                        woken += 1;
                    }
                }
                woken
            }
            _ => -38,
        };
        t.in_sched.set(false);
        r
    })
}

/// Every thread that is not done is blocked: tell the controller; nobody here goes on.
fn stuck() -> ! {
    S.deadlock.store(true, SeqCst);
    give(CONTROLLER);
    loop {
        unsafe { raw_syscall(SYS_FUTEX, &S.epoch as *const _ as i64, 128, S.epoch.load(SeqCst) as i64, 0, 0, 0) };
    }
}

pub struct Report {
    pub deadlock: bool,
    pub points: u64,
    pub switches: u64,
    pub step_switches: u64,
    pub blocks: u64,
    pub hist: u64,
}

/// Run the bodies under the schedule. `None` results belong to threads that never finished.
pub fn run<R: Send + 'static>(plan: Vec<Decision>, first: u32, stack: usize, seeds: &[u64], bodies: Vec<Box<dyn FnOnce() -> R + Send>>) -> (Vec<Option<R>>, Report) {
    let n = bodies.len();
    assert!(n <= MAX);
    install_trap();
    S.epoch.fetch_add(1, SeqCst);
    S.n.store(n, SeqCst);
    for i in 0..n {
        S.status[i].store(RUNNABLE, SeqCst);
    }
    S.gap.store(plan.first().map_or(0, |d| d.gap.max(1)), SeqCst);
    S.at.store(0, SeqCst);
    unsafe { *S.plan.0.get() = plan };
    S.deadlock.store(false, SeqCst);
    for a in [&S.points, &S.switches, &S.step_switches, &S.blocks, &S.hist] {
        a.store(0, SeqCst);
    }
    S.turn.store(turn_of(CONTROLLER), SeqCst);
    let mut joins = vec![];
    for (i, body) in bodies.into_iter().enumerate() {
        let seed = seeds[i];
        let mine = turn_of(i as u32);
        let j = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                wait_turn(mine);
                TL.with(|t| {
                    t.hash_seed.set(seed);
                    t.hash_draws.set(0);
                    t.me.set(i as u32);
                });
                let r = body();
                TL.with(|t| {
                    t.sched.set(false);
                    t.step_left.set(0);
                    t.me.set(u32::MAX);
                });
                // Hand over for good.
                S.status[i].store(DONE, SeqCst);
                match runnable(i as u32) {
                    Some(to) => {
                        note(4, i as u32, to);
                        give(to);
                    }
                    None if (0..S.n.load(SeqCst)).all(|k| S.status[k].load(SeqCst) == DONE) => give(CONTROLLER),
                    None => {
                        S.deadlock.store(true, SeqCst);
                        give(CONTROLLER);
                    }
                }
                r
            })
            .expect("spawn caller");
        joins.push(j);
    }
    give(first % n as u32);
    wait_turn(turn_of(CONTROLLER));
    let deadlock = S.deadlock.load(SeqCst);
    let mut out = vec![];
    for (i, j) in joins.into_iter().enumerate() {
        if S.status[i].load(SeqCst) == DONE {
            out.push(j.join().ok());
        } else {
            // Stuck for good; left behind.
            std::mem::forget(j);
            out.push(None);
        }
    }
    let r = Report {
        deadlock,
        points: S.points.load(SeqCst),
        switches: S.switches.load(SeqCst),
        step_switches: S.step_switches.load(SeqCst),
        blocks: S.blocks.load(SeqCst),
        hist: S.hist.load(SeqCst),
    };
    (out, r)
}

/// Take part in the schedule (or stop to) between library calls.
pub fn enter() {
    TL.with(|t| t.sched.set(true));
    preempt(Point::Call);
}

pub fn leave() {
    TL.with(|t| {
        t.sched.set(false);
        t.step_left.set(0);
    });
}

// ---------------------------------------------------------------------------------------------
// Single-step windows.

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    static __executable_start: u8;
    static etext: u8;
}

const TF: i64 = 0x100;

#[inline(never)]
fn set_trap_flag() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}

/// General registers of an x86-64 `ucontext_t`.
const GREGS: usize = 40;
const RIP: usize = 16;
const EFL: usize = 17;

extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut u8) {
    let regs = unsafe { ctx.add(GREGS) as *mut i64 };
    let off = || unsafe { *regs.add(EFL) &= !TF };
    let r = TL.try_with(|t| {
        let left = t.step_left.get();
        if left == 0 || std::thread::panicking() || !t.sched.get() {
            t.step_left.set(0);
            off();
            return;
        }
        if t.in_sched.get() || t.shield.get() > 0 {
            return;
        }
        let rip = unsafe { *regs.add(RIP) } as usize;
        let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) };
        if rip < lo || rip >= hi {
            // The C library: its locks are not under the scheduler.
            return;
        }
        t.step_left.set(left - 1);
        if left == 1 {
            off();
            t.in_sched.set(true);
            S.points.fetch_add(1, SeqCst);
            if let Some(to) = runnable(t.step_next.get()) {
                if to != t.me.get() {
                    S.step_switches.fetch_add(1, SeqCst);
                }
                switch(t.me.get(), to, 5);
            }
            t.in_sched.set(false);
        }
    });
    if r.is_err() {
        off();
    }
}

fn install_trap() {
    static ONCE: AtomicBool = AtomicBool::new(false);
    if ONCE.swap(true, SeqCst) {
        return;
    }
    let a = SigAction { handler: on_trap as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
    unsafe { sigaction(5, &a, std::ptr::null_mut()) };
}
