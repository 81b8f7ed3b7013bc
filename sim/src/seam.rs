//! The seams: everything the library takes from its environment without asking the caller.
//!
//! * memory       - a global allocator that accounts, bounds, fails and preempts per thread;
//! * hash seeds   - `getrandom`, from which std seeds its hash tables, is interposed;
//! * blocking     - `syscall(SYS_futex)` and `sched_yield`, on which std locks block, are interposed;
//! * panics       - reported through a hook that stays silent during a simulated run.
//!
//! The library itself is unmodified: no hook is needed inside /repo.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tl {
    /// Accounting on for this thread.
    pub count: Cell<bool>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    /// Allocation events (alloc and growing realloc) so far.
    pub events: Cell<u64>,
    /// Fail the event with this number (0: never).
    pub fail_at: Cell<u64>,
    /// Number of further consecutive failures after the first.
    pub fail_more: Cell<u64>,
    /// Fail every event that would push `live` beyond this (0: unlimited).
    pub limit: Cell<i64>,
    /// Fail it whoever asks: exceeding the limit is itself what is being looked for.
    pub hard: Cell<bool>,
    /// Accounting goes on, but nothing fails: the caller's own code.
    pub calm: Cell<u32>,
    /// A failure was delivered where std itself loses memory when unwound.
    pub lossy: Cell<bool>,
    /// Failures delivered.
    pub failed: Cell<u64>,
    /// Inside harness code: neither account nor preempt.
    pub shield: Cell<u32>,
    /// Preemption points active: the thread takes part in a simulated schedule.
    pub sched: Cell<bool>,
    /// Inside the scheduler itself.
    pub in_sched: Cell<bool>,
    /// Number of this thread in the schedule.
    pub me: Cell<u32>,
    /// Instructions left in a single-step window, and who runs after it.
    pub step_left: Cell<u32>,
    pub step_next: Cell<u32>,
    /// Seed handed out by `getrandom`.
    pub hash_seed: Cell<u64>,
    pub hash_draws: Cell<u64>,
}

thread_local! {
    pub static TL: Tl = const {
        Tl {
            count: Cell::new(false),
            live: Cell::new(0),
            peak: Cell::new(0),
            events: Cell::new(0),
            fail_at: Cell::new(0),
            fail_more: Cell::new(0),
            limit: Cell::new(0),
            hard: Cell::new(false),
            calm: Cell::new(0),
            lossy: Cell::new(false),
            failed: Cell::new(0),
            shield: Cell::new(0),
            sched: Cell::new(false),
            in_sched: Cell::new(false),
            me: Cell::new(u32::MAX),
            step_left: Cell::new(0),
            step_next: Cell::new(0),
            hash_seed: Cell::new(0),
            hash_draws: Cell::new(0),
        }
    };
}

/// Harness code inside a simulated thread.
pub fn shielded<R>(f: impl FnOnce() -> R) -> R {
    struct Un;
    impl Drop for Un {
        fn drop(&mut self) {
            TL.with(|t| t.shield.set(t.shield.get() - 1));
        }
    }
    TL.with(|t| t.shield.set(t.shield.get() + 1));
    let _un = Un;
    f()
}

/// The caller's own code within a measured call: counted, but no faults.
pub fn calm<R>(f: impl FnOnce() -> R) -> R {
    struct Un;
    impl Drop for Un {
        fn drop(&mut self) {
            TL.with(|t| t.calm.set(t.calm.get() - 1));
        }
    }
    TL.with(|t| t.calm.set(t.calm.get() + 1));
    let _un = Un;
    f()
}

// ---------------------------------------------------------------------------------------------
// Which allocations may fail. An injected failure unwinds out of the allocation, which vectors,
// strings and everything built on them survive; std's B-trees and hash tables do not (they leave
// half-moved nodes behind), and that is not the library's doing. So a failure is delivered only
// where the request comes from a vector, recognised by its call stack.

static RAW_VEC: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
/// Building a B-tree in bulk loses the half-built tree when a comparison unwinds.
static LOSSY: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();

extern "C" {
    static __executable_start: u8;
    fn _Unwind_Backtrace(cb: extern "C" fn(*mut u8, *mut Walk) -> i32, arg: *mut Walk) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
}

struct Walk {
    left: u32,
    hit: bool,
    lossy: bool,
}

fn within(set: &std::sync::OnceLock<Vec<(usize, usize)>>, ip: usize) -> bool {
    set.get().map_or(false, |v| {
        let i = v.partition_point(|(a, _)| *a < ip);
        i > 0 && ip <= v[i - 1].1
    })
}

extern "C" fn frame(ctx: *mut u8, w: *mut Walk) -> i32 {
    let w = unsafe { &mut *w };
    let ip = unsafe { _Unwind_GetIP(ctx) };
    if w.hit {
        w.lossy |= within(&LOSSY, ip);
    } else if within(&RAW_VEC, ip) {
        w.hit = true;
        w.left = 48;
    }
    w.left -= 1;
    if w.left == 0 || w.lossy {
        5
    } else {
        0
    }
}

/// (asked for by a vector, from within a bulk build)
fn requester() -> (bool, bool) {
    let mut w = Walk { left: 12, hit: false, lossy: false };
    unsafe { _Unwind_Backtrace(frame, &mut w) };
    (w.hit, w.lossy)
}

/// Address ranges of the functions whose mangled names contain one of these, from the symbol table.
fn functions(names: &[&str]) -> Option<Vec<(usize, usize)>> {
    let f = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| Some(u16::from_le_bytes(f.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32_ = |o: usize| Some(u32::from_le_bytes(f.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64_ = |o: usize| Some(u64::from_le_bytes(f.get(o..o + 8)?.try_into().ok()?) as usize);
    let (shoff, shentsize, shnum) = (u64_(0x28)?, u16_(0x3a)?, u16_(0x3c)?);
    let base = unsafe { &__executable_start as *const u8 as usize };
    let mut out = vec![];
    for i in 0..shnum {
        let sh = shoff + i * shentsize;
        if u32_(sh + 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u64_(sh + 0x18)?, u64_(sh + 0x20)?, u32_(sh + 0x28)?);
        let stroff = u64_(shoff + link * shentsize + 0x18)?;
        for s in (off..off + size).step_by(24) {
            let name = stroff + u32_(s)?;
            let end = name + f.get(name..)?.iter().position(|b| *b == 0)?;
            if f[s + 4] & 15 == 2 && names.iter().any(|n| f[name..end].windows(n.len()).any(|w| w == n.as_bytes())) {
                let a = base + u64_(s + 8)?;
                out.push((a, a + u64_(s + 16)?));
            }
        }
    }
    out.sort();
    out.dedup();
    Some(out)
}

pub struct SimAlloc;

#[inline]
fn on_grow(size: usize, old: usize) -> bool {
    TL.try_with(|t| {
        if !t.count.get() || t.shield.get() > 0 {
            return true;
        }
        if t.sched.get() {
            crate::sched::preempt(crate::sched::Point::Alloc);
        }
        let ev = t.events.get() + 1;
        t.events.set(ev);
        let grow = size as i64 - old as i64;
        if t.calm.get() == 0 && !std::thread::panicking() {
            let (at, lim) = (t.fail_at.get(), t.limit.get());
            let due = at != 0 && ev >= at && t.failed.get() <= t.fail_more.get();
            let over = lim != 0 && t.live.get() + grow > lim;
            if due || over {
                t.shield.set(t.shield.get() + 1);
                let (vec, lossy) = if t.hard.get() { (true, false) } else { requester() };
                if vec && lossy {
                    t.lossy.set(true);
                }
                t.shield.set(t.shield.get() - 1);
                if vec {
                    t.failed.set(t.failed.get() + 1);
                    return false;
                }
            }
        }
        let l = t.live.get() + grow;
        t.live.set(l);
        if l > t.peak.get() {
            t.peak.set(l);
        }
        true
    })
    .unwrap_or(true)
}

#[inline]
fn on_free(size: usize) {
    let _ = TL.try_with(|t| {
        if t.count.get() && t.shield.get() == 0 {
            t.live.set(t.live.get() - size as i64);
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_grow(l.size(), 0) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_grow(l.size(), 0) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            if !on_grow(new, l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            on_free(l.size() - new);
        }
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Payload of the unwinding that an injected allocation failure turns into.
pub struct Oom;

/// std seeds its hash tables with this.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = TL
        .try_with(|t| {
            let d = t.hash_draws.get();
            t.hash_draws.set(d + 1);
            crate::src::Rng::new(t.hash_seed.get().wrapping_mul(0x1000).wrapping_add(d))
        })
        .unwrap_or_else(|_| crate::src::Rng::new(1));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

pub const SYS_FUTEX: i64 = 202;

/// std's locks, condition variables and parking block through this.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = if n == SYS_FUTEX && in_sim() {
        crate::sched::futex(a as usize, b & 0x7f, c)
    } else {
        raw_syscall(n, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        crate::sched::preempt(crate::sched::Point::Yield);
    } else {
        unsafe { raw_syscall(24, 0, 0, 0, 0, 0, 0) };
    }
    0
}

pub fn in_sim() -> bool {
    TL.try_with(|t| t.sched.get() && t.shield.get() == 0).unwrap_or(false)
}

pub fn install() {
    let _ = LOSSY.set(functions(&["bulk_push", "dedup_sorted_iter"]).unwrap_or_default());
    let v = functions(&["7raw_vec"]).unwrap_or_default();
    assert!(!v.is_empty(), "no symbols: memory faults cannot be aimed");
    let _ = RAW_VEC.set(v);
    std::alloc::set_alloc_error_hook(|_| {
        if !std::thread::panicking() {
            std::panic::panic_any(Oom)
        }
    });
    if std::env::var_os("CBORSIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// What one measured call did with memory.
#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub events: u64,
    pub peak: i64,
    pub left: i64,
    pub failed: u64,
    pub lossy: bool,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Faults {
    pub fail_at: u64,
    pub fail_more: u64,
    pub limit: i64,
    pub hard: bool,
}

/// Run `f` with accounting (and memory faults) on this thread.
pub fn measured<R>(faults: Faults, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Usage) {
    TL.with(|t| {
        t.live.set(0);
        t.peak.set(0);
        t.events.set(0);
        t.failed.set(0);
        t.lossy.set(false);
        t.fail_at.set(faults.fail_at);
        t.fail_more.set(faults.fail_more);
        t.limit.set(faults.limit);
        t.hard.set(faults.hard);
        t.count.set(true);
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let u = TL.with(|t| {
        t.count.set(false);
        t.fail_at.set(0);
        t.limit.set(0);
        Usage { events: t.events.get(), peak: t.peak.get(), left: t.live.get(), failed: t.failed.get(), lossy: t.lossy.get() }
    });
    (r, u)
}
