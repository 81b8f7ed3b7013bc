//! World 4 (C07): several caller threads of one process make library calls under a simulated
//! schedule that switches at allocations, callbacks, blocking and inside single-step windows.
//! Before and around a call other calls succeed, fail, run out of memory or are unwound by a
//! panicking callback, and callbacks call the library again. Every outcome is compared with the
//! outcome of the same call made alone on a fresh thread, and - where that would be blind to
//! process-wide state - with the reference model and, on a difference, with a fresh process.

use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

use crate::callback::{self, Act};
use crate::calls::{pool, Call, Out};
use crate::ctx::Ctx;
use crate::node::Node;
use crate::sched::{self, Decision};
use crate::seam::{measured, Faults, Usage};
use crate::src::{fnv, mix, Src};
use crate::zoo::show;

const STACK: usize = 4 << 20;

#[derive(Clone, Debug)]
struct Op {
    call: usize,
    faults: Faults,
    acts: Vec<(u64, Act)>,
}

struct Done {
    out: Out,
    nested: Vec<(usize, Out)>,
    panicked: bool,
    usage: Usage,
}

fn gen_op(s: &mut Src, calls: usize) -> Op {
    let call = s.usize(calls);
    let mut op = Op { call, faults: Faults::default(), acts: vec![] };
    match s.weighted(&[6, 2, 1, 1, 3]) {
        0 => {}
        1 => op.faults.fail_at = 1 + s.below(10),
        2 => op.faults.limit = 8 << s.below(8),
        3 => op.acts.push((1 + s.below(8), Act::Panic)),
        _ => {
            for _ in 0..1 + s.below(3) {
                let at = 1 + s.below(10);
                let i = s.usize(calls);
                op.acts.push((at, if s.chance(120) { Act::Panic } else { Act::Nest(i) }));
            }
        }
    }
    op
}

fn perform(pool: &Arc<Vec<Call>>, op: &Op, sched: bool) -> Done {
    let ready = pool[op.call].prepare();
    callback::arm(pool.clone(), op.acts.clone());
    if sched {
        sched::enter();
    }
    let (r, usage) = measured(op.faults, || ready.go());
    if sched {
        sched::leave();
    }
    let seen = callback::disarm();
    let out = r.unwrap_or_else(|e| Out::Panic(crate::panic_text(&*e)));
    Done { out, nested: seen.nested, panicked: seen.panicked, usage }
}

/// The call alone, on a thread that has never made another.
pub fn alone(pool: &Arc<Vec<Call>>, i: usize, seed: u64) -> (Out, Usage, u64) {
    let pool = pool.clone();
    let node = Node::boot(seed, STACK);
    node.run(move |_| {
        let ready = pool[i].prepare();
        callback::arm(pool.clone(), vec![]);
        let (r, u) = measured(Faults::default(), || ready.go());
        let seen = callback::disarm();
        (r.unwrap_or_else(|e| Out::Panic(crate::panic_text(&*e))), u, seen.callbacks)
    })
    .unwrap_or_else(|p| (Out::Panic(p), Usage::default(), 0))
}

fn digest(o: &Out) -> u64 {
    fnv(format!("{o:?}").as_bytes())
}

static SOLO: AtomicU32 = AtomicU32::new(0);

/// In a fresh process that does nothing else: the outcome of call `i` of this run.
pub fn solo(ctx: &mut Ctx, i: usize) -> Option<u64> {
    if SOLO.fetch_add(1, SeqCst) >= 24 {
        return None;
    }
    let out = crate::runner::solo(ctx.prop, ctx.thorough, &ctx.src.data[..ctx.src.used()], i, Duration::from_secs(20))?;
    out.lines().find_map(|l| l.strip_prefix("SOLO ")).and_then(|x| x.trim().parse().ok())
}

/// Under `CBORSIM_SOLO` the process stops here.
pub fn solo_here(pool: &Arc<Vec<Call>>) -> bool {
    if let Some(i) = crate::runner::solo_index() {
        let (o, _, _) = alone(pool, i.min(pool.len() - 1), 7);
        println!("SOLO {}", digest(&o));
        return true;
    }
    false
}

/// Compare the outcomes of undisturbed calls with the reference model; where they differ ask a
/// fresh process what the call does when nothing else ever happened.
pub fn against_model(ctx: &mut Ctx, pool: &Arc<Vec<Call>>, i: usize, got: &Out, class: &str) {
    ctx.judged();
    let c = &pool[i];
    let ok = match c.expected() {
        Some(want) => want.same(got),
        None => !c.must_fail() || got.failed(),
    };
    if ok {
        return;
    }
    match solo(ctx, i) {
        Some(d) if d != digest(got) => {
            let prop = ctx.prop;
            ctx.violate(&[prop], class, || format!("{}: {} after other calls in this process, but something else in a fresh process", c.text(), show(got)));
        }
        _ => ctx.count("probe.differs-from-model-but-isolated"),
    }
}

pub fn run(ctx: &mut Ctx) {
    let reg = ctx.reg;
    let thorough = ctx.thorough;
    let s = &mut ctx.src;
    let ncalls = 2 + s.usize(6);
    let cb = *s.pick(&[350u64, 0, 700]);
    let pool = Arc::new(pool(s, reg, ncalls, cb));
    if solo_here(&pool) {
        return;
    }
    let s = &mut ctx.src;
    let early = s.below(2) == 1;
    let nthreads = 1 + s.weighted(&[3, 5, 2, 1]);
    let per = if thorough { 8 } else { 5 };
    let mut plans: Vec<Vec<Op>> = vec![];
    for _ in 0..nthreads {
        let n = 1 + s.usize(per);
        let mut ops = vec![];
        // Now and then one operation over and over, for what only builds up.
        let storm = nthreads == 1 && s.chance(60);
        for _ in 0..n {
            s.begin();
            let op = gen_op(s, ncalls);
            let times = if storm { 1 + s.below(70) } else { 1 };
            ops.extend((0..times).map(|_| op.clone()));
            s.end();
        }
        plans.push(ops);
    }
    let mut decisions = vec![];
    if nthreads > 1 {
        let n = s.below(14);
        let stepping = s.chance(120);
        let mut windows = 0;
        for _ in 0..n {
            s.begin();
            let gap = match s.below(3) {
                0 => 1 + s.below(4),
                1 => 1 + s.below(12),
                _ => 1 + s.below(60),
            } as u32;
            let next = s.below(4) as u32;
            let mut step = 0;
            if stepping && windows < 3 && s.chance(500) {
                windows += 1;
                step = match s.below(3) {
                    0 => 1 + s.below(24),
                    1 => 1 + s.below(120),
                    _ => 1 + s.below(400),
                } as u32;
            }
            decisions.push(Decision { gap, step, next });
            s.end();
        }
    }
    let first = s.below(nthreads as u64) as u32;
    let seeds: Vec<u64> = (0..nthreads).map(|_| s.below(1 << 16)).collect();
    let base_seed = s.below(1 << 16);

    let baseline = |pool: &Arc<Vec<Call>>| -> Vec<Out> { (0..ncalls).map(|i| alone(pool, i, base_seed + i as u64).0).collect() };
    let before = if early { Some(baseline(&pool)) } else { None };

    let (results, report) = if nthreads == 1 && seeds[0] % 4 != 0 {
        // One thread, no preemption: history and re-entrancy only.
        let (p, ops) = (pool.clone(), plans[0].clone());
        let node = Node::boot(seeds[0], STACK);
        let r = node.run(move |_| ops.iter().map(|o| perform(&p, o, false)).collect::<Vec<_>>());
        (vec![r.ok()], None)
    } else {
        let bodies = plans
            .iter()
            .cloned()
            .map(|ops| {
                let p = pool.clone();
                Box::new(move || ops.iter().map(|o| perform(&p, o, true)).collect::<Vec<_>>()) as Box<dyn FnOnce() -> Vec<Done> + Send>
            })
            .collect();
        let (r, rep) = sched::run(decisions.clone(), first, STACK, &seeds, bodies);
        (r, Some(rep))
    };
    if let Some(rep) = &report {
        ctx.ev("schedule", rep.hist, rep.points, || {
            format!(
                "{nthreads} threads: {} points, {} switches ({} between instructions), {} blocked; decisions {decisions:?}",
                rep.points, rep.switches, rep.step_switches, rep.blocks
            )
        });
        ctx.stats.add("fault.preemption", rep.switches);
        ctx.stats.add("fault.preemption-between-instructions", rep.step_switches);
        ctx.stats.add("probe.blocked-on-a-lock", rep.blocks);
        ctx.stats.sim_us += rep.points;
        ctx.case(7, rep.hist);
        if rep.deadlock {
            ctx.violate(&["C07"], "deadlock", || {
                let ops: Vec<String> = plans.iter().flatten().map(|o| pool[o.call].text()).collect();
                format!("{nthreads} threads block each other for ever: {}", ops.join(" | "))
            });
            return;
        }
    }
    let base = before.unwrap_or_else(|| baseline(&pool));
    for (i, b) in base.iter().enumerate() {
        ctx.ev("alone", i as u64, digest(b), || format!("call {i}: {}: alone on a fresh thread: {}", pool[i].text(), show(b)));
    }
    for (t, res) in results.iter().enumerate() {
        let res = match res {
            Some(r) => r,
            None => {
                ctx.violate(&["C07"], "thread-died", || format!("caller thread {t} ended early"));
                return;
            }
        };
        for (k, d) in res.iter().enumerate() {
            let op = &plans[t][k];
            let call = &pool[op.call];
            ctx.judged();
            ctx.stats.sim_us += 100;
            let disturbed = d.usage.failed > 0 || d.panicked;
            if d.usage.failed > 0 {
                ctx.count("fault.allocation-failed");
            }
            if d.panicked {
                ctx.count("fault.callback-panic");
            }
            ctx.ev("call", mix(t as u64, k as u64), digest(&d.out), || {
                format!("thread {t} op {k}: call {} ({:?} {:?}) -> {}; {} nested", op.call, op.faults, op.acts, show(&d.out), d.nested.len())
            });
            ctx.case(mix(op.call as u64, digest(&d.out)), mix(k as u64, report.as_ref().map_or(0, |r| r.hist)));
            let same = d.out.same(&base[op.call]);
            if !(same || disturbed && d.out.failed()) {
                ctx.violate(&["C07"], "result-differs", || {
                    format!("thread {t} op {k}: {}: {}; alone on a fresh thread: {}", call.text(), show(&d.out), show(&base[op.call]))
                });
                return;
            }
            for (i, out) in &d.nested {
                ctx.judged();
                ctx.count("fault.reentrant-call");
                if !(out.same(&base[*i]) || disturbed && out.failed()) {
                    ctx.violate(&["C07"], "nested-result-differs", || {
                        format!("from inside {}: {}: {}; alone: {}", call.text(), pool[*i].text(), show(out), show(&base[*i]))
                    });
                    return;
                }
            }
        }
    }
    for (i, b) in base.iter().enumerate() {
        against_model(ctx, &pool, i, b, "process-state");
        if ctx.failed() {
            return;
        }
    }
}
