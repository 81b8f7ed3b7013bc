//! World 5 (C08): one caller thread whose calls are cut short at every kind of point - the n-th
//! allocation fails, memory runs out, a user callback panics - interleaved with calls that are
//! left alone. A cut call must fail as such and give back what it held, and every later call must
//! come out as on a fresh thread.

use std::sync::Arc;

use crate::callback::{self, Act};
use crate::calls::{pool, Call, Out};
use crate::ctx::Ctx;
use crate::isolation::{against_model, alone, solo_here};
use crate::node::Node;
use crate::seam::{measured, Faults, Usage};
use crate::src::{fnv, mix};
use crate::zoo::show;

const STACK: usize = 4 << 20;

#[derive(Clone, Debug)]
struct Cut {
    call: usize,
    faults: Faults,
    panic_at: u64,
}

struct Done {
    out: Out,
    usage: Usage,
    panicked: bool,
    in_container: bool,
}

fn perform(node: &Node, pool: &Arc<Vec<Call>>, cut: &Cut) -> Result<Done, String> {
    let (pool, cut) = (pool.clone(), cut.clone());
    node.run(move |_| {
        let ready = pool[cut.call].prepare();
        let acts = if cut.panic_at > 0 { vec![(cut.panic_at, Act::Panic)] } else { vec![] };
        callback::arm(pool.clone(), acts);
        let (r, usage) = measured(cut.faults, || ready.go());
        let seen = callback::disarm();
        let out = r.unwrap_or_else(|e| Out::Panic(crate::panic_text(&*e)));
        Done { out, usage, panicked: seen.panicked, in_container: seen.in_container }
    })
}

pub fn run(ctx: &mut Ctx) {
    let reg = ctx.reg;
    let s = &mut ctx.src;
    let ncalls = 1 + s.usize(4);
    let cb = *s.pick(&[300u64, 0, 800]);
    let pool = Arc::new(pool(s, reg, ncalls, cb));
    if solo_here(&pool) {
        return;
    }
    let base_seed = ctx.src.below(1 << 16);
    let base: Vec<(Out, Usage, u64)> = (0..ncalls).map(|i| alone(&pool, i, base_seed + i as u64)).collect();
    for (i, (b, u, n)) in base.iter().enumerate() {
        ctx.ev("alone", mix(i as u64, u.events), fnv(format!("{b:?}").as_bytes()), || {
            format!("call {i}: {}: alone: {}; {} allocations, peak {} bytes, {n} callbacks", pool[i].text(), show(b), u.events, u.peak)
        });
    }
    let node = Node::boot(ctx.src.below(1 << 16), STACK);
    let rounds = 2 + ctx.src.below(if ctx.thorough { 24 } else { 12 });
    for round in 0..rounds {
        ctx.src.begin();
        let s = &mut ctx.src;
        let call = s.usize(ncalls);
        let (_, u, callbacks) = &base[call];
        let mut cuts = vec![];
        let plain = Cut { call, faults: Faults::default(), panic_at: 0 };
        match s.weighted(&[2, 6, 3, 3, 1]) {
            0 => cuts.push(plain),
            1 => {
                let mut c = plain;
                c.faults.fail_at = 1 + s.below(u.events.max(1));
                if s.chance(250) {
                    c.faults.fail_more = 1 + s.below(6);
                }
                cuts.push(c);
            }
            2 => {
                let mut c = plain;
                c.faults.limit = 1 + s.below(u.peak.max(1) as u64) as i64;
                cuts.push(c);
            }
            3 => {
                let mut c = plain;
                if *callbacks > 0 {
                    c.panic_at = 1 + s.below(*callbacks);
                } else {
                    c.faults.fail_at = 1 + s.below(u.events.max(1));
                }
                cuts.push(c);
            }
            _ => {
                // Every point of the call, one after the other.
                if u.events + callbacks <= 80 {
                    for k in 1..=u.events {
                        let mut c = plain.clone();
                        c.faults.fail_at = k;
                        cuts.push(c);
                    }
                    for k in 1..=*callbacks {
                        let mut c = plain.clone();
                        c.panic_at = k;
                        cuts.push(c);
                    }
                    ctx.stats.add("probe.every-point-swept", 1);
                }
            }
        }
        if cuts.len() == 1 && u.events + callbacks <= 200 && ctx.src.chance(60) {
            // The same failure over and over, for what only builds up.
            let n = 1 + if ctx.src.chance(700) { ctx.src.usize(70) } else { 250 + ctx.src.usize(350) };
            cuts = vec![cuts[0].clone(); n];
            ctx.stats.add("probe.same-cut-repeated", n as u64);
        }
        let follow = ctx.src.usize(ncalls + 1);
        for cut in cuts {
            step(ctx, &node, &pool, &base, round, &cut);
            if ctx.failed() {
                return;
            }
        }
        if follow > 0 {
            step(ctx, &node, &pool, &base, round, &Cut { call: follow - 1, faults: Faults::default(), panic_at: 0 });
        }
        ctx.src.end();
        if ctx.failed() {
            return;
        }
    }
    for i in 0..ncalls {
        step(ctx, &node, &pool, &base, rounds, &Cut { call: i, faults: Faults::default(), panic_at: 0 });
        if ctx.failed() {
            return;
        }
        let (o, _, _) = &base[i];
        let o = o.clone();
        against_model(ctx, &pool, i, &o, "process-state");
        if ctx.failed() {
            return;
        }
    }
}

fn step(ctx: &mut Ctx, node: &Node, pool: &Arc<Vec<Call>>, base: &[(Out, Usage, u64)], round: u64, cut: &Cut) {
    ctx.stats.sim_us += 100;
    ctx.judged();
    let d = match perform(node, pool, cut) {
        Ok(d) => d,
        Err(p) => {
            ctx.violate(&["C08"], "escaped", || format!("{}: {p}", pool[cut.call].text()));
            return;
        }
    };
    let cut_short = d.usage.failed > 0 || d.panicked;
    if d.usage.failed > 0 {
        ctx.count(if cut.faults.limit > 0 {
            "fault.memory-exhausted"
        } else if cut.faults.fail_more > 0 {
            "fault.allocations-failed-in-a-row"
        } else {
            "fault.allocation-failed"
        });
    }
    if d.panicked {
        ctx.count("fault.callback-panic");
    }
    let (want, _, _) = &base[cut.call];
    let text = || {
        format!(
            "round {round}: {} (fail allocation {}+{}, limit {}, panic at callback {}; {} failed)",
            pool[cut.call].text(),
            cut.faults.fail_at,
            cut.faults.fail_more,
            cut.faults.limit,
            cut.panic_at,
            d.usage.failed
        )
    };
    ctx.ev("call", mix(cut.call as u64, cut.faults.fail_at), fnv(format!("{:?}", d.out).as_bytes()), || format!("{} -> {}", text(), show(&d.out)));
    if cut_short {
        ctx.case(mix(fnv(format!("{want:?}").as_bytes()), cut.faults.fail_at), mix(cut.faults.limit as u64, cut.panic_at));
    }
    let same = d.out.same(want);
    if !same && !(cut_short && d.out.failed()) {
        let class = if cut_short { "wrong-result-after-failure" } else { "later-call-differs" };
        ctx.violate(&["C08"], class, || format!("{}: {}; alone on a fresh thread: {}", text(), show(&d.out), show(want)));
        return;
    }
    if d.out.failed() && !cut_short {
        ctx.count("probe.refused-by-itself");
    }
    if d.usage.left > 0 && !d.in_container && !d.usage.lossy {
        // Once may be a lazily set up table, a few times one that grows; every time is a leak.
        let mut left = vec![d.usage.left];
        while left.len() < 32 && left.last().map_or(false, |l| *l > 0) {
            match perform(node, pool, cut) {
                Ok(d) => left.push(d.usage.left),
                Err(_) => return,
            }
        }
        if left.iter().all(|l| *l > 0) {
            ctx.violate(&["C08"], "memory-kept", || format!("{} -> {}: bytes still held after it, time after time: {left:?}", text(), show(&d.out)));
        } else {
            ctx.count("probe.memory-kept-once");
        }
    }
}
