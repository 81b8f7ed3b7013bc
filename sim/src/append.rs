//! World 3 (C10): many writers share one growing output buffer - a journal being assembled in
//! memory. Writes succeed, are refused (duplicate keys, too deep), are cut short by failing
//! allocations or an exhausted budget; whatever happens, the bytes already in the journal stay.

use std::panic::AssertUnwindSafe;

use oasis_cbor as cbor;

use crate::ctx::{hex, Ctx};
use crate::model::{self, canon, M};
use crate::node::Node;
use crate::seam::{measured, Faults, Oom, Usage};
use crate::src::{fnv, mix, Src};
use crate::zoo::{show, Hist};

/// A value the format may or may not be able to express.
fn gen(s: &mut Src) -> M {
    let mut b = *s.pick(&[6i64, 2, 14, 40]);
    let mut m = match s.below(6) {
        0 => {
            let n = *s.pick(&[3usize, 126, 127, 128, 64, 65, 140]);
            model::gen_chain(s, n)
        }
        _ => model::gen_m(s, 4, &mut b),
    };
    // Somewhere inside, a map with a repeated key.
    if s.chance(250) {
        let n = m.items();
        let mut at = s.usize(n);
        let k = model::gen_m(s, 3, &mut b);
        let (v, w) = (model::gen_m(s, 1, &mut b), model::gen_m(s, 1, &mut b));
        let k2 = model::relisted(s, &k);
        let mut xs = vec![(k, v), (k2, w)];
        for _ in 0..s.below(4) {
            let y = model::gen_m(s, 1, &mut b);
            let i = s.usize(xs.len() + 1);
            xs.insert(i, (y, M::U(0)));
        }
        if let Some(x) = model::node_mut(&mut m, &mut at) {
            *x = M::Map(xs);
        }
    }
    m
}

struct Journal {
    buf: Vec<u8>,
}

pub fn run(ctx: &mut Ctx) {
    let s = &mut ctx.src;
    let node = Node::boot(s.below(1 << 16), 4 << 20);
    // Bytes that were there before the first write: any bytes, any spare capacity.
    let plen = match s.below(5) {
        0 => 0,
        1 => 1 + s.usize(8),
        2 => s.usize(70),
        3 => 250 + s.usize(12),
        _ => s.usize(5000),
    };
    let fill = s.below(4);
    let mut start: Vec<u8> = (0..plen)
        .map(|i| match fill {
            0 => 0u8,
            1 => 0xff,
            2 => i as u8,
            _ => [0x80, 0xa1, 0x00, 0xf6, 0x9f, 0x5b][i % 6],
        })
        .collect();
    match s.below(3) {
        0 => start.shrink_to_fit(),
        1 => start.reserve_exact(s.usize(64)),
        _ => start.reserve(s.usize(4096)),
    }
    let mut model = start.clone();
    let mut journal = Some(Journal { buf: start });
    let nops = 2 + s.below(if ctx.thorough { 24 } else { 14 });
    for step in 0..nops {
        ctx.src.begin();
        if ctx.src.below(64) == 0 {
            ctx.src.end();
            continue;
        }
        op(ctx, &node, step, &mut journal, &mut model);
        ctx.src.end();
        if ctx.failed() {
            return;
        }
    }
}

fn op(ctx: &mut Ctx, node: &Node, step: u64, journal: &mut Option<Journal>, model: &mut Vec<u8>) {
    ctx.stats.sim_us += 1000;
    let s = &mut ctx.src;
    let m = gen(s);
    let hist = s.below(1 << 16);
    let limit: Option<Option<i8>> = match s.below(8) {
        0..=2 => None,
        3 => Some(Some(127)),
        4 => Some(Some(s.below(128) as i8)),
        5 => Some(Some(s.below(6) as i8)),
        6 => Some(None),
        _ => Some(Some(-(s.below(129) as i64) as i8)),
    };
    // Unlimited nesting is the caller's promise; promise something reasonable.
    let max = match limit {
        None => 127i64,
        Some(None) => 2000,
        Some(Some(n)) => n as i64,
    };
    let kind = s.weighted(&[4, 3, 2]);
    let faults = match kind {
        0 => Faults::default(),
        1 => Faults { fail_at: 1 + if s.chance(250) { s.below(40) } else { s.below(4) }, hard: true, ..Default::default() },
        _ => Faults { limit: 1 + s.below(4000) as i64, hard: true, ..Default::default() },
    };
    let want = if max < 0 { Err(model::EncErr::Nest) } else { canon(&m, max as usize) };
    let v = model::to_value(&crate::zoo::shuffle(&m, &mut Hist::new(hist)));
    let mut j = journal.take().unwrap();
    let r = node.run(move |_| {
        let buf = AssertUnwindSafe(&mut j.buf);
        let (r, u) = measured(faults, move || {
            let buf = buf;
            match limit {
                None => cbor::writer::write(v, buf.0),
                Some(n) => cbor::writer::write_nested(v, buf.0, n),
            }
        });
        let r = match r {
            Ok(r) => Ok(r),
            Err(e) => Err(if e.is::<Oom>() { "allocation failure".to_string() } else { crate::panic_text(&*e) }),
        };
        (j, r, u)
    });
    let (j, r, u): (Journal, _, Usage) = match r {
        Ok(x) => x,
        Err(p) => {
            ctx.violate(&["C10"], "harness-panic", || p);
            return;
        }
    };
    ctx.judged();
    let call = format!("t={step} write (limit {limit:?}, {faults:?}) behind {} bytes of {}", model.len(), show(&m));
    ctx.ev("write", mix(model.len() as u64, kind as u64), mix(fnv(&j.buf), matches!(r, Ok(Ok(()))) as u64), || {
        format!("{call}: {:?}, {} allocations, {} failed, buffer now {} bytes", r, u.events, u.failed, j.buf.len())
    });
    ctx.case(mix(model.len() as u64 % 64, u.failed), mix(fnv(&model::raw_bytes(&m)), max as u64));
    if u.failed > 0 {
        ctx.count(if kind == 1 { "fault.allocation-failed" } else { "fault.memory-exhausted" });
    }
    if j.buf.len() < model.len() || j.buf[..model.len()] != model[..] {
        let at = j.buf.iter().zip(model.iter()).position(|(a, b)| a != b).unwrap_or(j.buf.len());
        ctx.violate(&["C10"], "existing-bytes-changed", || {
            format!("{call}: {r:?}; byte {at} of the {} that were there changed; buffer now {} bytes", model.len(), j.buf.len())
        });
        return;
    }
    let suffix = &j.buf[model.len()..];
    match (&r, &want) {
        (Ok(Ok(())), Ok(w)) if suffix == &w[..] => {
            ctx.count("probe.appended");
        }
        (Ok(Ok(())), Ok(w)) => {
            ctx.violate(&["C10"], "appended-something-else", || format!("{call}: appended {}, expected {}", hex(suffix), hex(w)));
            return;
        }
        (Ok(Ok(())), Err(x)) => {
            ctx.violate(&["C10"], "refusal-missing", || format!("{call}: must be refused ({x:?}) but appended {}", hex(suffix)));
            return;
        }
        (Ok(Err(e)), Err(_)) => {
            ctx.count(&format!("fault.refused.{e:?}"));
        }
        (Ok(Err(e)), Ok(_)) => {
            ctx.violate(&["C10"], "refused", || format!("{call}: refused ({e:?}) an expressible value"));
            return;
        }
        (Err(p), _) => {
            if u.failed == 0 {
                ctx.violate(&["C10"], "panicked", || format!("{call}: panic: {p}"));
                return;
            }
        }
    }
    // After a failure the caller cuts off what was half written.
    let mut j = j;
    if matches!(r, Ok(Ok(()))) {
        model.extend_from_slice(&j.buf[model.len()..]);
    } else {
        if j.buf.len() > model.len() {
            ctx.count("probe.partial-output-discarded");
        }
        j.buf.truncate(model.len());
    }
    // A tight buffer has to grow within the next write.
    if ctx.src.chance(400) {
        j.buf.shrink_to_fit();
    }
    *journal = Some(j);
}
