//! World 5 (C13): replicas that index records by generic values. Updates arrive late, twice, out of
//! order or not at all; replicas crash and rebuild their ordered containers from a log in whatever
//! order it holds; indexes are merged, split, sorted and searched. All of it leans on the order of
//! generic values: wherever two replicas hold the same records, their indexes must agree with each
//! other and with the bytewise order of the canonical encodings.

use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::ops::Bound;
use std::sync::Arc;

use oasis_cbor as cbor;
use oasis_cbor::Value;

use crate::ctx::{hex, Ctx};
use crate::model::{self, raw_bytes, M};
use crate::node::Node;
use crate::src::{fnv, mix, Src};
use crate::zoo::{shuffle, Hist};

type Key = Vec<u8>;

#[derive(Clone, Debug)]
struct Update {
    key: Arc<Key>,
    ver: u64,
    /// Empty for a removal.
    data: Option<u64>,
}

/// Real containers of a replica.
#[derive(Default)]
pub struct Index {
    map: BTreeMap<Value, (u64, Option<u64>)>,
    run: Vec<Value>,
}

struct Replica {
    node: Option<Node>,
    /// Reference state.
    model: BTreeMap<Key, (u64, Option<u64>)>,
    log: Vec<(Update, bool)>,
}

enum Ev {
    Op,
    Deliver(usize, Update),
    Sync(usize),
    Crash(usize),
    Restart(usize),
    Look,
    Merge,
    Sort,
    Laws,
}

fn value(b: &[u8]) -> Value {
    cbor::reader::read(b).unwrap_or_else(|e| panic!("canonical item unreadable: {e:?}"))
}

fn bytes(v: &Value) -> Option<Key> {
    model::of_value(v).map(|m| raw_bytes(&m))
}

/// Items that lie close together, in canonical form.
fn pool(s: &mut Src) -> Vec<M> {
    let n = 3 + s.usize(8);
    let mut out: Vec<M> = vec![];
    while out.len() < n {
        let m = if !out.is_empty() && s.chance(650) {
            let i = s.usize(out.len());
            let m = out[i].clone();
            // A relative somewhere inside, or of the whole.
            if s.chance(500) {
                let mut m = m;
                let mut at = s.usize(m.items());
                if let Some(x) = model::node_mut(&mut m, &mut at) {
                    *x = model::tweak(s, x);
                }
                m
            } else {
                model::tweak(s, &m)
            }
        } else {
            let mut b = *s.pick(&[3i64, 1, 6, 12]);
            model::gen_m(s, 3, &mut b)
        };
        let m = match s.below(6) {
            0 => M::A(vec![m]),
            1 => M::Map(vec![(m, M::U(s.below(2)))]),
            2 => M::Map(vec![(M::U(s.below(3)), m)]),
            3 => M::Tag(s.below(3), Box::new(m)),
            _ => m,
        };
        if m.depth() > 40 || m.has_dup() || raw_bytes(&m).len() > 3000 {
            out.push(M::U(out.len() as u64));
            continue;
        }
        out.push(m.sorted());
    }
    out
}

struct World<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    pool: Vec<M>,
    reps: Vec<Replica>,
    all: Vec<Update>,
    now: u64,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    events: BTreeMap<u64, Ev>,
    next: u64,
    inc: u64,
    drop: u64,
    dup: u64,
    jitter: u64,
}

pub fn run(ctx: &mut Ctx) {
    let pool = pool(&mut ctx.src);
    let s = &mut ctx.src;
    let (drop, dup, jitter) = (s.below(2) * 150, s.below(2) * 200, s.below(2) * 600);
    let n = 2 + s.usize(3);
    let mut w =
        World { ctx, pool, reps: vec![], all: vec![], now: 0, queue: BinaryHeap::new(), events: BTreeMap::new(), next: 0, inc: 0, drop, dup, jitter };
    for _ in 0..n {
        let node = w.boot();
        w.reps.push(Replica { node: Some(node), model: BTreeMap::new(), log: vec![] });
    }
    w.main();
    let us = w.now;
    ctx.stats.sim_us += us;
}

impl<'a, 'b> World<'a, 'b> {
    fn boot(&mut self) -> Node {
        self.inc += 1;
        Node::boot(self.inc, 4 << 20)
    }

    fn push(&mut self, at: u64, ev: Ev) {
        self.next += 1;
        self.queue.push(Reverse((at.max(self.now), self.next)));
        self.events.insert(self.next, ev);
    }

    fn main(&mut self) {
        let ops = 4 + self.ctx.src.usize(if self.ctx.thorough { 40 } else { 18 });
        let span = ops as u64 * 300;
        for i in 0..ops {
            self.push(i as u64 * 300, Ev::Op);
        }
        for _ in 0..self.ctx.src.below(4) {
            let (t, r) = (self.ctx.src.below(span), self.ctx.src.usize(self.reps.len()));
            self.push(t, Ev::Crash(r));
        }
        for _ in 0..1 + self.ctx.src.below(5) {
            let t = self.ctx.src.below(span);
            self.push(t, Ev::Look);
        }
        for _ in 0..self.ctx.src.below(3) {
            let t = self.ctx.src.below(span);
            self.push(t, Ev::Merge);
        }
        for _ in 0..self.ctx.src.below(3) {
            let t = self.ctx.src.below(span);
            self.push(t, Ev::Sort);
        }
        for _ in 0..1 + self.ctx.src.below(4) {
            let t = self.ctx.src.below(span);
            self.push(t, Ev::Laws);
        }
        while let Some(Reverse((t, n))) = self.queue.pop() {
            self.now = t;
            let ev = self.events.remove(&n).unwrap();
            self.ctx.src.begin();
            match ev {
                Ev::Op => self.op(),
                Ev::Deliver(r, u) => self.apply(r, u, true),
                Ev::Sync(r) => self.reps[r].log.iter_mut().for_each(|x| x.1 = true),
                Ev::Crash(r) => self.crash(r),
                Ev::Restart(r) => self.restart(r),
                Ev::Look => self.look(),
                Ev::Merge => self.merge(),
                Ev::Sort => self.sort(),
                Ev::Laws => self.laws(),
            }
            self.ctx.src.end();
            if self.ctx.failed() {
                return;
            }
        }
        // The network is healed and everything is sent again, in an order of its own.
        for r in 0..self.reps.len() {
            if self.reps[r].node.is_none() {
                self.restart(r);
            }
            let mut all = self.all.clone();
            while !all.is_empty() && !self.ctx.failed() {
                let i = self.ctx.src.usize(all.len());
                let u = all.swap_remove(i);
                self.apply(r, u, true);
            }
        }
        for r in 1..self.reps.len() {
            if self.reps[r].model != self.reps[0].model {
                self.ctx.violate(&["C13"], "harness-models-differ", || format!("replica {r}"));
            }
        }
        for r in 0..self.reps.len() {
            if self.ctx.failed() {
                return;
            }
            self.scan(r);
        }
    }

    fn op(&mut self) {
        let s = &mut self.ctx.src;
        let m = s.pick(&self.pool).clone();
        let data = if s.chance(200) { None } else { Some(s.below(1000)) };
        let u = Update { key: Arc::new(raw_bytes(&m)), ver: self.all.len() as u64 + 1, data };
        self.all.push(u.clone());
        for r in 0..self.reps.len() {
            let s = &mut self.ctx.src;
            if s.chance(self.drop) {
                self.ctx.count("fault.message-dropped");
                continue;
            }
            let mut delay = s.below(50);
            if s.chance(self.jitter) {
                delay += s.below(3000);
                self.ctx.count("fault.message-delayed");
            }
            let again = self.ctx.src.chance(self.dup);
            self.push(self.now + delay, Ev::Deliver(r, u.clone()));
            if again {
                self.ctx.count("fault.message-duplicated");
                let d = self.ctx.src.below(4000);
                self.push(self.now + d, Ev::Deliver(r, u.clone()));
            }
        }
    }

    fn fail(&mut self, class: &str, text: String) {
        let now = self.now;
        self.ctx.violate(&["C13"], class, || format!("t={now} {text}"));
    }

    fn apply(&mut self, r: usize, u: Update, log: bool) {
        let Some(node) = &self.reps[r].node else {
            self.ctx.count("probe.delivered-to-dead-replica");
            return;
        };
        let (k, ver, data) = (u.key.clone(), u.ver, u.data);
        let got = node.run(move |mem| {
            let ix = &mut mem.index;
            let v = value(&k);
            let before = ix.map.get(&v).copied();
            let listed = ix.run.binary_search(&v).is_ok();
            if before.map_or(true, |b| b.0 < ver) {
                ix.map.insert(v.clone(), (ver, data));
            }
            let at = ix.run.binary_search(&v);
            if let Err(at) = at {
                ix.run.insert(at, v.clone());
            }
            (before, listed, ix.map.get(&v).copied(), ix.map.len())
        });
        let now = self.now;
        self.ctx.judged();
        self.ctx.ev("apply", mix(r as u64, u.ver), fnv(&u.key), || format!("t={now} replica {r} applies {:?} {} := {:?}", u.ver, hex(&u.key), u.data));
        self.ctx.case(mix(7, self.reps[r].model.len() as u64), mix(fnv(&u.key), self.reps[r].model.keys().fold(0, |h, k| mix(h, fnv(k)))));
        let (before, listed, after, len) = match got {
            Ok(x) => x,
            Err(p) => return self.fail("panicked", format!("replica {r}: update of {} panicked: {p}", hex(&u.key))),
        };
        let model = &mut self.reps[r].model;
        let want = model.get(&*u.key).copied();
        if want.map_or(true, |b| b.0 < ver) {
            model.insert((*u.key).clone(), (ver, data));
        }
        let (want_after, want_len) = (model.get(&*u.key).copied(), model.len());
        if before != want || listed != want.is_some() {
            return self.fail(
                "lookup-differs",
                format!("replica {r}: looking up {} found {before:?} (in the sorted run: {listed}), stored was {want:?}", hex(&u.key)),
            );
        }
        if after != want_after || len != want_len {
            return self.fail(
                "entry-lost",
                format!("replica {r}: after storing {} it reads {after:?} among {len} entries, expected {want_after:?} among {want_len}", hex(&u.key)),
            );
        }
        if log {
            self.reps[r].log.push((u, false));
            let d = self.ctx.src.below(800);
            self.push(self.now + d, Ev::Sync(r));
        }
    }

    fn crash(&mut self, r: usize) {
        if self.reps[r].node.is_none() {
            return;
        }
        self.ctx.count("fault.crash");
        let now = self.now;
        self.ctx.ev("crash", r as u64, 0, || format!("t={now} replica {r} crashes"));
        let rep = &mut self.reps[r];
        rep.node = None;
        rep.model.clear();
        let n = rep.log.len();
        rep.log.retain(|x| x.1);
        let lost = n - rep.log.len();
        self.ctx.stats.add("fault.unsynced-update-lost", lost as u64);
        let d = self.ctx.src.below(1200);
        self.push(now + d, Ev::Restart(r));
    }

    fn restart(&mut self, r: usize) {
        if self.reps[r].node.is_some() {
            return;
        }
        let node = self.boot();
        self.reps[r].node = Some(node);
        self.ctx.count("probe.restart");
        // Segments of the log are replayed in any order.
        let mut log: Vec<Update> = self.reps[r].log.iter().map(|x| x.0.clone()).collect();
        match self.ctx.src.below(3) {
            0 => {}
            1 => log.reverse(),
            _ if !log.is_empty() => {
                let k = self.ctx.src.usize(log.len());
                log.rotate_left(k);
            }
            _ => {}
        }
        for u in log {
            self.apply(r, u, false);
            if self.ctx.failed() {
                return;
            }
        }
    }

    /// The whole index in order.
    fn scan(&mut self, r: usize) {
        let Some(node) = &self.reps[r].node else { return };
        let got = node.run(|mem| {
            let ix = &mem.index;
            let run: Vec<Option<Key>> = ix.run.iter().map(bytes).collect();
            let map: Vec<(Option<Key>, (u64, Option<u64>))> = ix.map.iter().map(|(k, v)| (bytes(k), *v)).collect();
            let ends = (ix.map.first_key_value().and_then(|x| bytes(x.0)), ix.map.last_key_value().and_then(|x| bytes(x.0)));
            (run, map, ends)
        });
        let now = self.now;
        self.ctx.judged();
        self.ctx.ev("scan", r as u64, self.reps[r].model.len() as u64, || format!("t={now} replica {r} scans its index"));
        let (run, map, ends) = match got {
            Ok(x) => x,
            Err(p) => return self.fail("panicked", format!("scan panicked: {p}")),
        };
        let want: Vec<(Option<Key>, (u64, Option<u64>))> = self.reps[r].model.iter().map(|(k, v)| (Some(k.clone()), *v)).collect();
        let keys: Vec<Option<Key>> = want.iter().map(|x| x.0.clone()).collect();
        if map != want {
            let i = map.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(map.len().min(want.len()));
            return self.fail(
                "index-order-differs",
                format!("replica {r}: entry {i} of its index is {}, expected {}", at(&map.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), i), at(&keys, i)),
            );
        }
        if run != keys {
            let i = run.iter().zip(&keys).position(|(a, b)| a != b).unwrap_or(run.len().min(keys.len()));
            return self.fail("run-order-differs", format!("replica {r}: entry {i} of its sorted run is {}, expected {}", at(&run, i), at(&keys, i)));
        }
        if ends != (keys.first().cloned().flatten(), keys.last().cloned().flatten()) {
            self.fail("ends-differ", format!("replica {r}: first and last entry are {ends:?}"));
        }
    }

    /// Lookups and range queries.
    fn look(&mut self) {
        let r = self.ctx.src.usize(self.reps.len());
        if self.reps[r].node.is_none() {
            return;
        }
        self.scan(r);
        if self.ctx.failed() {
            return;
        }
        let s = &mut self.ctx.src;
        let (mut a, mut b) = (raw_bytes(s.pick(&self.pool)), raw_bytes(s.pick(&self.pool)));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let (lo, hi) = (s.chance(500), s.chance(500));
        let bound = |x: Key, open: bool| if open { Bound::Excluded(x) } else { Bound::Included(x) };
        if a == b {
            return;
        }
        let q = (bound(a.clone(), lo), bound(b.clone(), hi));
        let want: Vec<Option<Key>> = self.reps[r].model.range(q.clone()).map(|x| Some(x.0.clone())).collect();
        let node = self.reps[r].node.as_ref().unwrap();
        let got = node.run(move |mem| {
            let f = |b: Bound<Key>| match b {
                Bound::Included(k) => Bound::Included(value(&k)),
                Bound::Excluded(k) => Bound::Excluded(value(&k)),
                Bound::Unbounded => Bound::Unbounded,
            };
            let q = (f(q.0), f(q.1));
            let scanned: Vec<Option<Key>> = mem.index.map.range(q.clone()).map(|x| bytes(x.0)).collect();
            use std::ops::RangeBounds;
            let filtered: Vec<Option<Key>> = mem.index.run.iter().filter(|v| q.contains(*v)).map(bytes).collect();
            (scanned, filtered)
        });
        self.ctx.judged();
        match got {
            Err(p) => self.fail("panicked", format!("replica {r}: range query {} .. {} panicked: {p}", hex(&a), hex(&b))),
            Ok((x, y)) => {
                if x != want || y != want {
                    self.fail(
                        "range-differs",
                        format!("replica {r}: range {} .. {} gave {} and {} entries, expected {}", hex(&a), hex(&b), x.len(), y.len(), want.len()),
                    );
                }
            }
        }
    }

    /// One replica's index is split, shipped and merged into another's.
    fn merge(&mut self) {
        let (r, o) = (self.ctx.src.usize(self.reps.len()), self.ctx.src.usize(self.reps.len()));
        if r == o || self.reps[r].node.is_none() || self.reps[o].node.is_none() {
            return;
        }
        self.ctx.count("fault.state-transfer");
        let cut = raw_bytes(self.ctx.src.pick(&self.pool));
        let c2 = cut.clone();
        let got = self.reps[o].node.as_ref().unwrap().run(move |mem| {
            let mut low = mem.index.map.clone();
            let high = low.split_off(&value(&c2));
            let f = |m: BTreeMap<Value, (u64, Option<u64>)>| m.into_iter().map(|(k, v)| (cbor::to_vec(k), v)).collect::<Vec<_>>();
            (f(low), f(high))
        });
        let (low, high) = match got {
            Ok(x) => x,
            Err(p) => return self.fail("panicked", format!("split panicked: {p}")),
        };
        self.ctx.judged();
        let want_low: Vec<(Key, (u64, Option<u64>))> = self.reps[o].model.range(..cut.clone()).map(|(k, v)| (k.clone(), *v)).collect();
        let want_high: Vec<(Key, (u64, Option<u64>))> = self.reps[o].model.range(cut.clone()..).map(|(k, v)| (k.clone(), *v)).collect();
        if low != want_low || high != want_high {
            return self.fail("split-differs", format!("replica {o}: split at {} gave {} and {} entries, expected {} and {}", hex(&cut), low.len(), high.len(), want_low.len(), want_high.len()));
        }
        // Newer entries only.
        let mine = &self.reps[r].model;
        let fresh: Vec<(Key, (u64, Option<u64>))> =
            high.into_iter().chain(low).filter(|(k, v)| mine.get(k).map_or(true, |x| x.0 < v.0)).collect();
        let part = fresh.clone();
        let got = self.reps[r].node.as_ref().unwrap().run(move |mem| {
            let mut add: BTreeMap<Value, (u64, Option<u64>)> = part.iter().map(|(k, v)| (value(k), *v)).collect();
            let n = add.len();
            mem.index.map.append(&mut add);
            mem.index.run.extend(part.iter().map(|(k, _)| value(k)));
            mem.index.run.sort();
            mem.index.run.dedup();
            n
        });
        match got {
            Ok(n) if n == fresh.len() => {}
            Ok(n) => return self.fail("entry-lost", format!("replica {r}: {n} of {} shipped entries are distinct", fresh.len())),
            Err(p) => return self.fail("panicked", format!("merge panicked: {p}")),
        }
        for (k, v) in fresh {
            // Durable on arrival, like any update.
            self.reps[r].log.push((Update { key: Arc::new(k.clone()), ver: v.0, data: v.1 }, true));
            self.reps[r].model.insert(k, v);
        }
        self.scan(r);
    }

    /// A batch is sorted before it is stored.
    fn sort(&mut self) {
        let s = &mut self.ctx.src;
        let n = 2 + s.usize(12);
        let batch: Vec<M> = (0..n).map(|_| s.pick(&self.pool).clone()).collect();
        let hist = s.below(1 << 16);
        let r = s.usize(self.reps.len());
        let Some(node) = &self.reps[r].node else { return };
        let mut want: Vec<Option<Key>> = batch.iter().map(|m| Some(raw_bytes(m))).collect();
        want.sort();
        let ends = (want.first().cloned().flatten(), want.last().cloned().flatten());
        let mut distinct = want.clone();
        distinct.dedup();
        let got = node.run(move |_| {
            let vs: Vec<Value> = batch.iter().map(model::to_value).collect();
            let keys = |v: &[Value]| v.iter().map(bytes).collect::<Vec<_>>();
            let mut a = vs.clone();
            a.sort_unstable();
            let mut b = vs.clone();
            b.sort();
            b.dedup();
            let mut c: Vec<Value> = BinaryHeap::from(vs.clone()).into_sorted_vec();
            c.sort_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal));
            let d: Vec<Value> = vs.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            let ends = (vs.iter().min().and_then(bytes), vs.iter().max().and_then(bytes));
            // Stored as a map keyed by the batch.
            let m = Value::Map(d.iter().rev().map(|k| (k.clone(), Value::Unsigned(0))).collect());
            let mut out = vec![];
            let w = cbor::writer::write(m, &mut out).is_ok();
            let back = if w { cbor::reader::read(&out).ok() } else { None };
            let e = match back {
                Some(Value::Map(xs)) => keys(&xs.into_iter().map(|x| x.0).collect::<Vec<_>>()),
                _ => vec![],
            };
            let _ = hist;
            (keys(&a), keys(&b), keys(&c), keys(&d), e, ends)
        });
        let now = self.now;
        self.ctx.judged();
        self.ctx.ev("sort", r as u64, n as u64, || format!("t={now} replica {r} sorts {n} items"));
        let (a, b, c, d, e, ends2) = match got {
            Ok(x) => x,
            Err(p) => return self.fail("panicked", format!("sorting panicked: {p}")),
        };
        if a != want || c != want {
            return self.fail("sort-differs", format!("{n} items sort as {}, expected {}", list(&a), list(&want)));
        }
        if b != distinct || d != distinct || e != distinct {
            return self.fail("distinct-differs", format!("distinct items {} / {} / {}, expected {}", list(&b), list(&d), list(&e), list(&distinct)));
        }
        if ends != ends2 {
            self.fail("ends-differ", format!("least and greatest are {ends2:?}, expected {ends:?}"));
        }
    }

    /// Total order laws, also for maps whose entries are listed in no particular order.
    fn laws(&mut self) {
        let s = &mut self.ctx.src;
        let mut ms: Vec<M> = vec![];
        for _ in 0..3 + s.below(2) {
            let m = s.pick(&self.pool).clone();
            let h = s.below(1 << 12);
            ms.push(if s.chance(400) { shuffle(&m, &mut Hist::new(h)) } else { m });
        }
        let canonical: Vec<bool> = ms.iter().map(|m| *m == m.sorted()).collect();
        let r = s.usize(self.reps.len());
        let Some(node) = &self.reps[r].node else { return };
        let m2 = ms.clone();
        let got = node.run(move |_| {
            let vs: Vec<Value> = m2.iter().map(model::to_value).collect();
            let mut out = vec![];
            for a in &vs {
                for b in &vs {
                    let c = a.cmp(b);
                    let same = [a.partial_cmp(b) == Some(c), (a == b) == (c == Ordering::Equal), (a != b) == (c != Ordering::Equal), (a < b) == (c == Ordering::Less),
                        (a > b) == (c == Ordering::Greater), (a <= b) == (c != Ordering::Greater), (a >= b) == (c != Ordering::Less),
                        a.clone().max(b.clone()) == if c == Ordering::Greater { a.clone() } else { b.clone() }];
                    out.push((c, same.iter().all(|x| *x)));
                }
            }
            out
        });
        let now = self.now;
        self.ctx.judged();
        self.ctx.ev("laws", r as u64, fnv(&raw_bytes(&ms[0])), || format!("t={now} replica {r} compares {} items", ms.len()));
        let got = match got {
            Ok(x) => x,
            Err(p) => return self.fail("panicked", format!("comparing panicked: {p}")),
        };
        let n = ms.len();
        let cmp = |i: usize, j: usize| got[i * n + j].0;
        let name = |i: usize| hex(&raw_bytes(&ms[i]));
        for i in 0..n {
            for j in 0..n {
                if !got[i * n + j].1 {
                    return self.fail("operators-disagree", format!("comparison operators disagree on {} and {}", name(i), name(j)));
                }
                if cmp(i, j) != cmp(j, i).reverse() {
                    return self.fail("not-antisymmetric", format!("{} vs {}: {:?} one way, {:?} the other", name(i), name(j), cmp(i, j), cmp(j, i)));
                }
                if canonical[i] && canonical[j] && cmp(i, j) != raw_bytes(&ms[i]).cmp(&raw_bytes(&ms[j])) {
                    return self.fail("order-differs", format!("{} vs {}: {:?}, the encodings compare otherwise", name(i), name(j), cmp(i, j)));
                }
                if ms[i] == ms[j] && cmp(i, j) != Ordering::Equal {
                    return self.fail("not-reflexive", format!("{} differs from itself", name(i)));
                }
                if cmp(i, j) == Ordering::Equal && ms[i].sorted() != ms[j].sorted() {
                    return self.fail("conflated", format!("{} and {} are equal", name(i), name(j)));
                }
                for k in 0..n {
                    let (x, y) = (cmp(i, j), cmp(j, k));
                    if x != Ordering::Greater && y != Ordering::Greater {
                        let z = cmp(i, k);
                        let strict = x == Ordering::Less || y == Ordering::Less;
                        if z == Ordering::Greater || (strict && z != Ordering::Less) {
                            return self.fail("not-transitive", format!("{} <= {} <= {} but {:?}", name(i), name(j), name(k), z));
                        }
                    }
                }
            }
        }
    }
}

fn at(v: &[Option<Key>], i: usize) -> String {
    match v.get(i) {
        Some(Some(k)) => hex(k),
        Some(None) => "(not an item)".into(),
        None => "(missing)".into(),
    }
}

fn list(v: &[Option<Key>]) -> String {
    v.iter().map(|k| k.as_ref().map(|k| hex(k)).unwrap_or("?".into())).collect::<Vec<_>>().join(" ")
}
