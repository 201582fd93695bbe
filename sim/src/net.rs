//! A data-availability network as a discrete-event simulation. Every node runs the real library on its
//! own (differently deployed) context; the network, clocks, crashes and adversaries are simulated.
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::scen::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Node {
    pub ctx: usize,
    /// 0 verify then recover, 1 recover blindly whatever arrived, 2 verify only
    pub mode: u32,
    pub batch: usize,
    pub flush_ns: u64,
    /// which columns it subscribes to: 0 all, 1 even, 2 odd, 3 first half, 4 second half, 5 all but one, 6 random 64, 7 random 64..127, 8 stripes of s
    pub custody: u32,
    pub arg: u64,
    /// recover from: 0 everything held, 1 the first 64 that arrived, 2 the last 64
    pub take: u32,
    /// every how many stored cells the store is synced (crash keeps synced cells only)
    pub sync_every: usize,
    pub republish: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Pub {
    pub node: usize,
    pub b: usize,
    pub at: u64,
    pub compute: bool, // the publisher runs commit+compute through its own context
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Fault {
    /// loss | dup | delay | corrupt | partition | crash | stall
    pub kind: String,
    pub from: u64,
    pub to: u64,
    pub node: usize, // crash/stall: node; partition: bit mask of one side; others: bit mask of receivers (0 = all)
    pub per_mille: u64,
    pub arg: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct NetPlan {
    pub seed: u64,
    pub nodes: Vec<Node>,
    pub pubs: Vec<Pub>,
    pub faults: Vec<Fault>,
    /// adversary messages: forged items sent to a node at a time
    pub forged: Vec<(u64, usize, Item)>,
    pub max_calls: u64,
}
enum Ev {
    Publish(usize),
    Deliver(usize, Item),
    Flush(usize),
    Recover(usize, usize),
    Crash(usize),
    Restart(usize),
    Pull(usize, u32),
}
#[derive(Default)]
struct St {
    up: bool,
    epoch: u64,
    pending: Vec<Item>,
    flush_set: bool,
    store: BTreeMap<usize, Vec<Item>>, // per blob, arrival order
    synced: BTreeMap<usize, usize>,
    have: BTreeMap<usize, BTreeSet<usize>>,
    recovered: BTreeSet<usize>,
    scheduled: BTreeSet<usize>,
}
struct Net<'a> {
    p: &'a NetPlan,
    t: Tables,
    now: u64,
    seq: u64,
    uid: u64,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    st: Vec<St>,
    calls: u64,
}
pub fn run(plan: &Plan) {
    let Some(p) = &plan.net else { return };
    if p.nodes.is_empty() || plan.blobs.is_empty() {
        return;
    }
    let mut n = Net { p, t: Tables::new(&plan.blobs), now: 0, seq: 0, uid: 0, q: BinaryHeap::new(), evs: BTreeMap::new(), st: vec![], calls: 0 };
    for _ in &p.nodes {
        n.st.push(St { up: true, ..Default::default() });
    }
    n.go();
}
impl<'a> Net<'a> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((t.max(self.now), self.seq)));
        self.evs.insert(self.seq, e);
    }
    fn go(&mut self) {
        for i in 0..self.p.pubs.len() {
            let t = self.p.pubs[i].at;
            self.at(t, Ev::Publish(i));
        }
        for f in &self.p.faults {
            if f.kind == "crash" && f.node < self.p.nodes.len() {
                let (a, b, n) = (f.from, f.to, f.node);
                self.at(a, Ev::Crash(n));
                self.at(b.max(a + 1), Ev::Restart(n));
            }
        }
        for (t, n, it) in self.p.forged.clone() {
            if n < self.p.nodes.len() {
                self.at(t, Ev::Deliver(n, it));
            }
        }
        // once every fault is over, nodes pull what they miss from their peers, twice
        let end = self.p.faults.iter().map(|f| f.to).chain(self.p.pubs.iter().map(|p| p.at)).max().unwrap_or(0) + 1_000_000_000;
        for k in 0..2u64 {
            for i in 0..self.p.nodes.len() {
                self.at(end + k * 2_000_000_000 + i as u64 * 1000, Ev::Pull(i, 1));
            }
        }
        let mut steps = 0u64;
        while let Some(Reverse((t, s))) = self.q.pop() {
            self.now = t;
            let e = self.evs.remove(&s).unwrap();
            steps += 1;
            if steps > 200_000 || self.calls > self.p.max_calls.max(20) || rep().viol.is_some() {
                break;
            }
            let tag = match &e {
                Ev::Publish(_) => 1u64,
                Ev::Deliver(..) => 2,
                Ev::Flush(_) => 3,
                Ev::Recover(..) => 4,
                Ev::Crash(_) => 5,
                Ev::Restart(_) => 6,
                Ev::Pull(..) => 7,
            };
            rep().ev(&(t ^ tag << 56).to_le_bytes());
            self.step(e);
        }
        let done = self.calls <= self.p.max_calls.max(20);
        let mut r = rep();
        r.add("net.events", steps);
        r.add("net.ms", self.now / 1_000_000);
        r.add(if done { "net.completed" } else { "net.call-budget" }, 1);
        if done && r.viol.is_none() {
            // liveness: with faults over and everything pulled, whoever holds half has recovered
            for (i, s) in self.st.iter().enumerate() {
                if self.p.nodes[i].mode != 0 {
                    continue;
                }
                for (b, h) in &s.have {
                    if h.len() >= 64 && !s.recovered.contains(b) {
                        r.fail(viol(&["C01"], "not-recovered", format!("node {i} holds {} cells of blob {b} and never recovered it", h.len())), Value::Null);
                    }
                    if h.len() >= 64 {
                        r.add("net.recovered-checked", 1);
                    }
                }
            }
        }
    }
    fn custody(&self, n: usize, b: usize, k: usize) -> bool {
        let s = &self.p.nodes[n];
        match s.custody {
            0 => true,
            1 => k % 2 == 0,
            2 => k % 2 == 1,
            3 => k < 64,
            4 => k >= 64,
            5 => k != s.arg as usize % CELLS,
            6 | 7 => {
                let mut v: Vec<usize> = (0..CELLS).collect();
                let mut r = Rng::new(mix2(s.arg, b as u64));
                r.shuffle(&mut v);
                let n = if s.custody == 6 { 64 } else { 64 + r.idx(64) };
                v[..n].contains(&k)
            }
            _ => {
                let w = 1usize << (s.arg % 6);
                (k / w) % 2 == (s.arg as usize >> 8) % 2
            }
        }
    }
    fn send(&mut self, src: usize, dst: usize, mut it: Item) {
        if src == dst {
            return;
        }
        self.uid += 1;
        let mut r = Rng::new(mix2(self.p.seed, mix2(self.uid, (src * 64 + dst) as u64)));
        let mut delay = 1_000_000 + r.below(40_000_000);
        let mut copies = 1;
        let mut rp = rep();
        rp.add("net.sent", 1);
        for f in &self.p.faults {
            if self.now < f.from || self.now >= f.to {
                continue;
            }
            let here = f.node == 0 || f.node >> dst & 1 == 1;
            match f.kind.as_str() {
                "loss" if here && r.below(1000) < f.per_mille => {
                    rp.add("fault.net.loss", 1);
                    return;
                }
                "partition" if (f.node >> src & 1) != (f.node >> dst & 1) => {
                    rp.add("fault.net.partition", 1);
                    return;
                }
                "dup" if here && r.below(1000) < f.per_mille => {
                    rp.add("fault.net.dup", 1);
                    copies = 2;
                }
                "delay" if here && r.below(1000) < f.per_mille => {
                    rp.add("fault.net.delay", 1);
                    delay += r.below(f.arg.max(1));
                }
                "corrupt" if here && r.below(1000) < f.per_mille => {
                    rp.add("fault.net.corrupt", 1);
                    it.m.push(random_mut(&mut r, self.t.blobs.len(), f.arg as u32));
                }
                _ => {}
            }
        }
        drop(rp);
        for c in 0..copies {
            let t = self.now + delay * (1 + c);
            self.at(t, Ev::Deliver(dst, it.clone()));
        }
    }
    fn exec(&mut self, node: usize, op: Op) -> Option<Out> {
        self.calls += 1;
        let p = prep(&mut self.t, &op);
        let w = world();
        let n = w.ctxs.len();
        let c = w.ctxs[op.ctx() % n].clone()?;
        crate::rt::advance(1000);
        {
            let mut r = rep();
            r.ev(&(node as u64).to_le_bytes());
            if r.trace.len() > 64 {
                r.trace.remove(0);
            }
            r.trace.push(json!(op));
        }
        Some(do_call(&c, &op, &p, json!({"node": node, "t": self.now}), None, None, None))
    }
    fn step(&mut self, e: Ev) {
        match e {
            Ev::Publish(i) => {
                let p = self.p.pubs[i].clone();
                let n = p.node % self.p.nodes.len();
                let b = p.b % self.t.blobs.len();
                if p.compute {
                    let ctx = self.p.nodes[n].ctx;
                    self.exec(n, Op::Commit { ctx, b, m: vec![] });
                    self.exec(n, Op::Compute { ctx, b, m: vec![] });
                }
                for k in 0..CELLS {
                    for d in 0..self.p.nodes.len() {
                        if d != n && self.custody(d, b, k) {
                            self.send(n, d, Item { b, k, m: vec![] });
                        }
                    }
                }
                // the publisher holds everything
                let s = &mut self.st[n];
                s.store.insert(b, (0..CELLS).map(|k| Item { b, k, m: vec![] }).collect());
                s.synced.insert(b, CELLS);
                s.have.insert(b, (0..CELLS).collect());
                s.recovered.insert(b);
            }
            Ev::Deliver(n, it) => {
                if !self.st[n].up {
                    rep().add("net.lost-while-down", 1);
                    return;
                }
                rep().add("net.delivered", 1);
                if self.p.nodes[n].mode == 1 {
                    self.keep(n, it);
                    return;
                }
                let nd = &self.p.nodes[n];
                let (batch, fl) = (nd.batch.max(1), nd.flush_ns);
                let s = &mut self.st[n];
                s.pending.push(it);
                if s.pending.len() >= batch || !s.flush_set {
                    let d = if s.pending.len() >= batch { 1 } else { fl.max(1) };
                    s.flush_set = true;
                    let t = self.now + d;
                    self.at(t, Ev::Flush(n));
                }
            }
            Ev::Flush(n) => {
                let b = self.p.nodes[n].batch.max(1);
                let s = &mut self.st[n];
                s.flush_set = false;
                if !s.up || s.pending.is_empty() {
                    return;
                }
                let take = s.pending.len().min(b);
                let items: Vec<Item> = s.pending.drain(..take).collect();
                if !s.pending.is_empty() {
                    s.flush_set = true;
                    let t = self.now + 1_000_000;
                    self.at(t, Ev::Flush(n));
                }
                self.verify(n, items);
            }
            Ev::Recover(n, b) => {
                self.st[n].scheduled.remove(&b);
                if !self.st[n].up || self.st[n].recovered.contains(&b) {
                    return;
                }
                let nd = self.p.nodes[n].clone();
                let mut items = self.st[n].store.get(&b).cloned().unwrap_or_default();
                let l = items.len();
                match nd.take {
                    1 => items.truncate(64),
                    2 => {
                        items.drain(..l.saturating_sub(64));
                    }
                    _ => {}
                }
                let o = self.exec(n, Op::Recover { ctx: nd.ctx, items, cut: [0, 0], dup: [0, 0] });
                if let Some(Out::Arts(Ok(_))) = o {
                    if nd.mode == 1 {
                        rep().add("net.blind-recovered", 1);
                    }
                    // (what was returned has been compared with the model, so the genuine items stand for it)
                    let had = self.st[n].have.get(&b).cloned().unwrap_or_default();
                    let s = &mut self.st[n];
                    s.recovered.insert(b);
                    rep().add("net.recovered", 1);
                    if nd.mode == 0 {
                        let e = s.store.entry(b).or_default();
                        for k in 0..CELLS {
                            if !had.contains(&k) {
                                e.push(Item { b, k, m: vec![] });
                            }
                        }
                        s.have.insert(b, (0..CELLS).collect());
                        s.synced.insert(b, CELLS);
                        if nd.republish {
                            for k in 0..CELLS {
                                if !had.contains(&k) {
                                    for d in 0..self.p.nodes.len() {
                                        if d != n && self.st[d].have.get(&b).map_or(true, |h| h.len() < 64) {
                                            self.send(n, d, Item { b, k, m: vec![] });
                                        }
                                    }
                                }
                            }
                        }
                    }
                } else if nd.mode == 1 {
                    rep().add("net.blind-refused", 1);
                }
            }
            Ev::Crash(n) => {
                let s = &mut self.st[n];
                if !s.up {
                    return;
                }
                s.up = false;
                s.epoch += 1;
                let mut r = rep();
                r.add("fault.net.crash", 1);
                r.add("fault.net.crash-lost-pending", s.pending.len() as u64);
                s.pending.clear();
                s.flush_set = false;
                s.scheduled.clear();
                // only the synced prefix of the store survives
                for (b, v) in s.store.iter_mut() {
                    let k = *s.synced.get(b).unwrap_or(&0);
                    r.add("fault.net.crash-lost-cells", v.len().saturating_sub(k) as u64);
                    v.truncate(k);
                    s.have.insert(*b, v.iter().filter(|i| i.m.is_empty()).map(|i| i.k).collect());
                    if v.len() < CELLS {
                        s.recovered.remove(b);
                    }
                }
            }
            Ev::Restart(n) => {
                if !self.st[n].up {
                    self.st[n].up = true;
                    let bs: Vec<usize> = self.st[n].have.iter().filter(|(_, h)| h.len() >= 64).map(|(b, _)| *b).collect();
                    for b in bs {
                        self.want(n, b);
                    }
                    let t = self.now + 5_000_000;
                    self.at(t, Ev::Pull(n, 0));
                }
            }
            Ev::Pull(n, fin) => {
                if !self.st[n].up || self.p.nodes[n].mode == 1 {
                    return;
                }
                rep().add("net.pull", 1);
                let mut want: Vec<(usize, Item)> = vec![];
                for d in 0..self.p.nodes.len() {
                    if d == n || !self.st[d].up || self.p.nodes[d].mode == 1 {
                        continue;
                    }
                    for (b, v) in &self.st[d].store {
                        let have = self.st[n].have.get(b);
                        if have.map_or(false, |h| h.len() >= 64) {
                            continue;
                        }
                        for it in v {
                            let dup = want.iter().any(|(_, w)| w.b == it.b && w.k == it.k);
                            if it.m.is_empty() && !dup && (fin == 1 || self.custody(n, *b, it.k)) && !have.map_or(false, |h| h.contains(&it.k)) {
                                want.push((d, it.clone()));
                            }
                        }
                    }
                }
                for (d, it) in want {
                    self.send(d, n, it);
                }
            }
        }
    }
    fn want(&mut self, n: usize, b: usize) {
        let s = &mut self.st[n];
        if s.recovered.contains(&b) || s.scheduled.contains(&b) || self.p.nodes[n].mode == 2 {
            return;
        }
        s.scheduled.insert(b);
        let mut r = Rng::new(mix2(self.p.seed ^ 0x77, mix2(n as u64, b as u64)));
        let t = self.now + r.below(60_000_000);
        self.at(t, Ev::Recover(n, b));
    }
    fn keep(&mut self, n: usize, it: Item) {
        let b = it.b % self.t.blobs.len();
        let k = it.k % CELLS;
        let blind = self.p.nodes[n].mode == 1;
        let sync = self.p.nodes[n].sync_every.max(1);
        let s = &mut self.st[n];
        let h = s.have.entry(b).or_default();
        if !h.insert(k) && !blind {
            return;
        }
        let v = s.store.entry(b).or_default();
        v.push(it);
        let l = v.len();
        if l % sync == 0 {
            s.synced.insert(b, l);
        }
        if l >= 64 {
            self.want(n, b);
        }
    }
    /// verify a batch; when it is refused, split it and find the good ones
    fn verify(&mut self, n: usize, items: Vec<Item>) {
        let ctx = self.p.nodes[n].ctx;
        let mut todo = vec![items];
        while let Some(b) = todo.pop() {
            if b.is_empty() || rep().viol.is_some() || self.calls > self.p.max_calls.max(20) {
                continue;
            }
            match self.exec(n, Op::Verify { ctx, items: b.clone(), atk: None, cut: [0; 4] }) {
                Some(Out::Verify(Verdict::Accept, _)) => {
                    for it in b {
                        // accepted items are true; a relabelled one that is still true is kept under its own label
                        if it.m.is_empty() {
                            self.keep(n, it);
                        }
                    }
                }
                Some(Out::Verify(..)) => {
                    rep().add("net.batch-refused", 1);
                    if b.len() > 1 {
                        let m = b.len() / 2;
                        todo.push(b[m..].to_vec());
                        todo.push(b[..m].to_vec());
                    }
                }
                _ => return,
            }
        }
    }
}
/// one corruption of a tuple; `mask` restricts the family (0 = any)
pub fn random_mut(r: &mut Rng, nblobs: usize, mask: u32) -> Mut {
    let point = |r: &mut Rng| if r.chance(1, 2) { 0u8 } else { 3u8 };
    let any = |r: &mut Rng| r.below(4) as u8;
    match if mask == 0 { r.below(16) } else { (mask - 1) as u64 % 16 } {
        0 => Mut::Flip { part: 2, bit: r.next() },
        1 => Mut::Flip { part: any(r), bit: r.next() },
        2 | 3 => Mut::From { part: any(r), b: r.idx(nblobs.max(1)), k: r.idx(CELLS) },
        4 => Mut::Idx { v: odd_index(r) },
        5 | 6 => Mut::Add { j: r.idx(PER_CELL), s: if r.chance(1, 2) { r.below(4) } else { r.next() } },
        7 => Mut::NonCanon { j: r.idx(PER_CELL), kind: r.below(8) as u32 },
        8 => Mut::PAdd { part: point(r), s: r.next() },
        9 => Mut::Torsion { part: point(r), s: r.next() },
        10 => Mut::Neg { part: point(r) },
        11 => Mut::Inf { part: point(r) },
        12 | 13 => Mut::Enc { part: point(r), kind: r.below(12) as u32, s: r.next() },
        14 => Mut::Swap { part: any(r) },
        _ => Mut::Zero { part: any(r) },
    }
}
pub fn odd_index(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 128,
        1 => 129,
        2 => u64::MAX,
        3 => 127,
        4 => 0,
        5 => 128 + r.below(128),
        6 => (1 << 32) + r.below(128),
        7 => (1 << 63) + r.below(128),
        8 => 256 * r.below(4) + r.below(128),
        9 => (1 << 31) + r.below(128),
        10 => r.below(128),
        _ => r.next(),
    }
}
