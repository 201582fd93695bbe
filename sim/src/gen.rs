//! Plans from seeds.
use crate::model::*;
use crate::net::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::rt::SimCfg;
use crate::scen::*;
use crate::world::*;
use serde_json::Value;

pub fn sim_cfg(r: &mut Rng, callers: u32) -> SimCfg {
    let policy = *r.pick(&[0u32, 1, 1, 1, 1, 2, 2, 3, 3]);
    SimCfg {
        seed: r.next(),
        policy,
        mean_slice: *r.pick(&[200, 1000, 5000, 20000, 100000]),
        hot_denom: if callers > 1 { *r.pick(&[0u32, 20, 100, 500, 3000]) } else { *r.pick(&[0u32, 200, 2000]) },
        sync_denom: *r.pick(&[2u32, 4, 8, 32]),
        ncpu: *r.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 12, 16, 64]),
        stall_denom: *r.pick(&[0u32, 0, 0, 50, 500]),
        step_limit: 0,
        spawn_fail_from: 0,
        spawn_fail_to: 0,
        spurious_denom: *r.pick(&[0u32, 0, 0, 4, 32]),
        replay: 0,
        rare_denom: if callers > 1 { *r.pick(&[0u32, 0, 30, 100, 400]) } else { *r.pick(&[0u32, 0, 0, 200]) },
        rare_hits: *r.pick(&[4u32, 24, 200]),
    }
}
fn blob(r: &mut Rng) -> BlobSpec {
    let w = world();
    if w.tau().is_none() && !w.arts.is_empty() {
        let a = r.pick(&w.arts);
        return BlobSpec { k: a.0, s: a.1 };
    }
    BlobSpec { k: if r.chance(1, 2) { 0 } else { r.below(BLOB_KINDS as u64) as u32 }, s: r.below(1 << 40) }
}
fn blobs(r: &mut Rng, n: usize) -> Vec<BlobSpec> {
    let mut v: Vec<BlobSpec> = (0..n).map(|_| blob(r)).collect();
    for i in 1..n {
        if r.chance(1, 4) {
            // a relative of another one
            let j = r.idx(i);
            v[i] = BlobSpec { k: v[j].k % 100 + 100 * (1 + r.below(RELATED as u64) as u32), s: v[j].s };
        }
    }
    v
}
fn good(b: usize, k: usize) -> Item {
    Item { b, k, m: vec![] }
}
fn nctx() -> u64 {
    world().ctxs.len().max(1) as u64
}
/// which cells survive, and in which order they arrive
pub fn survivors(r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..CELLS).collect();
    let target = match r.below(6) {
        0 | 1 => 64,
        2 => 65 + r.idx(4),
        3 => 127,
        4 => 64 + r.idx(65),
        _ => 124 + r.idx(5),
    };
    // the place in the domain at which a cell is evaluated
    let place = |k: usize| ((k as u32).reverse_bits() >> 25) as usize;
    match r.below(15) {
        12 => {
            // lost: equally spaced in the domain, not necessarily all the way round
            let d = *r.pick(&[1usize, 1, 2, 3, 4, 5, 8, 16, 32, 63, 127]);
            let n = match r.below(3) {
                0 => 2 + r.idx(4),
                1 => 64,
                _ => 1 + r.idx(64),
            };
            let s = r.idx(CELLS);
            let lost: std::collections::BTreeSet<usize> = (0..n).map(|i| (s + i * d) % CELLS).collect();
            v.retain(|k| !lost.contains(&place(*k)));
        }
        13 => {
            // lost: a coset of a subgroup of the domain, or that and one more, or all of it but one
            let g = 1usize << r.below(6);
            let o = r.idx(CELLS);
            let mut lost: std::collections::BTreeSet<usize> = (0..CELLS).filter(|i| (i + CELLS - o) % (CELLS / g) == 0).collect();
            match r.below(3) {
                0 => {}
                1 => {
                    lost.insert(r.idx(CELLS));
                }
                _ => {
                    lost.remove(&o);
                }
            }
            v.retain(|k| !lost.contains(&place(*k)));
        }
        14 => {
            // a few lost
            let n = 1 + r.idx(31);
            r.shuffle(&mut v);
            v.truncate(CELLS - n);
        }
        0 => v.retain(|k| *k < target.max(64)),
        1 => v.retain(|k| *k >= CELLS - target),
        2 => v.retain(|k| k % 2 == 0),
        3 => v.retain(|k| k % 2 == 1),
        4 => {
            let w = 1 << r.below(6);
            let o = r.idx(2);
            v.retain(|k| (k / w) % 2 == o)
        }
        5 => {
            let s = r.idx(CELLS);
            v = (0..target).map(|i| (s + i) % CELLS).collect()
        }
        6 => {
            // lose a burst somewhere
            let s = r.idx(CELLS);
            let l = 1 + r.idx(64);
            v.retain(|k| (k + CELLS - s) % CELLS >= l)
        }
        7 => {
            // clustered in bit-reversed space: a coarse sub-coset and part of another
            let b = r.below(7) as u32;
            v.sort_by_key(|k| ((*k as u32).reverse_bits() >> 25) ^ b);
            v.truncate(target);
        }
        _ => {
            r.shuffle(&mut v);
            v.truncate(target);
        }
    }
    match r.below(6) {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse()
        }
        2 => {
            v.sort();
            let i = r.idx(v.len());
            let j = r.idx(v.len());
            v.swap(i, j)
        }
        3 => {
            let i = r.idx(v.len());
            v.rotate_left(i)
        }
        _ => r.shuffle(&mut v),
    }
    v
}
fn net_plan(r: &mut Rng, prop: &str) -> (NetPlan, Vec<BlobSpec>) {
    let n = 3 + r.idx(3);
    let nb = 1 + r.idx(2);
    let bl = blobs(r, nb);
    let verify_only = matches!(prop, "C03" | "C04");
    let blind = prop == "C02";
    let sec = 1_000_000_000u64;
    let mut nodes = vec![];
    for i in 0..n {
        nodes.push(Node {
            ctx: r.below(nctx()) as usize,
            mode: if i == 0 { 0 } else if verify_only { if r.chance(1, 4) { 0 } else { 2 } } else if blind { if r.chance(2, 3) { 1 } else { 0 } } else if r.chance(1, 6) { 1 } else { 0 },
            batch: *r.pick(&[1usize, 7, 32, 64, 128, 200, 256]),
            flush_ns: *r.pick(&[1_000_000u64, 20_000_000, 200_000_000]),
            custody: r.below(9) as u32,
            arg: r.next() >> 8,
            take: r.below(4) as u32,
            sync_every: *r.pick(&[1usize, 8, 50]),
            republish: r.chance(2, 3),
        });
        if nodes[i].batch == 1 {
            nodes[i].batch = if verify_only { 1 } else { 16 };
        }
    }
    let pubs = (0..nb).map(|b| Pub { node: 0, b, at: r.below(sec / 2), compute: r.chance(1, 5) && !verify_only }).collect();
    let mut faults = vec![];
    let win = |r: &mut Rng| {
        let a = r.below(sec);
        (a.saturating_sub(sec / 4), a + r.below(sec))
    };
    let kinds: &[&str] = if prop == "C03" { &["loss", "dup", "delay", "partition", "crash"] } else { &["loss", "dup", "delay", "partition", "crash", "corrupt", "corrupt"] };
    for _ in 0..r.below(6) {
        let (a, b) = win(r);
        let k = *r.pick(kinds);
        faults.push(Fault {
            kind: k.into(),
            from: a,
            to: b,
            node: match k {
                "crash" => r.idx(n),
                "partition" => 1 + r.idx((1 << n) - 2),
                _ => if r.chance(1, 2) { 0 } else { r.idx(1 << n) },
            },
            per_mille: match k {
                "corrupt" => *r.pick(&[4u64, 10, 40]),
                "loss" => *r.pick(&[50u64, 200, 450]),
                _ => 300,
            },
            arg: match k {
                "delay" => 300_000_000,
                "corrupt" => if r.chance(1, 2) { 0 } else { 1 + r.below(16) },
                _ => 0,
            },
        });
    }
    let mut forged = vec![];
    if prop != "C03" && r.chance(1, 2) {
        for _ in 0..1 + r.below(6) {
            let mut it = good(r.idx(nb), r.idx(CELLS));
            it.m.push(random_mut(r, nb, 0));
            forged.push((r.below(sec), r.idx(n), it));
        }
    }
    (NetPlan { seed: r.next(), nodes, pubs, faults, forged, max_calls: if verify_only { 300 } else { 40 } }, bl)
}
fn recover_op(r: &mut Rng, nb: usize) -> Op {
    let b = r.idx(nb);
    Op::Recover { ctx: r.below(nctx()) as usize, items: survivors(r).into_iter().map(|k| good(b, k)).collect(), cut: [0, 0], dup: [0, 0] }
}
pub fn bad_recover(r: &mut Rng, nb: usize) -> Op {
    let b = r.idx(nb);
    let mut items: Vec<Item> = survivors(r).into_iter().map(|k| good(b, k)).collect();
    let mut cut = [0, 0];
    let mut dup = [0, 0];
    let n = items.len();
    match r.below(22) {
        16 | 17 | 18 if n > 64 => {
            // close to a codeword: a few coefficients just above the degree bound, everywhere consistent
            let hi = (n * PER_CELL) as u64;
            for _ in 0..1 + r.below(2) {
                let d = match r.below(6) {
                    0 => 4096,
                    1 => hi - 1,
                    2 => 4096 + r.below(64),
                    3 => hi - 1 - r.below(64),
                    4 => 4096 + (r.below(hi - 4096) & !63),
                    _ => 4096 + r.below(hi - 4096),
                };
                let s = if r.chance(1, 2) { r.below(4) } else { r.next() };
                let e = if r.chance(1, 3) { Some(4096 + r.below(hi - 4096)) } else { None };
                for i in items.iter_mut() {
                    i.m.push(Mut::Poly { d, s });
                    // and another one that cancels it in the sum of coefficients
                    if let Some(e) = e {
                        i.m.push(Mut::Poly { d: e, s: s ^ 1 });
                    }
                }
            }
        }
        16 | 17 | 18 | 19 => {
            // a smooth error confined to one or two cells
            for _ in 0..1 + r.idx(2) {
                let i = r.idx(n);
                let s = r.below(6);
                let d = *r.pick(&[0u64, 1, 32, 63, 64, 127, 128]);
                items[i].m.push(Mut::Poly { d, s });
            }
        }
        20 => {
            let i = r.idx(n);
            items[i].m.push(Mut::All { s: r.below(3) })
        }
        0 | 1 | 2 => {
            // one corrupted element, anywhere
            let i = *r.pick(&[0, n - 1, r.clone().idx(n)]);
            items[i].m.push(Mut::Add { j: r.idx(PER_CELL), s: if r.chance(1, 2) { 0 } else { r.next() } })
        }
        3 => {
            let i = r.idx(n);
            items[i].m.push(Mut::Flip { part: 2, bit: r.next() })
        }
        4 => {
            // two cells exchanged
            let (i, j) = (r.idx(n), r.idx(n));
            let (a, c) = (items[i].k, items[j].k);
            items[i].m.push(Mut::From { part: 2, b, k: c });
            items[j].m.push(Mut::From { part: 2, b, k: a });
        }
        5 | 6 => {
            // mixed between blobs: from one cell to half of them
            let o = r.idx(nb);
            let m = if r.chance(1, 2) { 1 } else { 1 + r.idx(n) };
            for _ in 0..m {
                let i = r.idx(n);
                items[i].b = o;
            }
        }
        7 => {
            // duplicate index
            match r.below(3) {
                0 => dup = [1 + r.below(3) as u32, 0],
                1 => {
                    let (i, j) = (r.idx(n), r.idx(n));
                    let k = items[j].k;
                    items[i].k = k
                }
                _ => {
                    let (i, j) = (r.idx(n), r.idx(n));
                    let v = items[j].k as u64;
                    items[i].m.push(Mut::Idx { v })
                }
            }
        }
        8 => {
            let i = r.idx(n);
            items[i].m.push(Mut::Idx { v: odd_index(r) })
        }
        9 => {
            let i = *r.pick(&[0, n - 1, r.clone().idx(n)]);
            items[i].m.push(Mut::NonCanon { j: r.idx(PER_CELL), kind: r.below(8) as u32 })
        }
        10 => items.truncate(*r.clone().pick(&[0usize, 1, 2, 32, 62, 63])),
        11 => match r.below(5) {
            0 => cut = [1 + r.below(3) as u32, 0],
            1 => cut = [0, 1 + r.below(3) as u32],
            2 => dup = [0, 1],
            3 => cut = [200, 0],
            _ => cut = [0, 200],
        },
        12 => {
            // more than 128
            items = (0..CELLS).map(|k| good(b, k)).collect();
            dup = [1 + r.below(130) as u32, 0];
        }
        13 => {
            // indices shifted or permuted among the same set
            let l = items.len();
            let ks: Vec<usize> = items.iter().map(|i| i.k).collect();
            let s = 1 + r.idx(l - 1);
            for i in 0..l {
                let v = ks[(i + s) % l] as u64;
                items[i].m.push(Mut::Idx { v })
            }
        }
        14 => {
            // every supplied cell tampered in the same way
            let j = r.idx(PER_CELL);
            let s = r.next();
            for i in 0..n {
                items[i].m.push(Mut::Add { j, s })
            }
        }
        _ => {
            // the corruption is the very last to arrive, or sits beyond the 64th cell
            if n > 64 {
                let i = 64 + r.idx(n - 64);
                items[i].m.push(Mut::Add { j: r.idx(PER_CELL), s: r.next() })
            } else {
                items[n - 1].m.push(Mut::Zero { part: 2 })
            }
        }
    }
    if r.chance(1, 3) {
        r.shuffle(&mut items);
    }
    Op::Recover { ctx: r.below(nctx()) as usize, items, cut, dup }
}
pub fn batch(r: &mut Rng, nb: usize) -> Vec<Item> {
    let n = match r.below(10) {
        0 => r.idx(4),
        1 => 1,
        2 => 2 + r.idx(6),
        3 => 128,
        4 => 60 + r.idx(10),
        5 => 120 + r.idx(20),
        6 => 1 + r.idx(300),
        7 => 250 + r.idx(14),
        _ => 1 + r.idx(64),
    };
    let mut v = vec![];
    match r.below(7) {
        0 => {
            let b = r.idx(nb);
            v = (0..n).map(|k| good(b, k % CELLS)).collect()
        }
        1 => {
            let k = r.idx(CELLS);
            v = (0..n).map(|i| good(i % nb, k)).collect()
        }
        2 => {
            // blobs one after another
            v = (0..n).map(|i| good(i * nb / n.max(1), i % CELLS)).collect()
        }
        3 => {
            let it = good(r.idx(nb), r.idx(CELLS));
            v = vec![it; n]
        }
        4 => {
            for _ in 0..n {
                let it = if v.is_empty() || r.chance(1, 2) { good(r.idx(nb), r.idx(CELLS)) } else { r.pick(&v).clone() };
                v.push(it)
            }
        }
        _ => {
            for _ in 0..n {
                v.push(good(r.idx(nb), r.idx(CELLS)))
            }
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    if world().tau().is_some() && r.chance(1, 10) {
        // many different commitments
        let g = 1 + r.idx(v.len().max(1));
        for (i, it) in v.iter_mut().enumerate() {
            it.m.push(Mut::Scale { s: (i % g) as u64 })
        }
    }
    v
}
/// more than a byte's worth of rows
pub fn big_batch(r: &mut Rng, nb: usize) -> Vec<Item> {
    let n = *r.pick(&[255usize, 257, 300, 400, 513]) + r.idx(3);
    let g = if r.chance(2, 3) { n } else { 1 + r.idx(n) };
    let mut v: Vec<Item> = (0..n).map(|i| Item { b: r.idx(nb), k: r.idx(CELLS), m: vec![Mut::Scale { s: (i % g) as u64 }] }).collect();
    if r.chance(1, 3) {
        // and seen again
        for _ in 0..1 + r.idx(40) {
            let it = r.pick(&v).clone();
            v.push(it)
        }
    }
    v
}
pub fn good_verify(r: &mut Rng, nb: usize) -> Op {
    Op::Verify { ctx: r.below(nctx()) as usize, items: batch(r, nb), atk: None, cut: [0; 4] }
}
pub fn bad_verify(r: &mut Rng, nb: usize) -> Op {
    let mut items = batch(r, nb);
    let far = world().tau().is_some() && r.chance(1, 8);
    if far && items.len() < 130 {
        let m = 130 + r.idx(60);
        while items.len() < m {
            items.push(good(r.idx(nb), r.idx(CELLS)))
        }
    }
    if items.is_empty() {
        items.push(good(r.idx(nb), r.idx(CELLS)));
    }
    let n = items.len();
    let mut cut = [0; 4];
    let mut atk = None;
    let tau = world().tau().is_some();
    let pos = |r: &mut Rng| *r.clone().pick(&[0usize, n - 1, n / 2, r.clone().idx(n), r.idx(n)]);
    let part = |r: &mut Rng| *r.pick(&[0u8, 2, 3, 3]);
    match if far { 9 } else { r.below(if tau { 20 } else { 9 }) } {
        0 | 1 | 2 | 3 => {
            let i = pos(r);
            items[i].m.push(random_mut(r, nb, 0))
        }
        4 => {
            // one cell off by one
            let i = pos(r);
            items[i].m.push(Mut::Add { j: r.idx(PER_CELL), s: 0 })
        }
        5 => {
            // two tuples exchange a part
            let (i, j) = (r.idx(n), r.idx(n));
            let p = r.below(4) as u8;
            let (a, b) = (items[i].clone(), items[j].clone());
            items[i].m.push(Mut::From { part: p, b: b.b, k: b.k });
            items[j].m.push(Mut::From { part: p, b: a.b, k: a.k });
        }
        6 => {
            // several corruptions, possibly both malformed and false
            for _ in 0..2 + r.idx(4) {
                let i = r.idx(n);
                items[i].m.push(random_mut(r, nb, 0));
            }
        }
        7 => {
            cut[r.idx(4)] = *r.clone().pick(&[1u32, 1, 2, n as u32]);
            if r.chance(1, 3) {
                cut[r.idx(4)] = 1 + r.below(3) as u32;
            }
        }
        8 => {
            // every tuple relabelled: indices rotated
            let d = 1 + r.idx(127);
            for it in items.iter_mut() {
                it.m.push(Mut::Idx { v: ((it.k + d) % CELLS) as u64 })
            }
        }
        9 | 10 | 11 => {
            let x = r.idx(n);
            // weights that repeat with some period, or restart at some boundary
            let p = 1usize << r.below(8);
            let x = if r.chance(1, 2) { x / p * p } else { x };
            let y = match r.below(6) {
                0 => x + p,
                1 => x + 1,
                2 => x + p - 1,
                3 => x + p + 1,
                4 => x + 64 * (1 + r.idx(2)),
                _ => r.idx(n),
            };
            let px = part(r);
            atk = Some(Attack::Pair { x, y, px, py: if r.chance(2, 3) { px } else { part(r) }, s: if r.chance(1, 2) { r.below(3) } else { r.next() }, neg: r.chance(1, 6) })
        }
        12..=16 => {
            let y = pos(r);
            // only components that can absorb an error
            let pt = *r.clone().pick(&[0u8, 0, 2, 2, 3, 3, 3, 12, 22, 32, 42, 52, 62, 100, 100, 163, 100 + r.below(64) as u8]);
            let sel = match r.below(3) {
                0 => 0,
                1 => 1,
                _ => r.below(10) as u32,
            };
            let t = *r.pick(&[1usize, 2, 8, 16, 32, 64, 96, 127, 128, 256]);
            let y = match sel {
                8 => n - 1,
                9 => 0,
                _ => y,
            };
            atk = Some(Attack::Weak { part: pt, sel, t, x: pos(r), px: part(r), y, s: r.next() })
        }
        17 | 18 => atk = Some(Attack::Const { c: *r.pick(&[0u64, 1, 2, 3, 7, 4096, 64, 128]), shift: r.below(2), x: pos(r), px: part(r), y: pos(r), py: part(r), s: r.next() }),
        _ => atk = Some(Attack::Sum { px: part(r), s: r.next() }),
    }
    Op::Verify { ctx: r.below(nctx()) as usize, items, atk, cut }
}
fn bmuts(r: &mut Rng) -> Vec<BMut> {
    let pos = |r: &mut Rng| *r.clone().pick(&[0usize, N - 1, r.idx(N), r.idx(N)]);
    match r.below(8) {
        0..=4 => vec![BMut::NonCanon { j: pos(r), kind: r.below(8) as u32 }],
        5 => vec![BMut::Flip { bit: r.next() }],
        6 => (0..1 + r.idx(4)).map(|_| BMut::NonCanon { j: pos(r), kind: r.below(8) as u32 }).collect(),
        _ => vec![BMut::Set { j: pos(r), s: r.next() }, BMut::Flip { bit: r.next() }],
    }
}
/// an earlier call once more: the same, a little different, or without what was wrong with it
pub fn again(r: &mut Rng, nb: usize, op: &Op) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Verify { items, atk, cut, .. } => {
            let bad = atk.is_some() || *cut != [0; 4] || items.iter().any(|i| i.m.iter().any(|m| !matches!(m, Mut::Scale { .. })));
            let clean = bad && r.chance(1, 2);
            if clean {
                *atk = None;
                *cut = [0; 4];
                for i in items.iter_mut() {
                    i.m.retain(|m| matches!(m, Mut::Scale { .. }))
                }
            } else if !bad && !items.is_empty() {
                let n = items.len();
                let i = *r.clone().pick(&[0usize, n - 1, r.idx(n)]);
                let m = match r.below(4) {
                    0 => Mut::Add { j: r.idx(PER_CELL), s: 0 },
                    1 => Mut::From { part: r.below(4) as u8, b: r.idx(nb), k: items[i].k },
                    _ => random_mut(r, nb, 0),
                };
                items[i].m.push(m);
            }
        }
        Op::Recover { items, cut, dup, .. } => {
            let bad = *cut != [0; 2] || *dup != [0; 2] || items.iter().any(|i| !i.m.is_empty());
            if bad {
                *cut = [0; 2];
                *dup = [0; 2];
                for i in items.iter_mut() {
                    i.m.clear()
                }
            } else if items.len() > 64 {
                let n = items.len();
                let i = *r.clone().pick(&[0usize, n - 1, r.idx(n)]);
                items[i].m.push(Mut::Add { j: r.idx(PER_CELL), s: r.next() });
            } else {
                let b = r.idx(nb);
                for i in items.iter_mut() {
                    i.b = b
                }
            }
        }
        Op::Commit { b, m, .. } | Op::Compute { b, m, .. } => {
            if m.is_empty() {
                if r.chance(1, 2) {
                    *b = r.idx(nb)
                } else {
                    *m = bmuts(r)
                }
            } else {
                m.clear()
            }
        }
    }
    op
}
/// some calls are made once more later on, altered
fn echoes(r: &mut Rng, nb: usize, steps: &mut [Step]) {
    for i in 1..steps.len() {
        if !r.chance(1, 4) {
            continue;
        }
        let j = if r.chance(1, 2) { i - 1 } else { r.idx(i) };
        let Step::Call { op, .. } = &steps[j] else { continue };
        let mut op = again(r, nb, op);
        if r.chance(1, 6) {
            set_ctx(&mut op, r.below(nctx()) as usize)
        }
        steps[i] = call(op);
    }
}
/// a call that is cheap to make
pub fn small_op(r: &mut Rng, nb: usize, hostile: u64) -> Op {
    let h = r.below(100) < hostile;
    let n = 1 + r.idx(2);
    let mut items: Vec<Item> = (0..n).map(|_| good(r.idx(nb), r.idx(CELLS))).collect();
    let ctx = r.below(nctx()) as usize;
    let mut cut = [0; 4];
    if h {
        match r.below(16) {
            0 => return Op::Commit { ctx, b: r.idx(nb), m: vec![BMut::NonCanon { j: r.idx(N), kind: r.below(8) as u32 }] },
            1 => return Op::Recover { ctx, items: items.clone(), cut: [0; 2], dup: [0; 2] },
            2 => return Op::Compute { ctx, b: r.idx(nb), m: vec![BMut::NonCanon { j: r.idx(N), kind: r.below(8) as u32 }] },
            3 => cut[r.idx(4)] = 1,
            4..=7 => items[0].m.push(Mut::Add { j: r.idx(PER_CELL), s: 0 }),
            8..=10 => {
                let v = ((items[0].k + 1) % CELLS) as u64;
                items[0].m.push(Mut::Idx { v })
            }
            _ => {
                let m = random_mut(r, nb, 0);
                items[n - 1].m.push(m)
            }
        }
    }
    Op::Verify { ctx, items, atk: None, cut }
}
/// arrays whose lengths do not agree
pub fn shape_op(r: &mut Rng, nb: usize) -> Op {
    let mut op = if r.chance(1, 2) { recover_op(r, nb) } else { good_verify(r, nb) };
    let len = |r: &mut Rng, n: usize| *r.clone().pick(&[1u32, 1, 2, 3, n as u32, n.saturating_sub(1) as u32, (n / 2) as u32]);
    match &mut op {
        Op::Recover { items, cut, .. } => cut[r.idx(2)] = len(r, items.len()),
        Op::Verify { items, cut, .. } => {
            for _ in 0..1 + r.idx(2) {
                cut[r.idx(4)] = len(r, items.len())
            }
        }
        _ => {}
    }
    op
}
/// any call, hostile or not; `heavy` allows the half-second ones
pub fn any_op(r: &mut Rng, nb: usize, heavy: u64, hostile: u64) -> Op {
    let h = r.below(100) < hostile;
    if r.below(100) < heavy {
        match r.below(3) {
            0 => Op::Compute { ctx: r.below(nctx()) as usize, b: r.idx(nb), m: if h { bmuts(r) } else { vec![] } },
            1 => if h { bad_recover(r, nb) } else { recover_op(r, nb) },
            _ => Op::Commit { ctx: r.below(nctx()) as usize, b: r.idx(nb), m: if h { bmuts(r) } else { vec![] } },
        }
    } else {
        match r.below(5) {
            0 => Op::Commit { ctx: r.below(nctx()) as usize, b: r.idx(nb), m: if h { bmuts(r) } else { vec![] } },
            _ => if h { bad_verify(r, nb) } else { good_verify(r, nb) },
        }
    }
}
pub fn set_ctx(op: &mut Op, c: usize) {
    match op {
        Op::Commit { ctx, .. } | Op::Compute { ctx, .. } | Op::Recover { ctx, .. } | Op::Verify { ctx, .. } => *ctx = c,
    }
}
fn ops_plan(prop: &str, seed: u64, sim: SimCfg, blobs: Vec<BlobSpec>, mut callers: Vec<Caller>) -> Plan {
    let mut r = Rng::new(mix2(seed, 0x4e05));
    for c in callers.iter_mut() {
        c.reuse = r.chance(1, 2)
    }
    Plan { scn: "ops".into(), prop: prop.into(), seed, sim, blobs, callers, ..Default::default() }
}
pub fn plan(prop: &str, seed: u64, tier: &str) -> Plan {
    let mut rr = Rng::new(mix2(seed, 0xd15c));
    let r = &mut rr;
    let deep = tier == "thorough";
    let one = |steps: Vec<Step>| vec![Caller { pool: 0, reuse: false, steps }];
    match prop {
        #[cfg(feature = "blocks")]
        "C16" => crate::blocks::plan(r, seed, deep),
        "C01" | "C02" | "C03" | "C04" => {
            let netp = match prop {
                "C01" => 35,
                "C02" => 20,
                _ => 30,
            };
            if r.below(100) < netp {
                let (n, b) = net_plan(r, prop);
                let sim = sim_cfg(r, 1);
                return Plan { scn: "net".into(), prop: prop.into(), seed, sim, blobs: b, net: Some(n), ..Default::default() };
            }
            let nb = match prop {
                "C01" => 1 + r.idx(2),
                "C02" => 2 + r.idx(2),
                _ => 1 + r.idx(5),
            };
            let bl = blobs(r, nb);
            let tau = world().tau().is_some();
            let mut steps: Vec<Step> = match prop {
                "C01" => (0..3).map(|_| call(recover_op(r, nb))).collect(),
                "C02" => (0..if deep { 12 } else { 8 }).map(|_| call(if r.chance(1, 12) { recover_op(r, nb) } else { bad_recover(r, nb) })).collect(),
                "C03" => (0..12).map(|i| call(if i == 0 && tau && r.chance(1, 6) { Op::Verify { ctx: r.below(nctx()) as usize, items: big_batch(r, nb), atk: None, cut: [0; 4] } } else if r.chance(1, 40) { bad_verify(r, nb) } else { good_verify(r, nb) })).collect(),
                _ => (0..24).map(|_| call(if r.chance(1, 20) { good_verify(r, nb) } else { bad_verify(r, nb) })).collect::<Vec<_>>(),
            };
            match prop {
                "C04" => {
                    // gossip repeats itself: accepted batches come again, altered
                    for i in 1..steps.len() {
                        if r.chance(1, 8) {
                            let op = if r.chance(1, 2) { good_verify(r, nb) } else { Op::Verify { ctx: 0, items: (0..1 + r.idx(3)).map(|_| good(r.idx(nb), r.idx(CELLS))).collect(), atk: None, cut: [0; 4] } };
                            let mut next = again(r, nb, &op);
                            let c = r.below(nctx()) as usize;
                            set_ctx(&mut next, c);
                            let mut op = op;
                            set_ctx(&mut op, c);
                            steps[i - 1] = call(op);
                            steps[i] = call(next);
                        }
                    }
                    echoes(r, nb, &mut steps)
                }
                "C02" if r.chance(1, 2) => {
                    // a genuine set first, then the same indices with something wrong
                    let mut items = vec![];
                    while items.len() <= 64 {
                        items = survivors(r).into_iter().map(|k| good(0, k)).collect();
                    }
                    let op = Op::Recover { ctx: r.below(nctx()) as usize, items, cut: [0, 0], dup: [0, 0] };
                    let n = steps.len();
                    for i in 0..3.min(n - 1) {
                        steps[n - 1 - i] = call(again(r, nb, &op))
                    }
                    steps[n - 4.min(n)] = call(op);
                }
                "C03" => echoes(r, nb, &mut steps),
                _ => {}
            }
            let sim = sim_cfg(r, 1);
            ops_plan(prop, seed, sim, bl, one(steps))
        }
        "C05" => {
            if r.chance(1, 4) {
                // a few callers, a few inputs, over and over
                let nc = 2 + r.idx(3);
                let nb = 2;
                let bl = blobs(r, nb);
                let c = r.below(nctx()) as usize;
                let mut pool: Vec<Op> = (0..nb).map(|b| Op::Commit { ctx: c, b, m: vec![] }).collect();
                if r.chance(1, 2) {
                    let fresh = r.chance(1, 2);
                    if fresh {
                        pool.clear()
                    }
                    for _ in 0..3 {
                        let op = small_op(r, nb, 40);
                        pool.push(again(r, nb, &op));
                        pool.push(op);
                    }
                }
                let m = 4 + r.idx(6);
                let callers = (0..nc)
                    .map(|_| Caller {
                        reuse: false,
                        pool: 0,
                        steps: (0..m)
                            .map(|_| {
                                let mut op = r.pick(&pool).clone();
                                set_ctx(&mut op, c);
                                call(op)
                            })
                            .collect(),
                    })
                    .collect();
                let mut sim = sim_cfg(r, nc as u32);
                if sim.policy == 0 {
                    sim.policy = 1
                }
                sim.rare_denom = *r.pick(&[20u32, 60, 200]);
                return ops_plan(prop, seed, sim, bl, callers);
            }
            let nc = 2 + r.idx(if deep { 5 } else { 4 });
            let nb = 1 + r.idx(3);
            let bl = blobs(r, nb);
            let shared = r.chance(2, 3);
            let c0 = r.below(nctx()) as usize;
            let (heavy, hostile) = (*r.pick(&[10u64, 40, 90]), *r.pick(&[0u64, 20, 50]));
            let budget = if deep { 8 } else { 5 };
            let mut hv = 0;
            // often the callers do the same few things at once
            let common: Vec<Op> = if r.chance(1, 2) {
                let d = 2 + r.idx(2);
                let same = r.chance(1, 2);
                (0..d)
                    .map(|_| if same { recover_op(r, nb) } else { any_op(r, nb, 60, hostile / 2) })
                    .collect()
            } else {
                vec![]
            };
            let callers = (0..nc)
                .map(|_| {
                    let m = 1 + r.idx(3);
                    Caller {
                        reuse: false,
                        pool: if r.chance(1, 6) { 1 + r.below(3) as u32 } else { 0 },
                        steps: (0..m)
                            .map(|_| {
                                let h = if hv >= budget { 0 } else { heavy };
                                let mut op = if !common.is_empty() && hv < budget && r.chance(4, 5) { r.pick(&common).clone() } else { any_op(r, nb, h, hostile) };
                                if matches!(op, Op::Compute { .. } | Op::Recover { .. }) {
                                    hv += 1
                                }
                                if shared {
                                    set_ctx(&mut op, c0)
                                }
                                call(op)
                            })
                            .collect(),
                    }
                })
                .collect();
            let mut sim = sim_cfg(r, nc as u32);
            if sim.policy == 0 {
                sim.policy = 1
            }
            ops_plan(prop, seed, sim, bl, callers)
        }
        "C06" => {
            let nb = 1 + r.idx(2);
            let bl = blobs(r, nb);
            let mut steps = vec![];
            if r.chance(1, 6) && world().tau().is_some() {
                // a context deployed in yet another way, built here
                let spec = CtxSpec { threads: *r.pick(&[-1i64, 0, 1, 2, 3, 5, 16, 33]), width: *r.pick(&[0u64, 2, 3, 4, 5, 6, 7]), ncpu: 0 };
                let ops = vec![
                    Op::Compute { ctx: 0, b: 0, m: vec![] },
                    Op::Commit { ctx: 0, b: 0, m: vec![] },
                    good_verify(r, nb),
                    bad_verify(r, nb),
                    recover_op(r, nb),
                ];
                steps.push(Step::New { spec, ops, spawn: None, alloc: None, away: r.chance(1, 3) });
            } else {
                let base: Vec<Op> = (0..2)
                    .map(|i| match r.below(8) {
                        0..=3 => Op::Compute { ctx: 0, b: i % nb, m: vec![] },
                        4 => recover_op(r, nb),
                        5 => good_verify(r, nb),
                        6 => bad_verify(r, nb),
                        _ => Op::Compute { ctx: 0, b: i % nb, m: bmuts(r) },
                    })
                    .collect();
                for mut op in base {
                    for c in 0..nctx() as usize {
                        set_ctx(&mut op, c);
                        steps.push(call(op.clone()));
                    }
                }
                for c in 0..nctx() as usize {
                    for b in 0..nb {
                        steps.push(call(Op::Commit { ctx: c, b, m: vec![] }));
                    }
                }
            }
            let sim = sim_cfg(r, 1);
            ops_plan(prop, seed, sim, bl, one(steps))
        }
        "C07" => {
            let nb = 2 + r.idx(2);
            let bl = blobs(r, nb);
            let c0 = r.below(nctx()) as usize;
            let nc = if r.chance(1, 5) { 2 } else { 1 };
            let heavy = *r.pick(&[5u64, 20, 40]);
            let long = r.chance(1, 6);
            let callers = (0..nc)
                .map(|ci| {
                    let mut steps: Vec<Step> = vec![];
                    if long && ci == 0 {
                        // a long history
                        let hostile = *r.pick(&[60u64, 90, 100]);
                        for _ in 0..*r.pick(&[40usize, 70, 140, 270]) {
                            let mut op = small_op(r, nb, hostile);
                            set_ctx(&mut op, c0);
                            steps.push(call(op))
                        }
                    } else {
                    for _ in 0..10 + r.idx(8) {
                        let mut op = any_op(r, nb, heavy, 80);
                        set_ctx(&mut op, c0);
                        steps.push(call(op))
                    }
                    }
                    echoes(r, nb, &mut steps);
                    for s in steps.iter_mut() {
                        if let Step::Call { op, .. } = s {
                            set_ctx(op, c0)
                        }
                    }
                    // what a fresh context would say
                    for _ in 0..2 {
                        let mut op = any_op(r, nb, 50, 0);
                        set_ctx(&mut op, c0);
                        steps.push(call(op))
                    }
                    Caller { pool: 0, reuse: false, steps }
                })
                .collect();
            let sim = sim_cfg(r, nc as u32);
            ops_plan(prop, seed, sim, bl, callers)
        }
        "C09" => {
            let nb = 1 + r.idx(2);
            let bl = blobs(r, nb);
            if r.chance(1, 5) {
                // several callers do the same heavy thing on the same pool at once
                let nc = 2 + r.idx(3);
                let c = r.below(nctx()) as usize;
                let k = r.below(4);
                let callers = (0..nc)
                    .map(|i| {
                        let mut steps = vec![];
                        for _ in 0..if i < 2 { 1 + r.idx(2) } else { 1 } {
                            let mut op = match k {
                                0 | 1 => Op::Compute { ctx: c, b: r.idx(nb), m: vec![] },
                                2 => recover_op(r, nb),
                                _ => any_op(r, nb, 60, 10),
                            };
                            set_ctx(&mut op, c);
                            steps.push(call(op));
                        }
                        Caller { pool: if r.chance(1, 5) { 1 + r.below(3) as u32 } else { 0 }, reuse: false, steps }
                    })
                    .collect();
                let mut sim = sim_cfg(r, nc as u32);
                sim.stall_denom = *r.pick(&[0u32, 0, 100]);
                if sim.policy == 0 {
                    sim.policy = 1
                }
                return ops_plan(prop, seed, sim, bl, callers);
            }
            if r.chance(1, 6) {
                // many callers at once, cheap calls
                let nc = 5 + r.idx(12);
                let c = r.below(nctx()) as usize;
                let m = if nc < 9 { 1 + r.idx(3) } else { 1 };
                let commits = r.chance(1, 3);
                let callers: Vec<Caller> = (0..nc)
                    .map(|_| Caller {
                        reuse: false,
                        pool: if r.chance(1, 8) { 1 + r.below(3) as u32 } else { 0 },
                        steps: (0..m)
                            .map(|_| {
                                let mut op = if commits || r.chance(1, 10) { Op::Commit { ctx: 0, b: r.idx(nb), m: vec![] } } else { small_op(r, nb, 30) };
                                set_ctx(&mut op, c);
                                call(op)
                            })
                            .collect(),
                    })
                    .collect();
                let mut sim = sim_cfg(r, nc as u32);
                sim.stall_denom = *r.pick(&[0u32, 0, 100]);
                if sim.policy == 0 {
                    sim.policy = 1
                }
                return ops_plan(prop, seed, sim, bl, callers);
            }
            let nc = 1 + r.idx(4);
            let mut drop_world = vec![];
            for c in 0..nctx() as usize {
                if r.chance(1, 2) {
                    drop_world.push(c)
                }
            }
            let mut built = 0;
            let mut hv = 0;
            let callers = (0..nc)
                .map(|_| {
                    let mut steps = vec![];
                    for _ in 0..1 + r.idx(4) {
                        match r.below(10) {
                            0 | 1 => steps.push(Step::Drop { ctx: r.below(nctx()) as usize }),
                            2 => steps.push(Step::Pause { ns: r.below(5_000_000) }),
                            3 if built == 0 && r.chance(1, 3) => {
                                built += 1;
                                steps.push(Step::New {
                                    spec: CtxSpec { threads: *r.pick(&[-1i64, 0, 1, 2, 4, 12]), width: *r.pick(&[0u64, 0, 2]), ncpu: 0 },
                                    ops: (0..r.below(3)).map(|_| any_op(r, nb, 20, 30)).collect(),
                                    spawn: None,
                                    alloc: None,
                                    away: r.chance(1, 2),
                                })
                            }
                            _ => {
                                let op = any_op(r, nb, if hv < 3 { 25 } else { 0 }, 30);
                                if matches!(op, Op::Compute { .. } | Op::Recover { .. }) {
                                    hv += 1
                                }
                                steps.push(call(op))
                            }
                        }
                    }
                    Caller { pool: if r.chance(2, 5) { 1 + r.below(3) as u32 } else { 0 }, reuse: false, steps }
                })
                .collect();
            let mut sim = sim_cfg(r, nc as u32);
            sim.stall_denom = *r.pick(&[0u32, 20, 100]);
            let mut p = ops_plan(prop, seed, sim, bl, callers);
            p.drop_world = drop_world;
            p
        }
        "C10" => {
            let nb = 1 + r.idx(2);
            let bl = blobs(r, nb);
            let mut steps = vec![];
            let alloc = r.chance(3, 5);
            let probe = |r: &mut Rng, steps: &mut Vec<Step>| {
                let n = nctx() as usize;
                let c = r.idx(n);
                steps.push(call(Op::Commit { ctx: c, b: 0, m: vec![] }));
                let mut o = any_op(r, nb, 40, 30);
                set_ctx(&mut o, c);
                steps.push(call(o));
            };
            if !alloc {
                // thread creation refused
                let win = match r.below(4) {
                    0 => (1, 2),
                    1 => (1, u64::MAX),
                    2 => {
                        let a = 1 + if r.chance(1, 3) { r.below(80) } else { r.below(8) };
                        (a, a + 1 + r.below(3))
                    }
                    _ => (1 + r.below(4), u64::MAX),
                };
                // blst's own pool, if it must be started by a call with threads refused, stays broken for good
                // (known finding, replayed separately): with that pool not started yet, only constructions are refused
                if !world().tpl.prestart || r.chance(1, 2) {
                    let width = *r.pick(&[0u64, 0, 2, 3]);
                    let mut ops = vec![Op::Commit { ctx: 0, b: 0, m: vec![] }, good_verify(r, nb)];
                    if width > 0 || r.chance(1, 4) {
                        ops.insert(0, Op::Compute { ctx: 0, b: 0, m: vec![] });
                    }
                    steps.push(Step::New { spec: CtxSpec { threads: *r.pick(&[-1i64, 0, 1, 2, 4, 8]), width, ncpu: 0 }, ops, spawn: Some(win), alloc: None, away: r.chance(1, 2) });
                    probe(r, &mut steps);
                    // the resource is back
                    if r.chance(1, 2) {
                        steps.push(Step::New { spec: CtxSpec { threads: 2, width: 0, ncpu: 0 }, ops: vec![Op::Commit { ctx: 0, b: 0, m: vec![] }, good_verify(r, nb)], spawn: None, alloc: None, away: r.chance(1, 2) });
                    }
                } else {
                    let heavy = *r.pick(&[10u64, 40]);
                    for _ in 0..5 {
                        steps.push(Step::Call { op: any_op(r, nb, heavy, 50), spawn: Some(win), alloc: None, x: Value::Null });
                    }
                    probe(r, &mut steps);
                }
            } else {
                let min = *r.pick(&[0u64, 0, 0, 1000, 5000, 30000, 100_000]);
                let from = match r.below(4) {
                    0 => r.below(8),
                    1 => r.below(60),
                    2 => r.below(600),
                    _ => r.below(4000),
                };
                let to = from + *r.pick(&[1u64, 1, 2, 1_000_000_000]);
                if r.chance(1, 6) {
                    steps.push(Step::New { spec: CtxSpec { threads: 2, width: *r.pick(&[0u64, 2]), ncpu: 0 }, ops: vec![Op::Commit { ctx: 0, b: 0, m: vec![] }, Op::Compute { ctx: 0, b: 0, m: vec![] }], spawn: None, alloc: Some((from, to, min)), away: r.chance(1, 2) });
                } else {
                    steps.push(Step::Call { op: any_op(r, nb, 50, 20), spawn: None, alloc: Some((from, to, min)), x: Value::Null });
                }
                probe(r, &mut steps);
            }
            let mut callers = one(steps);
            if r.chance(1, 3) && (alloc || world().tpl.prestart) {
                let mut s = vec![];
                probe(r, &mut s);
                callers.push(Caller { pool: 0, reuse: false, steps: s });
            }
            let n = callers.len() as u32;
            let sim = sim_cfg(r, n);
            ops_plan(prop, seed, sim, bl, callers)
        }
        #[cfg(feature = "mt")]
        "C08" => crate::capi::plan(r, seed, tier),
        "C11" => crate::setup::plan(r, seed, tier),
        #[cfg(feature = "mt")]
        "C12" => crate::java::plan(r, seed, tier),
        #[cfg(feature = "mt")]
        "C14" => crate::node::plan(r, seed, tier),
        _ => Plan { extra: Value::Null, ..Default::default() },
    }
}
