//! Calls on the library as data: descriptors, their concrete arguments, what the model says they must
//! return, and the judgement of what they did return.
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;
use blstrs::{G1Affine, G1Projective, Scalar};
use ff::Field;
use group::Group;
use rust_eth_kzg::DASContext;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct BlobSpec {
    pub k: u32,
    pub s: u64,
}
/// part: 0 commitment, 1 index, 2 cell, 3 proof
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "m")]
pub enum Mut {
    Flip { part: u8, bit: u64 },
    From { part: u8, b: usize, k: usize },        // the same part of another genuine tuple
    Idx { v: u64 },                               // index replaced
    Add { j: usize, s: u64 },                     // field element j += s (s != 0)
    NonCanon { j: usize, kind: u32 },             // field element j replaced by a non-canonical encoding
    PAdd { part: u8, s: u64 },                    // point += s*G
    Torsion { part: u8, s: u64 },                 // point += point outside the subgroup
    Neg { part: u8 },
    Inf { part: u8 },
    Enc { part: u8, kind: u32, s: u64 },          // other encodings that are not the canonical compressed point
    Swap { part: u8 },                            // bytes reversed
    Zero { part: u8 },
    Scale { s: u64 }, // commitment, cell and proof times s: still true, another commitment
    Poly { d: u64, s: u64 }, // cell += s*x^d on its points
    All { s: u64 },   // the same amount added to every element
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(default)]
pub struct Item {
    pub b: usize,
    pub k: usize,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub m: Vec<Mut>,
}
/// Coordinated forgery applied to a whole batch
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "a")]
pub enum Attack {
    /// errors in tuples x and y that cancel if their weights are equal up to sign
    Pair { x: usize, y: usize, px: u8, py: u8, s: u64, neg: bool },
    /// errors that cancel under the challenge computed from a transcript in which component `part`
    /// of the tuples selected by `sel` is missing
    Weak { part: u8, sel: u32, t: usize, x: usize, px: u8, y: usize, s: u64 },
    /// errors that cancel if the challenge is the constant c (c-th small value), weights c^k
    Const { c: u64, shift: u64, x: usize, px: u8, y: usize, py: u8, s: u64 },
    /// all tuples scaled/errored so that the plain sum of contributions vanishes
    Sum { px: u8, s: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "m")]
pub enum BMut {
    NonCanon { j: usize, kind: u32 },
    Flip { bit: u64 },
    Set { j: usize, s: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "op")]
pub enum Op {
    Commit { ctx: usize, b: usize, #[serde(default, skip_serializing_if = "Vec::is_empty")] m: Vec<BMut> },
    Compute { ctx: usize, b: usize, #[serde(default, skip_serializing_if = "Vec::is_empty")] m: Vec<BMut> },
    Recover { ctx: usize, items: Vec<Item>, #[serde(default)] cut: [u32; 2], #[serde(default)] dup: [u32; 2] },
    Verify { ctx: usize, items: Vec<Item>, #[serde(default, skip_serializing_if = "Option::is_none")] atk: Option<Attack>, #[serde(default)] cut: [u32; 4] },
}
impl Op {
    pub fn ctx(&self) -> usize {
        match self {
            Op::Commit { ctx, .. } | Op::Compute { ctx, .. } | Op::Recover { ctx, .. } | Op::Verify { ctx, .. } => *ctx,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Commit { .. } => "commit",
            Op::Compute { .. } => "compute",
            Op::Recover { .. } => "recover",
            Op::Verify { .. } => "verify",
        }
    }
}
pub type B48 = [u8; 48];
pub type BCell = Box<[u8; CELL_BYTES]>;
pub enum Raw {
    Commit(Box<[u8; BLOB_BYTES]>),
    Compute(Box<[u8; BLOB_BYTES]>),
    Recover(Vec<u64>, Vec<BCell>),
    Verify(Vec<B48>, Vec<u64>, Vec<BCell>, Vec<B48>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    InvalidProof,
    InputError,
}
pub enum Expect {
    Commit(Option<B48>),
    Arts(Option<Arc<Art>>, bool), // bool: recovery
    Verify(Verdict, bool),        // bool: some tuple was forged (false/malformed), for attribution
}
pub enum Out {
    Commit(Result<B48, String>),
    Arts(Result<(Vec<BCell>, Vec<B48>), String>),
    Verify(Verdict, String),
    Panic(String),
}
#[derive(Serialize, Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub class: String,
    pub detail: String,
}
pub fn viol(props: &[&'static str], class: &str, detail: String) -> Viol {
    Viol { props: props.to_vec(), class: class.into(), detail }
}

pub struct Tables {
    pub blobs: Vec<BlobSpec>,
    arts: Vec<Option<Arc<Art>>>,
}
impl Tables {
    pub fn new(blobs: &[BlobSpec]) -> Tables {
        Tables { blobs: blobs.to_vec(), arts: vec![None; blobs.len()] }
    }
    pub fn art(&mut self, b: usize) -> Arc<Art> {
        let b = b % self.blobs.len().max(1);
        if self.arts[b].is_none() {
            self.arts[b] = Some(world().art(self.blobs[b].k, self.blobs[b].s));
        }
        self.arts[b].clone().unwrap()
    }
}
const R_BE: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
fn add_be(a: &mut [u8], b: &[u8]) -> bool {
    let mut c = 0u16;
    for i in (0..a.len()).rev() {
        let t = a[i] as u16 + b[i] as u16 + c;
        a[i] = t as u8;
        c = t >> 8;
    }
    c != 0
}
/// a 32-byte string that is not a canonical field element, related to the one that was there
pub fn noncanon(old: &[u8], kind: u32) -> [u8; 32] {
    let mut o: [u8; 32] = old.try_into().unwrap();
    match kind % 8 {
        0 => {
            add_be(&mut o, &R_BE);
        } // same residue
        1 => o = R_BE,
        2 => {
            o = R_BE;
            o[31] = 2;
        }
        3 => o = [0xff; 32],
        4 => {
            o[0] |= 0x80;
        }
        5 => {
            add_be(&mut o, &R_BE);
            let mut p = o;
            if !add_be(&mut p, &R_BE) {
                o = p;
            }
        } // old + 2r when it fits
        6 => {
            o = [0; 32];
            o[0] = 0x80;
        }
        _ => {
            o = R_BE;
            o[0] = 0x74;
        }
    }
    o
}
const P_BE: [u8; 48] = [
    0x1a, 0x01, 0x11, 0xea, 0x39, 0x7f, 0xe6, 0x9a, 0x4b, 0x1b, 0xa7, 0xb6, 0x43, 0x4b, 0xac, 0xd7, 0x64, 0x77, 0x4b, 0x84, 0xf3, 0x85, 0x12, 0xbf, 0x67, 0x30, 0xd2, 0xa0, 0xf6, 0xb0, 0xf6, 0x24, 0x1e, 0xab, 0xff, 0xfe, 0xb1, 0x53, 0xff, 0xff, 0xb9, 0xfe, 0xff, 0xff,
    0xff, 0xff, 0xaa, 0xab,
];
pub fn enc_pub(old: &B48, kind: u32, s: u64) -> B48 {
    enc(old, kind, s)
}
fn enc(old: &B48, kind: u32, s: u64) -> B48 {
    let mut o = *old;
    match kind % 12 {
        0 => {
            // x + p under the same flags, when it still fits in 381 bits
            let fl = o[0] & 0xe0;
            o[0] &= 0x1f;
            add_be(&mut o, &P_BE);
            o[0] = (o[0] & 0x1f) | fl;
        }
        1 => o[0] &= 0x7f,                       // compression flag cleared
        2 => o[0] ^= 0x40,                       // infinity flag toggled
        3 => o[0] ^= 0x20,                       // sign flag toggled (negation)
        4 => { o = [0; 48]; o[0] = 0xe0; }       // infinity with sign
        5 => { o = [0; 48]; o[0] = 0xc0; o[1 + (s % 47) as usize] = 1; } // infinity with junk
        6 => { o = [0; 48]; o[0] = 0xc0; o[0] |= 1 << (s % 5); }
        7 => { o = P_BE; o[0] |= 0x80; }         // x = p
        8 => { o = [0; 48]; o[0] = 0x80; }       // x = 0
        9 => { o = [0; 48]; o[0] = 0x40; }       // uncompressed infinity
        10 => { Rng::new(s).bytes(&mut o); o[0] |= 0x80; o[0] &= 0xbf; }  // random x
        _ => { o = [0xff; 48]; }
    }
    o
}
fn dec_any(b: &B48) -> G1Projective {
    Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(b)).map(G1Projective::from).unwrap_or_else(G1Projective::identity)
}
fn small(s: u64) -> Scalar {
    if s < 1000 { Scalar::from(s + 1) } else { scalar_from(&mut Rng::new(s)) }
}
#[derive(Clone)]
pub struct Tup {
    pub c: B48,
    pub i: u64,
    pub cell: BCell,
    pub p: B48,
    pub genuine: bool,
    pub err: Scalar, // log of C - I(tau)G - Z(tau)proof, tracked through `apply`
}
pub fn build_tuple(t: &mut Tables, it: &Item) -> Tup {
    let a = t.art(it.b);
    let k = it.k % CELLS;
    let mut u = Tup { c: a.c, i: k as u64, cell: a.cells[k].clone(), p: a.proofs[k], genuine: it.m.is_empty(), err: Scalar::ZERO };
    for m in &it.m {
        match m {
            Mut::Flip { part, bit } => match part {
                0 => u.c[(*bit / 8 % 48) as usize] ^= 1 << (bit % 8),
                1 => u.i ^= 1 << (bit % 64),
                2 => u.cell[(*bit / 8 % 2048) as usize] ^= 1 << (bit % 8),
                _ => u.p[(*bit / 8 % 48) as usize] ^= 1 << (bit % 8),
            },
            Mut::From { part, b, k } => {
                let o = t.art(*b);
                let k = *k % CELLS;
                match part {
                    0 => u.c = o.c,
                    1 => u.i = k as u64,
                    2 => u.cell = o.cells[k].clone(),
                    _ => u.p = o.proofs[k],
                }
            }
            Mut::Idx { v } => u.i = *v,
            Mut::Add { j, s } => add_elem(&mut u.cell, *j, &small(*s)),
            Mut::NonCanon { j, kind } => {
                let j = j % PER_CELL * 32;
                let n = noncanon(&u.cell[j..j + 32], *kind);
                u.cell[j..j + 32].copy_from_slice(&n)
            }
            Mut::PAdd { part, s } => {
                let p = if *part == 0 { &mut u.c } else { &mut u.p };
                *p = compress(&(dec_any(p) + g1_mul_gen(&small(*s))));
            }
            Mut::Torsion { part, s } => {
                let p = if *part == 0 { &mut u.c } else { &mut u.p };
                *p = compress(&(dec_any(p) + torsion_point(&mut Rng::new(*s))));
            }
            Mut::Neg { part } => {
                let p = if *part == 0 { &mut u.c } else { &mut u.p };
                *p = compress(&-dec_any(p));
            }
            Mut::Inf { part } => {
                let p = if *part == 0 { &mut u.c } else { &mut u.p };
                *p = [0; 48];
                p[0] = 0xc0;
            }
            Mut::Enc { part, kind, s } => {
                let p = if *part == 0 { &mut u.c } else { &mut u.p };
                *p = enc(p, *kind, *s);
            }
            Mut::Swap { part } => match part {
                0 => u.c.reverse(),
                1 => u.i = u.i.swap_bytes(),
                2 => u.cell.reverse(),
                _ => u.p.reverse(),
            },
            Mut::Scale { s } => {
                let f = small(*s);
                u.c = compress(&(dec_any(&u.c) * f));
                u.p = compress(&(dec_any(&u.p) * f));
                for j in 0..PER_CELL {
                    let b: [u8; 32] = u.cell[j * 32..j * 32 + 32].try_into().unwrap();
                    if let Some(x) = Option::<Scalar>::from(Scalar::from_bytes_be(&b)) {
                        u.cell[j * 32..j * 32 + 32].copy_from_slice(&(x * f).to_bytes_be());
                    }
                }
            }
            Mut::Poly { d, s } => {
                let f = if *s % 2 == 0 { small(*s / 2) } else { -small(*s / 2) };
                for j in 0..PER_CELL {
                    add_elem(&mut u.cell, j, &(pow(points()[k * PER_CELL + j], *d) * f));
                }
            }
            Mut::All { s } => (0..PER_CELL).for_each(|j| add_elem(&mut u.cell, j, &small(*s))),
            Mut::Zero { part } => match part {
                0 => u.c = [0; 48],
                1 => u.i = 0,
                2 => u.cell.fill(0),
                _ => u.p = [0; 48],
            },
        }
    }
    u
}
fn add_elem(cell: &mut BCell, j: usize, d: &Scalar) {
    let j = j % PER_CELL * 32;
    let b: [u8; 32] = cell[j..j + 32].try_into().unwrap();
    if let Some(s) = Option::<Scalar>::from(Scalar::from_bytes_be(&b)) {
        cell[j..j + 32].copy_from_slice(&(s + d).to_bytes_be());
    }
}
/// contribution of an error `d` placed in a part of tuple u to its own equation C - I(tau) - Z(tau) proof,
/// for a unit of that part; the part is then changed by `amount`
fn unit(tau: &Tau, u: &Tup, part: u8, j: usize) -> Scalar {
    let i = (u.i as usize) % CELLS;
    match part {
        0 => Scalar::ONE,
        2 => {
            let mut e = vec![Scalar::ZERO; PER_CELL];
            e[j % PER_CELL] = Scalar::ONE;
            -tau.eval_cell(i, &e)
        }
        _ => -tau.z(i),
    }
}
fn apply(tau: &Tau, u: &mut Tup, part: u8, j: usize, amount: &Scalar) {
    u.err += unit(tau, u, part, j) * amount;
    match part {
        0 => u.c = compress(&(dec_any(&u.c) + g1_mul_gen(amount))),
        2 => add_elem(&mut u.cell, j, amount),
        _ => u.p = compress(&(dec_any(&u.p) + g1_mul_gen(amount))),
    }
    u.genuine = false;
}
fn selected(sel: u32, t: usize, k: usize, n: usize, y: usize) -> bool {
    match sel % 10 {
        0 => true,
        1 => k == y,
        2 => k > 0,
        3 => k + 1 < n,
        4 => k >= t,
        5 => k < t,
        6 => k % 2 == 1,
        7 => k % 2 == 0,
        8 => k + 1 == n,
        _ => k == 0,
    }
}
/// the challenge a verifier would compute if `part` of the selected tuples were left out of the transcript.
/// part 2 variants: 2 whole cell, 12 all but its first element, 22 all but the last, 32 the second half
pub fn challenge(u: &[Tup], omit: Option<(u8, u32, usize, usize)>) -> Scalar {
    let n = u.len();
    let om = |p: u8, k: usize| matches!(omit, Some((q, sel, t, y)) if q == p && selected(sel, t, k, n, y));
    let mut dedup: Vec<(B48, usize)> = vec![];
    let mut rows = vec![];
    for (k, x) in u.iter().enumerate() {
        match dedup.iter().position(|d| d.0 == x.c) {
            Some(i) => rows.push(i),
            None => {
                rows.push(dedup.len());
                dedup.push((x.c, k));
            }
        }
    }
    let mut h = Vec::new();
    h.extend_from_slice(b"RCKZGCBATCH__V1_");
    h.extend_from_slice(&4096u64.to_be_bytes());
    h.extend_from_slice(&64u64.to_be_bytes());
    h.extend_from_slice(&(dedup.len() as u64).to_be_bytes());
    h.extend_from_slice(&(n as u64).to_be_bytes());
    for d in &dedup {
        if !om(0, d.1) {
            h.extend_from_slice(&d.0);
        }
    }
    for (k, x) in u.iter().enumerate() {
        if !om(10, k) {
            h.extend_from_slice(&(rows[k] as u64).to_be_bytes());
        }
        if !om(1, k) {
            h.extend_from_slice(&x.i.to_be_bytes());
        }
        for j in 0..PER_CELL {
            let skip = om(2, k) || (om(12, k) && j > 0) || (om(22, k) && j == 63) || (om(32, k) && j >= 32) || (om(42, k) && j < 32) || (om(52, k) && j % 2 == 1) || (om(62, k) && j % 2 == 0) || om(100 + j as u8, k);
            if !skip {
                h.extend_from_slice(&x.cell[j * 32..j * 32 + 32]);
            }
        }
        if !om(3, k) {
            h.extend_from_slice(&x.p);
        }
    }
    let d = Sha256::digest(&h);
    // reduce the 256-bit big-endian integer mod r
    let mut acc = Scalar::ZERO;
    let b = Scalar::from(256u64);
    for x in d.iter() {
        acc = acc * b + Scalar::from(*x as u64);
    }
    acc
}
pub fn run_attack(u: &mut Vec<Tup>, a: &Attack) {
    let Some(tau) = world().tau() else { return };
    let n = u.len();
    if n == 0 {
        return;
    }
    let fix = |p: u8| match p {
        0 => 0u8,
        3 => 3,
        _ => 2,
    };
    match a {
        Attack::Pair { x, y, px, py, s, neg } => {
            let (x, y) = (x % n, y % n);
            if x == y {
                apply(tau, &mut u[x], fix(*px), *s as usize, &small(*s));
                return;
            }
            let (px, py) = (fix(*px), fix(*py));
            let d = small(*s);
            let e = unit(tau, &u[x], px, *s as usize) * d;
            let e = if *neg { e } else { -e };
            let dy = e * unit(tau, &u[y], py, 0).invert().unwrap();
            apply(tau, &mut u[x], px, *s as usize, &d);
            apply(tau, &mut u[y], py, 0, &dy);
        }
        Attack::Weak { part, sel, t, x, px, y, s } => {
            let (x, y) = (x % n, y % n);
            // tuple x carries an error in px (hashed or not); tuple y's omitted part absorbs it
            apply(tau, &mut u[x], fix(*px), *s as usize, &small(*s));
            if x == y && fix(*px) == fix(*part) {
                return;
            }
            let r = challenge(u, Some((*part, *sel, *t, y)));
            let mut e = Scalar::ZERO;
            for (k, v) in u.iter().enumerate() {
                e += pow(r, k as u64) * v.err;
            }
            let j = match part {
                12 => 1 + (*s as usize % 63),
                22 => 63,
                32 => 32 + (*s as usize % 32),
                42 => *s as usize % 32,
                52 => *s as usize % 32 * 2 + 1,
                62 => *s as usize % 32 * 2,
                100..=163 => *part as usize - 100,
                _ => *s as usize % 64,
            };
            let w = pow(r, y as u64) * unit(tau, &u[y], fix(*part), j);
            if let Some(wi) = Option::<Scalar>::from(w.invert()) {
                apply(tau, &mut u[y], fix(*part), j, &-(e * wi));
            }
        }
        Attack::Const { c, shift, x, px, y, py, s } => {
            let (x, y) = (x % n, y % n);
            if x == y {
                apply(tau, &mut u[x], fix(*px), *s as usize, &small(*s));
                return;
            }
            let r = Scalar::from(*c);
            apply(tau, &mut u[x], fix(*px), *s as usize, &small(*s));
            let e = pow(r, x as u64 + shift) * u[x].err;
            let w = pow(r, y as u64 + shift) * unit(tau, &u[y], fix(*py), 0);
            if let Some(wi) = Option::<Scalar>::from(w.invert()) {
                apply(tau, &mut u[y], fix(*py), 0, &-(e * wi));
            }
        }
        Attack::Sum { px, s } => {
            let p = fix(*px);
            let mut acc = Scalar::ZERO;
            let mut rng = Rng::new(*s);
            for k in 0..n {
                let d = scalar_from(&mut rng);
                if k + 1 < n {
                    acc += d * unit(tau, &u[k], p, 0);
                    apply(tau, &mut u[k], p, 0, &d);
                } else {
                    let dy = -acc * unit(tau, &u[k], p, 0).invert().unwrap();
                    apply(tau, &mut u[k], p, 0, &dy);
                }
            }
        }
    }
}

pub struct Prep {
    pub ctx: usize,
    pub raw: Raw,
    pub exp: Expect,
    pub name: &'static str,
}
fn cut<T>(v: &mut Vec<T>, n: u32) {
    let l = v.len().saturating_sub(n as usize);
    v.truncate(l);
}
/// the arguments only; what the call must return is established by calling the Rust interface
pub fn prep_raw(t: &mut Tables, op: &Op) -> Raw {
    unsafe { RAW_ONLY = true };
    let p = prep(t, op);
    unsafe { RAW_ONLY = false };
    p.raw
}
static mut RAW_ONLY: bool = false; // preparation is single-threaded
pub fn prep(t: &mut Tables, op: &Op) -> Prep {
    let raw_only = unsafe { RAW_ONLY };
    let (raw, exp) = match op {
        Op::Commit { b, m, .. } | Op::Compute { b, m, .. } => {
            let a = t.art(*b);
            let mut bytes = a.blob.clone();
            for x in m {
                match x {
                    BMut::NonCanon { j, kind } => {
                        let j = j % N * 32;
                        let n = noncanon(&bytes[j..j + 32], *kind);
                        bytes[j..j + 32].copy_from_slice(&n)
                    }
                    BMut::Flip { bit } => bytes[(*bit / 8) as usize % BLOB_BYTES] ^= 1 << (bit % 8),
                    BMut::Set { j, s } => bytes[j % N * 32..j % N * 32 + 32].copy_from_slice(&small(*s).to_bytes_be()),
                }
            }
            let art = if m.is_empty() { Some(a) } else if raw_only { None } else { parse_scalars(&bytes).map(|v| Arc::new(world().art_vals(v))) };
            let raw: Box<[u8; BLOB_BYTES]> = bytes.into_boxed_slice().try_into().unwrap();
            if let Op::Commit { .. } = op { (Raw::Commit(raw), Expect::Commit(art.map(|a| a.c))) } else { (Raw::Compute(raw), Expect::Arts(art, false)) }
        }
        Op::Recover { items, cut: c, dup, .. } => {
            let tup: Vec<_> = items.iter().map(|i| build_tuple(t, i)).collect();
            let mut idx: Vec<u64> = tup.iter().map(|u| u.i).collect();
            let mut cells: Vec<BCell> = tup.iter().map(|u| u.cell.clone()).collect();
            for k in 0..dup[0] as usize {
                if !tup.is_empty() { idx.push(tup[k % tup.len()].i); cells.push(tup[k % tup.len()].cell.clone()) }
            }
            for k in 0..dup[1] as usize {
                if !tup.is_empty() { cells.push(tup[k % tup.len()].cell.clone()) }
            }
            cut(&mut idx, c[0]);
            cut(&mut cells, c[1]);
            let refs: Vec<&[u8]> = cells.iter().map(|c| &c[..]).collect();
            // all genuine cells of one blob, distinct, enough: no need to decode
            let plain = items.iter().all(|i| i.m.is_empty() && i.b == items[0].b) && c == &[0, 0] && dup == &[0, 0] && idx.len() >= 64 && {
                let mut s = idx.clone();
                s.sort();
                s.dedup();
                s.len() == idx.len()
            };
            let art = if raw_only {
                None
            } else if plain {
                Some(t.art(items[0].b))
            } else {
                match recover(&idx, &refs) {
                    Rec::Ok(ext) => {
                        // one of the known blobs?
                        let mut found = None;
                        for b in 0..t.blobs.len() {
                            let a = t.art(b);
                            if a.vals[..] == ext[..N] {
                                found = Some(a);
                                break;
                            }
                        }
                        Some(found.unwrap_or_else(|| Arc::new(world().art_vals(ext[..N].to_vec()))))
                    }
                    _ => None,
                }
            };
            (Raw::Recover(idx, cells), Expect::Arts(art, true))
        }
        Op::Verify { items, atk, cut: c, .. } => {
            let mut tup: Vec<_> = items.iter().map(|i| build_tuple(t, i)).collect();
            if let Some(a) = atk {
                run_attack(&mut tup, a);
            }
            let mut cs: Vec<B48> = tup.iter().map(|u| u.c).collect();
            let mut is: Vec<u64> = tup.iter().map(|u| u.i).collect();
            let mut cells: Vec<BCell> = tup.iter().map(|u| u.cell.clone()).collect();
            let mut ps: Vec<B48> = tup.iter().map(|u| u.p).collect();
            cut(&mut cs, c[0]);
            cut(&mut is, c[1]);
            cut(&mut cells, c[2]);
            cut(&mut ps, c[3]);
            let forged = tup.iter().any(|u| !u.genuine);
            let v = if raw_only {
                Verdict::Accept
            } else if cs.len() != is.len() || cs.len() != cells.len() || cs.len() != ps.len() {
                Verdict::InputError
            } else {
                let mut v = Verdict::Accept;
                for u in &tup[..cs.len()] {
                    if u.genuine {
                        continue;
                    }
                    match world().truth(&u.c, u.i, &u.cell[..], &u.p) {
                        Truth::True => {}
                        Truth::False => v = Verdict::InvalidProof,
                        Truth::Malformed => {
                            v = Verdict::InputError;
                            break;
                        }
                    }
                }
                v
            };
            (Raw::Verify(cs, is, cells, ps), Expect::Verify(v, forged))
        }
    };
    Prep { ctx: op.ctx(), raw, exp, name: op.name() }
}
pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
pub fn raw_hash(r: &Raw) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    match r {
        Raw::Commit(b) | Raw::Compute(b) => h = fnv(h, &b[..]),
        Raw::Recover(i, c) => {
            for x in i { h = fnv(h, &x.to_le_bytes()) }
            for x in c { h = fnv(h, &x[..]) }
        }
        Raw::Verify(c, i, e, p) => {
            for x in c { h = fnv(h, x) }
            for x in i { h = fnv(h, &x.to_le_bytes()) }
            for x in e { h = fnv(h, &x[..]) }
            for x in p { h = fnv(h, x) }
        }
    }
    h
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
}
/// the call itself
pub fn run(ctx: &DASContext, raw: &Raw) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| match raw {
        Raw::Commit(b) => Out::Commit(ctx.blob_to_kzg_commitment(b).map_err(|e| crate::ops::short(&e))),
        Raw::Compute(b) => Out::Arts(ctx.compute_cells_and_kzg_proofs(b).map(|(c, p)| (c.into_iter().collect(), p.to_vec())).map_err(|e| short(&e))),
        Raw::Recover(i, c) => Out::Arts(ctx.recover_cells_and_kzg_proofs(i.clone(), c.iter().map(|x| &**x).collect()).map(|(c, p)| (c.into_iter().collect(), p.to_vec())).map_err(|e| short(&e))),
        Raw::Verify(c, i, e, p) => match ctx.verify_cell_kzg_proof_batch(c.iter().collect(), i.clone(), e.iter().map(|x| &**x).collect(), p.iter().collect()) {
            Ok(()) => Out::Verify(Verdict::Accept, String::new()),
            Err(e) if e.invalid_proof() => Out::Verify(Verdict::InvalidProof, short(&e)),
            Err(e) => Out::Verify(Verdict::InputError, short(&e)),
        },
    }));
    match r {
        Ok(o) => o,
        Err(e) => Out::Panic(panic_text(e)),
    }
}
/// A caller's own memory, in which it prepares one call after the other.
pub struct Bufs {
    blob: Option<Box<[u8; BLOB_BYTES]>>,
    cells: Vec<BCell>,
    spare: Vec<BCell>,
    idx: Vec<u64>,
    c: Vec<B48>,
    p: Vec<B48>,
}
impl Bufs {
    pub fn new() -> Bufs {
        Bufs { blob: Some(vec![0u8; BLOB_BYTES].into_boxed_slice().try_into().ok().unwrap()), cells: vec![], spare: vec![], idx: Vec::with_capacity(600), c: Vec::with_capacity(600), p: Vec::with_capacity(600) }
    }
    fn cells(&mut self, v: &[BCell]) -> Vec<BCell> {
        while self.cells.len() > v.len() {
            self.spare.push(self.cells.pop().unwrap())
        }
        while self.cells.len() < v.len() {
            self.cells.push(self.spare.pop().unwrap_or_else(|| vec![0u8; CELL_BYTES].into_boxed_slice().try_into().ok().unwrap()))
        }
        for (a, b) in self.cells.iter_mut().zip(v) {
            a.copy_from_slice(&b[..])
        }
        std::mem::take(&mut self.cells)
    }
    /// the same arguments, in this memory
    pub fn load(&mut self, raw: &Raw) -> Raw {
        let fill = |v: &mut Vec<B48>, w: &[B48]| {
            let mut v = std::mem::take(v);
            v.clear();
            v.extend_from_slice(w);
            v
        };
        let ints = |v: &mut Vec<u64>, w: &[u64]| {
            let mut v = std::mem::take(v);
            v.clear();
            v.extend_from_slice(w);
            v
        };
        match raw {
            Raw::Commit(b) | Raw::Compute(b) => {
                let mut x = self.blob.take().unwrap();
                x.copy_from_slice(&b[..]);
                if matches!(raw, Raw::Commit(_)) { Raw::Commit(x) } else { Raw::Compute(x) }
            }
            Raw::Recover(i, c) => Raw::Recover(ints(&mut self.idx, i), self.cells(c)),
            Raw::Verify(c, i, e, p) => Raw::Verify(fill(&mut self.c, c), ints(&mut self.idx, i), self.cells(e), fill(&mut self.p, p)),
        }
    }
    pub fn back(&mut self, raw: Raw) {
        match raw {
            Raw::Commit(b) | Raw::Compute(b) => self.blob = Some(b),
            Raw::Recover(i, c) => {
                self.idx = i;
                self.cells = c
            }
            Raw::Verify(c, i, e, p) => {
                self.c = c;
                self.idx = i;
                self.cells = e;
                self.p = p
            }
        }
    }
}
pub fn short(e: &rust_eth_kzg::Error) -> String {
    let mut s = format!("{e:?}");
    s.truncate(120);
    s
}
/// hash of everything observable about the outcome (not error texts)
pub fn out_hash(o: &Out) -> u64 {
    let h = 0xcbf29ce484222325u64;
    match o {
        Out::Commit(Ok(c)) => fnv(h, c),
        Out::Arts(Ok((c, p))) => {
            let mut h = h;
            for x in c { h = fnv(h, &x[..]) }
            for x in p { h = fnv(h, x) }
            h
        }
        Out::Verify(v, _) => fnv(h, &[*v as u8]),
        Out::Commit(Err(_)) | Out::Arts(Err(_)) => fnv(h, b"err"),
        Out::Panic(_) => fnv(h, b"panic"),
    }
}
pub fn judge(p: &Prep, o: &Out) -> Option<Viol> {
    if let Out::Panic(m) = o {
        let props: &[&'static str] = match &p.exp {
            Expect::Verify(Verdict::Accept, false) => &["C03", "C07", "C05", "C10"],
            Expect::Verify(..) => &["C04", "C07", "C05", "C10"],
            Expect::Arts(Some(_), true) => &["C01", "C02", "C07", "C05", "C10"],
            Expect::Arts(None, true) => &["C02", "C07", "C05", "C10"],
            _ => &["C06", "C07", "C05", "C10"],
        };
        return Some(viol(props, &format!("panic-{}", p.name), format!("{} panicked: {m}", p.name)));
    }
    match (&p.exp, o) {
        (Expect::Commit(Some(a)), Out::Commit(Ok(b))) => (a != b).then(|| viol(&["C06", "C05", "C07", "C09"], "wrong-commitment", format!("commitment {} expected {}", hex::encode(b), hex::encode(a)))),
        (Expect::Commit(Some(_)), Out::Commit(Err(e))) => Some(viol(&["C07", "C06", "C05"], "canonical-rejected", format!("commit rejected a canonical blob: {e}"))),
        (Expect::Commit(None), Out::Commit(Ok(_))) | (Expect::Arts(None, false), Out::Arts(Ok(_))) => Some(viol(&["C07", "C06", "C05"], "noncanonical-accepted", format!("{} accepted a blob with a non-canonical element", p.name))),
        (Expect::Commit(None), Out::Commit(Err(_))) | (Expect::Arts(None, _), Out::Arts(Err(_))) => None,
        (Expect::Arts(None, true), Out::Arts(Ok(_))) => Some(viol(&["C02", "C07", "C05"], "fabricated", "recovery returned Ok for input that is not part of one codeword".into())),
        (Expect::Arts(Some(a), rec), Out::Arts(Ok((c, q)))) => {
            if let Some(b) = &a.bad {
                return Some(viol(&["C06"], "reference", b.clone()));
            }
            let props: &[&'static str] = if *rec { &["C01", "C02", "C05", "C06", "C07"] } else { &["C06", "C05", "C07"] };
            if c.len() != 128 || q.len() != 128 {
                return Some(viol(props, "wrong-count", format!("{} cells {} proofs", c.len(), q.len())));
            }
            for k in 0..CELLS {
                if c[k] != a.cells[k] {
                    return Some(viol(props, "wrong-cell", format!("{}: cell {k} differs from the model", p.name)));
                }
            }
            for k in 0..CELLS {
                if q[k] != a.proofs[k] {
                    return Some(viol(props, "wrong-proof", format!("{}: proof {k} is {} expected {}", p.name, hex::encode(q[k]), hex::encode(a.proofs[k]))));
                }
            }
            None
        }
        (Expect::Arts(Some(_), true), Out::Arts(Err(e))) => Some(viol(&["C01", "C05", "C07", "C06"], "recovery-failed", format!("recovery of a valid subset failed: {e}"))),
        (Expect::Arts(Some(_), false), Out::Arts(Err(e))) => Some(viol(&["C07", "C06", "C05"], "canonical-rejected", format!("compute rejected a canonical blob: {e}"))),
        (Expect::Verify(x, forged), Out::Verify(y, e)) => {
            if x == y {
                return None;
            }
            let (props, class): (&[&'static str], _) = match (x, y) {
                (Verdict::Accept, _) if !forged => (&["C03", "C05", "C06", "C07"], "genuine-rejected"),
                (Verdict::Accept, _) => (&["C03", "C04", "C05", "C06", "C07"], "true-rejected"),
                (_, Verdict::Accept) => (&["C04", "C05", "C06", "C07"], "false-accepted"),
                _ => (&["C04", "C05", "C06", "C07"], "misclassified"),
            };
            Some(viol(props, class, format!("verify answered {y:?} ({e}), expected {x:?}")))
        }
        _ => Some(viol(&["C07"], "harness", "mismatched outcome kind".into())),
    }
}
