//! Storage faults on the trusted-setup file: written by one node, damaged on its (simulated) disk, read
//! back and loaded through the checked loader by another; then a context built from what was loaded is
//! held against the exponents of exactly the points that were stored.
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::scen::*;
use crate::world::*;
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve, Group};
use rust_eth_kzg::{DASContext, TrustedSetup};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

const FIELDS: [&str; 3] = ["g1_monomial", "g1_lagrange", "g2_monomial"];
/// sha256 over the points of the mainnet ceremony output, in file order
const MAINNET: &str = include_str!("mainnet.sha256");

/// damage to one element of the file, done by the writer or by bit rot that leaves the JSON intact
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "d")]
pub enum Dmg {
    Elem { f: usize, at: usize, kind: u32, s: u64 },
    SwapElems { f: usize, a: usize, b: usize },
    Drop { f: usize, at: usize },
    Dup { f: usize, at: usize },
    Cut { f: usize, n: usize },
    MoveTail { f: usize, from: usize, by: usize }, // elements rotated
    SwapFields { a: usize, b: usize },
    DropField { f: usize },
    DupField { f: usize },
    NullField { f: usize },
    Extra,
    Order { p: u32 },
    // on the bytes as they sit on the disk
    Bit { pos: u64, bit: u8 },
    Trunc { len: u64 },
    ZeroSector { at: u64, size: u64 },
    SwapSectors { a: u64, b: u64, size: u64 },
    /// a crash during the rewrite of another setup's file over this one: these sectors made it
    Torn { size: u64, mask: u64 },
    Lost { pos: u64, len: u64 },
    Twice { pos: u64, len: u64 },
    Tail { s: u64 },
    Byte { pos: u64, v: u8 },
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Load {
    pub base: usize,
    pub fmt: u32, // 0 compact, 1 pretty, 2 one element per line with CRLF
    pub dmg: Vec<Dmg>,
    pub spec: CtxSpec,
    pub blob: Option<BlobSpec>,
    pub cells: Vec<usize>,
}
struct Base {
    pts: [Vec<String>; 3],
}
struct Lib {
    bases: Vec<Base>,
    /// what each well-formed string of the bases stands for
    logs1: BTreeMap<String, Scalar>,
    logs2: BTreeMap<String, Scalar>,
    known: bool, // exponents known
}
static mut LIB: Option<Lib> = None;
#[allow(static_mut_refs)]
fn lib() -> &'static mut Lib {
    unsafe { LIB.as_mut().unwrap() }
}
fn hx(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}
fn base_of(ts: &TrustedSetup) -> Base {
    Base { pts: [ts.g1_monomial.clone(), ts.g1_lagrange.clone(), ts.g2_monomial.clone()] }
}
pub fn build() {
    let w = world();
    if w.tpl.kind != "setup" {
        return;
    }
    let mut l = Lib { bases: vec![base_of(&w.ts)], logs1: BTreeMap::new(), logs2: BTreeMap::new(), known: w.tpl.tau.is_some() };
    if let Some(s) = w.tpl.tau {
        let t2 = Tau::new(s + 1);
        l.bases.push(base_of(&tau_setup(&t2)));
        let root = root(N);
        for (k, t) in [w.tau().unwrap(), &t2].iter().enumerate() {
            let mut p = Scalar::ONE;
            let b = &l.bases[k];
            for s in &b.pts[0] {
                l.logs1.insert(s.clone(), p);
                p *= t.tau;
            }
            let mut p = Scalar::ONE;
            for s in &b.pts[2] {
                l.logs2.insert(s.clone(), p);
                p *= t.tau;
            }
            let kk = (pow(t.tau, N as u64) - Scalar::ONE) * Scalar::from(N as u64).invert().unwrap();
            let mut x = Scalar::ONE;
            for s in &b.pts[1] {
                l.logs1.insert(s.clone(), kk * x * (t.tau - x).invert().unwrap());
                x *= root;
            }
        }
    } else {
        for s in l.bases[0].pts[0].iter().chain(&l.bases[0].pts[1]) {
            l.logs1.insert(s.clone(), Scalar::ZERO);
        }
        for s in &l.bases[0].pts[2] {
            l.logs2.insert(s.clone(), Scalar::ZERO);
        }
    }
    unsafe { LIB = Some(l) };
}
fn other_g1(kind: u32, old: &str, s: u64) -> String {
    let mut rng = Rng::new(s ^ 0x5e7);
    let b = dehex(old).unwrap_or_default();
    let mut o = [0u8; 48];
    let n = b.len().min(48);
    o[..n].copy_from_slice(&b[..n]);
    match kind {
        0 => o[0] ^= 0x20,
        1 => o[0] &= 0x7f,
        2 => o[0] ^= 0x40,
        3 => loop {
            // a curve point outside the subgroup
            rng.bytes(&mut o);
            o[0] = 0x80 | (o[0] & 0x2f);
            if bool::from(G1Affine::from_compressed_unchecked(&o).is_some()) && bool::from(G1Affine::from_compressed(&o).is_none()) {
                break;
            }
        },
        4 => loop {
            // no such point
            rng.bytes(&mut o);
            o[0] = 0x80 | (o[0] & 0x2f);
            if bool::from(G1Affine::from_compressed_unchecked(&o).is_none()) {
                break;
            }
        },
        5 => o = crate::ops::enc_pub(&o, 0, s),
        6 => {
            o = [0; 48];
            o[0] = 0xc0
        }
        7 => o = crate::ops::enc_pub(&o, 5, s),
        8 => o = crate::ops::enc_pub(&o, 7, s),
        9 => {
            // a stored point with a small component outside the subgroup
            let p = Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&o)).map(G1Projective::from).unwrap_or_else(G1Projective::identity);
            o = compress(&(p + torsion_point(&mut rng)))
        }
        10 => o[47 - rng.idx(47)] ^= 1 << rng.below(8),
        _ => o = compress(&g1_mul_gen(&scalar_from(&mut rng))),
    }
    hx(&o)
}
fn other_g2(kind: u32, old: &str, s: u64) -> String {
    let mut rng = Rng::new(s ^ 0x5e8);
    let b = dehex(old).unwrap_or_default();
    let mut o = [0u8; 96];
    let n = b.len().min(96);
    o[..n].copy_from_slice(&b[..n]);
    match kind {
        0 => o[0] ^= 0x20,
        1 => o[0] &= 0x7f,
        2 => o[0] ^= 0x40,
        3 | 9 => loop {
            rng.bytes(&mut o);
            o[0] = 0x80 | (o[0] & 0x2f);
            o[48] &= 0x0f;
            if bool::from(G2Affine::from_compressed_unchecked(&o).is_some()) && bool::from(G2Affine::from_compressed(&o).is_none()) {
                break;
            }
        },
        4 => loop {
            rng.bytes(&mut o);
            o[0] = 0x80 | (o[0] & 0x2f);
            o[48] &= 0x0f;
            if bool::from(G2Affine::from_compressed_unchecked(&o).is_none()) {
                break;
            }
        },
        6 => {
            o = [0; 96];
            o[0] = 0xc0
        }
        7 => {
            o = [0; 96];
            o[0] = 0xc0;
            o[1 + rng.idx(95)] = 1
        }
        5 | 8 | 10 => o[95 - rng.idx(95)] ^= 1 << rng.below(8),
        _ => o = (G2Projective::generator() * scalar_from(&mut rng)).to_affine().to_compressed(),
    }
    hx(&o)
}
/// textual variants of one element
fn spell(kind: u32, old: &str, s: u64) -> String {
    match kind {
        0 => old.trim_start_matches("0x").into(),
        1 => old.replacen("0x", "0X", 1),
        2 => old.to_uppercase().replacen("0X", "0x", 1),
        3 => String::new(),
        4 => format!("{old} "),
        5 => old[..old.len() - 2].into(),
        6 => format!("{old}00"),
        7 => old[..old.len() - 1].into(),
        8 => {
            let mut v: Vec<char> = old.chars().collect();
            let k = 2 + s as usize % (v.len() - 2);
            v[k] = *['g', ' ', '-', 'x', 'é', '\u{0}'].get(s as usize % 6).unwrap();
            v.into_iter().collect()
        }
        9 => format!("0x{old}"),
        _ => "0x".into(),
    }
}
struct File {
    text: Vec<u8>,
    strict: bool, // written as the format says: loading must succeed if every point is good
}
fn write(l: &Load) -> (File, u64) {
    let lb = lib();
    let nb = lb.bases.len();
    let mut applied = 0;
    let mk = |b: usize| -> Vec<(usize, Option<Vec<String>>)> { (0..3).map(|f| (f, Some(lb.bases[b % nb].pts[f].clone()))).collect() };
    let mut fs = mk(l.base);
    let mut strict = true;
    let mut extra = false;
    for d in &l.dmg {
        applied += 1;
        let at = |fs: &Vec<(usize, Option<Vec<String>>)>, f: usize| fs.iter().position(|x| x.0 == f % 3);
        match d {
            Dmg::Elem { f, at: i, kind, s } => {
                if let Some(p) = at(&fs, *f) {
                    if let Some(v) = fs[p].1.as_mut() {
                        if !v.is_empty() {
                            let n = v.len();
                            let old = v[i % n].clone();
                            v[i % n] = if *kind >= 100 {
                                strict = false;
                                if old.len() < 8 { "".into() } else { spell(kind - 100, &old, *s) }
                            } else if f % 3 == 2 {
                                other_g2(*kind, &old, *s)
                            } else {
                                other_g1(*kind, &old, *s)
                            };
                        }
                    }
                }
            }
            Dmg::SwapElems { f, a, b } => {
                if let Some(v) = at(&fs, *f).and_then(|p| fs[p].1.as_mut()) {
                    let n = v.len();
                    if n > 0 {
                        v.swap(a % n, b % n)
                    }
                }
            }
            Dmg::Drop { f, at: i } => {
                if let Some(v) = at(&fs, *f).and_then(|p| fs[p].1.as_mut()) {
                    if !v.is_empty() {
                        let n = v.len();
                        v.remove(i % n);
                    }
                }
            }
            Dmg::Dup { f, at: i } => {
                if let Some(v) = at(&fs, *f).and_then(|p| fs[p].1.as_mut()) {
                    if !v.is_empty() {
                        let n = v.len();
                        let x = v[i % n].clone();
                        v.insert(i % n, x);
                    }
                }
            }
            Dmg::Cut { f, n } => {
                if let Some(v) = at(&fs, *f).and_then(|p| fs[p].1.as_mut()) {
                    v.truncate(*n)
                }
            }
            Dmg::MoveTail { f, from, by } => {
                if let Some(v) = at(&fs, *f).and_then(|p| fs[p].1.as_mut()) {
                    let n = v.len();
                    if n > 0 {
                        let t = &mut v[from % n..];
                        let k = by % t.len();
                        t.rotate_left(k)
                    }
                }
            }
            Dmg::SwapFields { a, b } => {
                if let (Some(x), Some(y)) = (at(&fs, *a), at(&fs, *b)) {
                    let t = fs[x].1.take();
                    fs[x].1 = fs[y].1.take();
                    fs[y].1 = t;
                }
            }
            Dmg::DropField { f } => {
                if let Some(p) = at(&fs, *f) {
                    fs.remove(p);
                }
            }
            Dmg::DupField { f } => {
                if let Some(p) = at(&fs, *f) {
                    let x = fs[p].clone();
                    fs.push(x);
                    strict = false;
                }
            }
            Dmg::NullField { f } => {
                if let Some(p) = at(&fs, *f) {
                    fs[p].1 = None
                }
            }
            Dmg::Extra => {
                extra = true;
                strict = false
            }
            Dmg::Order { p } => {
                let n = fs.len().max(1);
                fs.rotate_left(*p as usize % n);
                if p / 3 % 2 == 1 && fs.len() > 1 {
                    fs.swap(0, 1)
                }
            }
            _ => {}
        }
    }
    let text = render(&fs, l.fmt, extra);
    let mut t = text.into_bytes();
    let sect = |n: u64, size: u64, len: usize| -> (usize, usize) {
        let k = (len as u64).div_ceil(size).max(1);
        let a = ((n % k) * size) as usize;
        (a.min(len), (a + size as usize).min(len))
    };
    for d in &l.dmg {
        let n = t.len();
        if n == 0 {
            break;
        }
        match d {
            Dmg::Bit { pos, bit } => t[*pos as usize % n] ^= 1 << (bit % 8),
            Dmg::Byte { pos, v } => t[*pos as usize % n] = *v,
            Dmg::Trunc { len } => t.truncate(*len as usize % (n + 1)),
            Dmg::ZeroSector { at, size } => {
                let (a, b) = sect(*at, *size, n);
                t[a..b].fill(0)
            }
            Dmg::SwapSectors { a, b, size } => {
                let (a0, a1) = sect(*a, *size, n);
                let (b0, b1) = sect(*b, *size, n);
                if a1 - a0 == b1 - b0 && a0 != b0 {
                    let x = t[a0..a1].to_vec();
                    let y = t[b0..b1].to_vec();
                    t[a0..a1].copy_from_slice(&y);
                    t[b0..b1].copy_from_slice(&x);
                }
            }
            Dmg::Torn { size, mask } => {
                // the other node's setup is being written over this file; sectors reach the disk in any order
                let mut o = render(&mk(l.base + 1), l.fmt, false).into_bytes();
                o.resize(n.max(o.len()), b' ');
                t.resize(o.len(), b' ');
                let k = (t.len() as u64).div_ceil(*size);
                let mut r = Rng::new(*mask);
                let mode = r.below(4);
                let cut = r.below(k + 1);
                for i in 0..k {
                    let new = match mode {
                        0 => i < cut,
                        1 => i >= cut,
                        2 => r.chance(1, 2),
                        _ => i == cut,
                    };
                    if new {
                        let (a, b) = sect(i, *size, t.len());
                        t[a..b].copy_from_slice(&o[a..b]);
                    }
                }
            }
            Dmg::Lost { pos, len } => {
                let a = *pos as usize % n;
                let b = (a + *len as usize).min(n);
                t.drain(a..b);
            }
            Dmg::Twice { pos, len } => {
                let a = *pos as usize % n;
                let b = (a + *len as usize).min(n);
                let x = t[a..b].to_vec();
                t.splice(b..b, x);
            }
            Dmg::Tail { s } => {
                let mut j = vec![0u8; 1 + (*s % 64) as usize];
                if s % 3 == 0 { j.fill(b' ') } else { Rng::new(*s).bytes(&mut j) }
                t.extend(j)
            }
            _ => continue,
        }
    }
    (File { text: t, strict }, applied)
}
fn render(fs: &[(usize, Option<Vec<String>>)], fmt: u32, extra: bool) -> String {
    let (nl, sp) = match fmt % 3 {
        0 => ("", ""),
        1 => ("\n", "  "),
        _ => ("\r\n", "\t"),
    };
    let mut s = String::with_capacity(1 << 20);
    s += "{";
    s += nl;
    if extra {
        s += "\"comment\":\"ceremony\",";
    }
    for (i, (f, v)) in fs.iter().enumerate() {
        if i > 0 {
            s += ",";
            s += nl;
        }
        s += &format!("{sp}\"{}\":{}", FIELDS[*f], if fmt % 3 == 0 { "" } else { " " });
        match v {
            None => s += "null",
            Some(v) => {
                s += "[";
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        s += ","
                    }
                    s += nl;
                    s += sp;
                    s += &serde_json::to_string(x).unwrap();
                }
                s += "]";
            }
        }
    }
    s += nl;
    s += "}";
    s
}
/// what is in the file, read by the harness; the first duplicate of a field is an error
fn read(t: &str) -> Option<[Vec<String>; 3]> {
    let v: Value = serde_json::from_str(t).ok()?;
    let o = v.as_object()?;
    let mut r: [Vec<String>; 3] = Default::default();
    for f in 0..3 {
        for x in o.get(FIELDS[f])?.as_array()? {
            r[f].push(x.as_str()?.to_string());
        }
    }
    Some(r)
}
/// exponent of a stored point; None: not a correctly encoded member of the subgroup;
/// Some(None): good, exponent unknown
fn g1_of(s: &str) -> Option<Option<Scalar>> {
    let l = lib();
    let canon = s.strip_prefix("0x").map(|x| format!("0x{}", x.to_lowercase()))?;
    if let Some(x) = l.logs1.get(&canon) {
        return Some(if l.known { Some(*x) } else { None });
    }
    let b: [u8; 48] = hex::decode(&canon[2..]).ok()?.try_into().ok()?;
    let p = Option::<G1Affine>::from(G1Affine::from_compressed(&b))?;
    if bool::from(p.is_identity()) {
        return Some(Some(Scalar::ZERO));
    }
    let mut n = b;
    n[0] ^= 0x20;
    Some(l.logs1.get(&hx(&n)).filter(|_| l.known).map(|x| -*x))
}
fn g2_of(s: &str) -> Option<Option<Scalar>> {
    let l = lib();
    let canon = s.strip_prefix("0x").map(|x| format!("0x{}", x.to_lowercase()))?;
    if let Some(x) = l.logs2.get(&canon) {
        return Some(if l.known { Some(*x) } else { None });
    }
    let b: [u8; 96] = hex::decode(&canon[2..]).ok()?.try_into().ok()?;
    let p = Option::<G2Affine>::from(G2Affine::from_compressed(&b))?;
    if bool::from(p.is_identity()) {
        return Some(Some(Scalar::ZERO));
    }
    let mut n = b;
    n[0] ^= 0x20;
    Some(l.logs2.get(&hx(&n)).filter(|_| l.known).map(|x| -*x))
}
fn pname(d: &Dmg) -> String {
    match d {
        Dmg::Elem { f, kind, .. } => format!("fault.{}.{}", if *kind >= 100 { "spelling" } else { "element" }, FIELDS[f % 3]),
        Dmg::SwapElems { .. } => "fault.elements-swapped".into(),
        Dmg::Drop { .. } => "fault.element-lost".into(),
        Dmg::Dup { .. } => "fault.element-twice".into(),
        Dmg::Cut { .. } => "fault.array-cut".into(),
        Dmg::MoveTail { .. } => "fault.elements-rotated".into(),
        Dmg::SwapFields { .. } => "fault.fields-swapped".into(),
        Dmg::DropField { .. } | Dmg::NullField { .. } => "fault.field-lost".into(),
        Dmg::DupField { .. } => "fault.field-twice".into(),
        Dmg::Extra => "fault.unknown-field".into(),
        Dmg::Order { .. } => "fault.field-order".into(),
        Dmg::Bit { .. } | Dmg::Byte { .. } => "fault.bit-rot".into(),
        Dmg::Trunc { .. } => "fault.truncated".into(),
        Dmg::ZeroSector { .. } => "fault.lost-sector".into(),
        Dmg::SwapSectors { .. } => "fault.misdirected-sectors".into(),
        Dmg::Torn { .. } => "fault.torn-rewrite".into(),
        Dmg::Lost { .. } => "fault.bytes-lost".into(),
        Dmg::Twice { .. } => "fault.bytes-twice".into(),
        Dmg::Tail { .. } => "fault.trailing-garbage".into(),
    }
}
fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(panic_text)
}
/// exponents of commitment and proofs for an arbitrary list of G1 points
fn logs(a: &[Scalar], coeffs: &[Scalar], cells: &[usize]) -> (Scalar, Vec<Scalar>) {
    let c = (0..N).map(|i| coeffs[i] * a[i]).sum();
    let q = cells
        .iter()
        .map(|&k| {
            let z = coset_z(k);
            let mut s = Scalar::ZERO;
            for j in 0..64 {
                // quotient by (x^64 - z), from the top
                let mut acc = Scalar::ZERO;
                for t in (0..63).rev() {
                    acc = acc * z + coeffs[j + 64 * (t + 1)];
                    s += acc * a[j + 64 * t];
                }
            }
            s
        })
        .collect();
    (c, q)
}
/// value of the cell's interpolation polynomial "at" the stored points
fn cell_log(a: &[Scalar], i: usize, v: &[Scalar]) -> Scalar {
    let w = root(64);
    let winv = w.invert().unwrap();
    let hinv = points()[i * PER_CELL].invert().unwrap();
    let mut pw = vec![Scalar::ONE; 64];
    for k in 1..64 {
        pw[k] = pw[k - 1] * winv;
    }
    let inv64 = Scalar::from(64u64).invert().unwrap();
    let (mut hp, mut r) = (Scalar::ONE, Scalar::ZERO);
    for j in 0..64 {
        let mut s = Scalar::ZERO;
        for m in 0..64 {
            s += v[m] * pw[brp(m, 6) * j % 64];
        }
        r += s * inv64 * hp * a[j];
        hp *= hinv;
    }
    r
}
fn check_default(at: Value) {
    let ts = TrustedSetup::default();
    let mut h = Sha256::new();
    for (f, v) in [&ts.g1_monomial, &ts.g1_lagrange, &ts.g2_monomial].iter().enumerate() {
        h.update(FIELDS[f].as_bytes());
        for s in v.iter() {
            h.update(s.strip_prefix("0x").unwrap_or(s).to_lowercase().as_bytes());
            h.update(b",");
        }
    }
    let d = hex::encode(h.finalize());
    let mut r = rep();
    r.add("builtin-setup-compared", 1);
    if d != MAINNET.trim() {
        r.fail(viol(&["C11"], "builtin-setup", format!("the built-in setup is not the mainnet ceremony output (digest {d})")), at);
    }
}
pub fn run(plan: &Plan) {
    let ls: Vec<Load> = serde_json::from_value(plan.extra["loads"].clone()).unwrap_or_default();
    if plan.extra["builtin"].as_bool().unwrap_or(false) {
        check_default(json!(["builtin"]));
    }
    for (n, l) in ls.iter().enumerate() {
        if rep().viol.is_some() {
            return;
        }
        one(n, l);
    }
}
fn one(n: usize, l: &Load) {
    let at = json!([n]);
    let (f, _) = write(l);
    {
        let mut r = rep();
        r.add("cases", 1);
        for d in &l.dmg {
            r.add(&pname(d), 1);
        }
        r.ev(&Sha256::digest(&f.text));
    }
    let Ok(text) = String::from_utf8(f.text) else {
        rep().add("not-text", 1);
        return;
    };
    let stored = read(&text);
    let got = catch(|| TrustedSetup::from_json(&text));
    let mut good1: Vec<Option<Option<Scalar>>> = vec![];
    let mut good2 = vec![];
    let mut all_good = false;
    let mut bad = String::new();
    if let Some(s) = &stored {
        good1 = s[0].iter().map(|x| g1_of(x)).collect();
        good2 = s[2].iter().map(|x| g2_of(x)).collect();
        if let Some(i) = good1.iter().position(|x| x.is_none()) {
            bad = format!("g1_monomial[{i}] = {:?}", s[0][i]);
        }
        if let Some(i) = good2.iter().position(|x| x.is_none()) {
            bad = format!("g2_monomial[{i}] = {:?}", s[2][i]);
        }
        all_good = bad.is_empty();
    }
    let ts = match got {
        Err(m) => {
            let mut r = rep();
            r.add("rejected", 1);
            r.ev(b"rejected");
            // a file that is fine must load
            if let (Some(s), true, true) = (&stored, all_good, f.strict) {
                if s[0].len() == N && s[2].len() == 65 && s[1].iter().all(|x| lib().logs1.contains_key(x)) && s[1].len() == N {
                    r.fail(viol(&["C11"], "good-file-rejected", format!("a file of correctly encoded points in the right subgroups was rejected: {m}")), at);
                }
            }
            return;
        }
        Ok(t) => t,
    };
    {
        let mut r = rep();
        r.add("loaded", 1);
        r.ev(b"loaded");
        let Some(s) = &stored else {
            r.fail(viol(&["C11"], "damaged-file-accepted", "a file that is not a setup in JSON was loaded".into()), at);
            return;
        };
        if !bad.is_empty() {
            r.fail(viol(&["C11"], "bad-point-accepted", format!("loaded although {} is not a correctly encoded member of the subgroup", &bad[..bad.len().min(160)])), at);
            return;
        }
        for (f, (a, b)) in [(&ts.g1_monomial, &s[0]), (&ts.g1_lagrange, &s[1]), (&ts.g2_monomial, &s[2])].iter().enumerate() {
            if a != b {
                r.fail(viol(&["C11"], "other-points-loaded", format!("{} as loaded is not what the file holds", FIELDS[f])), at);
                return;
            }
        }
    }
    let Some(bs) = &l.blob else { return };
    let ctx = match catch(|| make_ctx(&ts, &l.spec)) {
        Ok(c) => c,
        Err(m) => {
            let mut r = rep();
            r.add("context-refused", 1);
            if good1.len() == N && good2.len() == 65 {
                r.fail(viol(&["C11"], "context-refused", format!("a setup of 4096 and 65 good points loaded, but no context can be built from it: {m}")), at);
            }
            return;
        }
    };
    rep().add("context-built", 1);
    let vals = make_blob(bs.k, bs.s);
    let blob: Box<[u8; BLOB_BYTES]> = scalars_bytes(&vals).into_boxed_slice().try_into().ok().unwrap();
    if !lib().known {
        // built-in points: only its own consistency can be asked for
        let Ok(Ok((cells, proofs))) = catch(|| ctx.compute_cells_and_kzg_proofs(&blob)) else { return };
        let same = good1.len() == N && stored.as_ref().map(|s| s[0] == lib().bases[0].pts[0] && s[2] == lib().bases[0].pts[2]).unwrap_or(false);
        if same {
            let Secret::Main(m) = &world().secret else { return };
            let c = m.commit(&vals);
            let mut r = rep();
            r.add("artefacts-compared", 1);
            if !matches!(catch(|| ctx.blob_to_kzg_commitment(&blob)), Ok(Ok(x)) if x == c) {
                r.fail(viol(&["C11"], "wrong-artefacts", "commitment under the loaded built-in setup differs from the ceremony's".into()), at);
                return;
            }
            for &k in &l.cells {
                if world().truth(&c, k as u64, &cells[k][..], &proofs[k]) != Truth::True {
                    r.fail(viol(&["C11"], "wrong-artefacts", format!("proof {k} under the loaded built-in setup is not true")), at);
                    return;
                }
            }
        }
        return;
    }
    if good1.len() < N || good1[..N].iter().any(|x| x.unwrap().is_none()) {
        // fewer points than the blob polynomial needs: a context must not exist
        if good1.len() < N {
            let x = catch(|| ctx.blob_to_kzg_commitment(&blob));
            if matches!(x, Ok(Ok(_))) {
                rep().fail(viol(&["C11"], "short-setup-answers", format!("a setup of {} G1 points produces a commitment", good1.len())), at);
            }
        }
        return;
    }
    let a: Vec<Scalar> = good1.iter().map(|x| x.unwrap().unwrap_or(Scalar::ZERO)).collect();
    let coeffs = interpolate_blob(&vals);
    let ext = eval_ext(&coeffs);
    let (c, q) = logs(&a, &coeffs, &l.cells);
    let cb = compress(&g1_mul_gen(&c));
    match catch(|| ctx.blob_to_kzg_commitment(&blob)) {
        Ok(Ok(x)) if x == cb => {}
        o => {
            rep().fail(viol(&["C11"], "wrong-artefacts", format!("commitment is not that of the stored setup ({})", match o { Ok(Ok(x)) => hx(&x), Ok(Err(e)) => format!("{e:?}"), Err(e) => format!("panic: {e}") })), at);
            return;
        }
    }
    rep().add("artefacts-compared", 1);
    match catch(|| ctx.compute_cells_and_kzg_proofs(&blob)) {
        Ok(Ok((cells, proofs))) => {
            let mut r = rep();
            for (n, &k) in l.cells.iter().enumerate() {
                if parse_scalars(&cells[k][..]).as_deref() != Some(&ext[k * PER_CELL..(k + 1) * PER_CELL]) {
                    r.fail(viol(&["C11"], "wrong-artefacts", format!("cell {k} is wrong")), at);
                    return;
                }
                if proofs[k] != compress(&g1_mul_gen(&q[n])) {
                    r.fail(viol(&["C11"], "wrong-artefacts", format!("proof {k} is not that of the stored setup ({} G1 points, {} G2 points)", good1.len(), good2.len())), at);
                    return;
                }
            }
        }
        o => {
            rep().fail(viol(&["C11"], "wrong-artefacts", format!("compute under the loaded setup: {}", match o { Ok(Err(e)) => format!("{e:?}"), Err(e) => e, _ => String::new() })), at);
            return;
        }
    }
    // a verifier under this setup answers by the stored points
    let (Some(Some(b0)), Some(Some(b64))) = (good2[0], good2.get(64).copied().flatten()) else { return };
    for (n, &k) in l.cells.iter().enumerate() {
        let cell: BCell = scalars_bytes(&ext[k * PER_CELL..(k + 1) * PER_CELL]).into_boxed_slice().try_into().ok().unwrap();
        let lhs = (c - cell_log(&a, k, &ext[k * PER_CELL..(k + 1) * PER_CELL]) + coset_z(k) * q[n]) * b0;
        let want = lhs == q[n] * b64;
        let p = compress(&g1_mul_gen(&q[n]));
        let o = catch(|| ctx.verify_cell_kzg_proof_batch(vec![&cb], vec![k as u64], vec![&cell], vec![&p]));
        let mut r = rep();
        r.add(if want { "verdict.accept" } else { "verdict.reject" }, 1);
        let ok = match &o {
            Ok(Ok(())) => want,
            Ok(Err(e)) => !want && e.invalid_proof(),
            Err(_) => false,
        };
        if !ok {
            let g = match o { Ok(Ok(())) => "accepted".into(), Ok(Err(e)) => format!("{e:?}"), Err(e) => format!("panic: {e}") };
            r.fail(viol(&["C11"], "wrong-verdict", format!("cell {k}: {g}, but under the stored points the equation {}", if want { "holds" } else { "does not hold" })), at);
            return;
        }
    }
    let _: Option<&DASContext> = Some(&ctx);
}
pub fn plan(r: &mut Rng, seed: u64, tier: &str) -> Plan {
    let m = 1 + r.idx(if tier == "thorough" { 4 } else { 3 });
    let mut loads = vec![];
    for _ in 0..m {
        let mut d = vec![];
        let f = *r.pick(&[0usize, 0, 0, 2, 2, 2, 1]);
        let n = if f == 2 { 65 } else { N };
        // where it hurts: ends, the points used by the verifier, the last ones
        let pos = |r: &mut Rng| -> usize { match r.below(6) { 0 => 0, 1 => n - 1, 2 => 64 % n, 3 => r.idx(66) % n, 4 => n - 1 - r.idx(64), _ => r.idx(n) } };
        let size = *r.pick(&[512u64, 4096, 65536]);
        match r.below(20) {
            0 => {}
            1..=6 => {
                for _ in 0..1 + (r.chance(1, 4) as usize) {
                    d.push(Dmg::Elem { f, at: pos(r), kind: r.below(12) as u32, s: r.below(1 << 40) })
                }
            }
            7 => d.push(Dmg::Elem { f, at: pos(r), kind: 100 + r.below(11) as u32, s: r.below(1 << 40) }),
            8 => d.push(Dmg::SwapElems { f, a: pos(r), b: pos(r) }),
            9 => d.push(if r.chance(1, 2) { Dmg::Drop { f, at: pos(r) } } else { Dmg::Dup { f, at: pos(r) } }),
            10 => d.push(if r.chance(1, 2) { Dmg::Cut { f, n: *r.pick(&[0, 1, 63, 64, 65, 66, 128, n - 1]) } } else { Dmg::MoveTail { f, from: pos(r), by: 1 + r.idx(3) } }),
            11 => d.push(Dmg::SwapFields { a: r.idx(3), b: r.idx(3) }),
            12 => d.push(match r.below(4) { 0 => Dmg::DropField { f }, 1 => Dmg::NullField { f }, 2 => Dmg::DupField { f }, _ => Dmg::Extra }),
            13 => d.push(Dmg::Order { p: r.below(6) as u32 }),
            14 | 15 => {
                for _ in 0..1 + r.idx(3) {
                    d.push(Dmg::Bit { pos: r.below(1 << 40), bit: r.below(8) as u8 })
                }
            }
            16 => d.push(Dmg::Trunc { len: r.below(1 << 40) }),
            17 => d.push(if r.chance(1, 2) { Dmg::ZeroSector { at: r.below(1 << 30), size } } else { Dmg::SwapSectors { a: r.below(1 << 30), b: r.below(1 << 30), size } }),
            18 => d.push(Dmg::Torn { size: *r.pick(&[512u64, 4096, 65536, 400_000]), mask: r.below(1 << 50) }),
            _ => d.push(match r.below(4) {
                0 => Dmg::Lost { pos: r.below(1 << 40), len: *r.pick(&[1u64, 2, 101, 102, 512]) },
                1 => Dmg::Twice { pos: r.below(1 << 40), len: *r.pick(&[1u64, 2, 101, 102, 512]) },
                2 => Dmg::Tail { s: r.below(1 << 40) },
                _ => Dmg::Byte { pos: r.below(1 << 40), v: *r.pick(b"0\",[]{}x \n9af") },
            }),
        }
        if r.chance(1, 6) {
            d.push(Dmg::Order { p: r.below(6) as u32 })
        }
        let mut cells: Vec<usize> = (0..2).map(|_| r.idx(CELLS)).collect();
        cells.push(*r.pick(&[0, 63, 64, 127]));
        loads.push(Load {
            base: r.idx(2),
            fmt: r.below(3) as u32,
            dmg: d,
            spec: CtxSpec { threads: *r.pick(&[-1i64, 0, 1, 2, 4]), width: *r.pick(&[0u64, 0, 0, 2, 4]), ncpu: *r.pick(&[1u32, 2, 4, 8]) },
            blob: if r.chance(4, 5) { Some(BlobSpec { k: if r.chance(2, 3) { 0 } else { r.below(BLOB_KINDS as u64) as u32 }, s: r.below(1 << 40) }) } else { None },
            cells,
        });
    }
    if loads.len() > 1 && r.chance(1, 2) {
        // the intact setup first, and damaged copies of the same one after it (or the other way round)
        let (base, fmt) = (loads[0].base, loads[0].fmt);
        let same = r.chance(2, 3);
        for l in loads.iter_mut() {
            l.base = base;
            if same {
                l.fmt = fmt
            }
        }
        let n = loads.len();
        let i = if r.chance(2, 3) { 0 } else { r.idx(n) };
        loads[i].dmg.clear();
        if r.chance(1, 3) {
            loads.push(loads[i].clone())
        }
    }
    let mut p = Plan { scn: "setup".into(), prop: "C11".into(), seed, extra: json!({"loads": loads, "builtin": r.chance(1, 6)}), ..Default::default() };
    p.sim = crate::gen::sim_cfg(r, 1);
    let _ = mix2(0, 0);
    p
}
