//! The building-block crates (MSMs, batched additions, FFTs, polynomials, erasure code, multi-opening prover
//! and verifier) at arbitrary sizes, shared by concurrent callers, against plain field arithmetic: every point
//! handed over has a known exponent.
use crate::model::*;
use crate::ops::{panic_text, viol};
use crate::rng::{mix2, Rng};
use crate::rt;
use crate::scen::*;
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use bls12_381::fixed_base_msm::{FixedBaseMSM, FixedBaseMSMPrecompBLST, UsePrecomp};
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve, Group};
use kzg::{commit_key::CommitKey, verification_key::VerificationKey, Prover, ProverInput, Verifier};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "o")]
pub enum ObjSpec {
    /// width 0: none; blst: blst's own tables
    Fixed { n: usize, width: usize, blst: bool, s: u64 },
    Dom { size: usize },
    Rs { len: usize, exp: usize, block: usize },
    Fk { len: usize, coset: usize, exp: usize, width: usize, s: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
pub enum BOp {
    Lincomb { g2: bool, n: usize, pk: u32, sk: u32, s: u64, short: i64 },
    Add { sizes: Vec<usize>, multi: bool, pk: u32, s: u64 },
    Inv { n: usize, fp: bool, zero: Option<usize>, s: u64 },
    Poly { k: u32, a: usize, b: usize, sk: u32, s: u64 },
    Reduce { k: u32, s: u64 },
    Group { k: u32, n: usize, pk: u32, sk: u32, s: u64 },
    Reorder { dom: usize, coset: usize, n: usize, bad: u32, s: u64 },
    /// an operation on shared object `obj`; the meaning of `k` depends on the object
    On { obj: usize, k: u32, sk: u32, n: usize, s: u64, e: Vec<u64> },
    /// the same on an object that the caller builds for it
    New { spec: ObjSpec, k: u32, sk: u32, n: usize, s: u64, e: Vec<u64> },
}
enum Obj {
    Fixed(FixedBaseMSM, Vec<Scalar>),
    Blst(FixedBaseMSMPrecompBLST, Vec<Scalar>),
    Dom(polynomial::domain::Domain, usize),
    Rs(erasure::ReedSolomon, usize, usize, usize),
    Fk(Box<Fk>),
}
struct Fk {
    p: Prover,
    v: Verifier,
    len: usize,
    coset: usize,
    n: usize,
    tau: Scalar,
}
fn rnd(r: &mut Rng) -> Scalar {
    scalar_from(r)
}
/// families of scalars
fn scalars(k: u32, n: usize, s: u64) -> Vec<Scalar> {
    let mut r = Rng::new(mix2(s, 0x5ca1a));
    let all = rnd(&mut r);
    (0..n)
        .map(|i| match k {
            1 => Scalar::ZERO,
            2 => Scalar::from(r.below(5)),
            3 => all,
            4 => -Scalar::from(r.below(4)),
            5 => if r.chance(1, 3) { Scalar::ZERO } else { rnd(&mut r) },
            6 => pow(Scalar::from(2u64), r.below(255)) - Scalar::from(r.below(2)),
            7 => if i == (s as usize) % n.max(1) { rnd(&mut r) } else { Scalar::ZERO },
            8 => Scalar::from(r.next()),
            9 => -Scalar::ONE,
            10 => if i < n / 2 { rnd(&mut r) } else { Scalar::ZERO },
            _ => rnd(&mut r),
        })
        .collect()
}
/// exponents of points. Families 0..4 hold no identity and no two points that add up to it.
fn exps(k: u32, n: usize, s: u64) -> Vec<Scalar> {
    let mut r = Rng::new(mix2(s, 0x9017));
    let (a, b) = (rnd(&mut r), rnd(&mut r));
    let mut v: Vec<Scalar> = (0..n)
        .map(|i| match k {
            1 => a,
            2 => if r.chance(1, 2) { a } else { b },
            3 => a + Scalar::from(i as u64),
            4 => pow(a, i as u64),
            5 => if r.chance(1, 3) { Scalar::ZERO } else { rnd(&mut r) },
            6 => if r.chance(1, 2) { a } else { -a },
            7 => Scalar::ZERO,
            8 => Scalar::from(r.below(3)),
            9 => if i == 0 || i + 1 == n { Scalar::ZERO } else { rnd(&mut r) },
            _ => rnd(&mut r),
        })
        .collect();
    if k == 10 {
        // pairs that cancel
        for i in (1..n).step_by(2) {
            v[i] = -v[i - 1];
        }
    }
    v
}
fn g1s(e: &[Scalar]) -> Vec<G1Affine> {
    let p: Vec<G1Projective> = e.iter().map(g1_mul_gen).collect();
    let mut o = vec![G1Affine::identity(); p.len()];
    crate::world::batch_norm(&p, &mut o);
    o
}
fn g2s(e: &[Scalar]) -> Vec<G2Affine> {
    e.iter().map(|x| (G2Projective::generator() * x).to_affine()).collect()
}
fn dot(a: &[Scalar], b: &[Scalar]) -> Scalar {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn peval(c: &[Scalar], x: &Scalar) -> Scalar {
    c.iter().rev().fold(Scalar::ZERO, |a, b| a * x + b)
}
fn trim(mut v: Vec<Scalar>) -> Vec<Scalar> {
    while v.last().map_or(false, |x| bool::from(x.is_zero())) {
        v.pop();
    }
    v
}
fn naive_dft(a: &[Scalar], n: usize, w: Scalar) -> Vec<Scalar> {
    let mut x = Scalar::ONE;
    (0..n)
        .map(|_| {
            let y = peval(a, &x);
            x *= w;
            y
        })
        .collect()
}
fn fast_dft(a: &[Scalar], n: usize, w: Scalar) -> Vec<Scalar> {
    let mut a = a.to_vec();
    a.resize(n, Scalar::ZERO);
    if n <= 32 { naive_dft(&a, n, w) } else { dft(&a, w) }
}
fn lagrange(xs: &[Scalar], ys: &[Scalar]) -> Vec<Scalar> {
    // Newton's divided differences
    let n = xs.len();
    let mut d = ys.to_vec();
    for j in 1..n {
        for i in (j..n).rev() {
            d[i] = (d[i] - d[i - 1]) * (xs[i] - xs[i - j]).invert().unwrap();
        }
    }
    let mut c = vec![Scalar::ZERO; n];
    for i in (0..n).rev() {
        for k in (1..n).rev() {
            c[k] = c[k - 1] - c[k] * xs[i];
        }
        c[0] = d[i] - c[0] * xs[i];
    }
    c
}
fn build_obj(o: &ObjSpec) -> Obj {
    match o {
        ObjSpec::Fixed { n, width, blst, s } => {
            // the precomputed path documents that it cannot add a point to its negative: points without relations
            let k = if *blst { s % 5 } else if *width == 0 { s % 11 } else { s % 2 * 4 };
            let e = exps(k as u32, *n, *s);
            let g = g1s(&e);
            if *blst {
                Obj::Blst(FixedBaseMSMPrecompBLST::new(g, (*width).max(2)), e)
            } else {
                Obj::Fixed(FixedBaseMSM::new(g, if *width == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: *width } }), e)
            }
        }
        ObjSpec::Dom { size } => Obj::Dom(polynomial::domain::Domain::new(*size), size.next_power_of_two()),
        ObjSpec::Rs { len, exp, block } => Obj::Rs(erasure::ReedSolomon::new(*len, *exp, *block), *len, *exp, *block),
        ObjSpec::Fk { len, coset, exp, width, s } => {
            let mut r = Rng::new(mix2(*s, 77));
            let tau = rnd(&mut r);
            let mut t = vec![Scalar::ONE; *len];
            for i in 1..*len {
                t[i] = t[i - 1] * tau;
            }
            let g = g1s(&t);
            let n = len * exp;
            let vk = VerificationKey::new(g[..coset + 1].to_vec(), g2s(&t[..coset + 1]), *coset, *len);
            let p = Prover::new(CommitKey::new(g), *len, *coset, n, if *width == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: *width } });
            let v = Verifier::new(vk, n, n / coset);
            Obj::Fk(Box::new(Fk { p, v, len: *len, coset: *coset, n, tau }))
        }
    }
}
fn log2(n: usize) -> u32 {
    n.trailing_zeros()
}
fn brev<T: Clone>(v: &[T]) -> Vec<T> {
    if v.len() < 2 {
        return v.to_vec();
    }
    (0..v.len()).map(|i| v[brp(i, log2(v.len()))].clone()).collect()
}
impl Fk {
    /// coefficients, evaluations per coset, exponents of the proofs
    fn expect(&self, c: &[Scalar]) -> (Vec<Vec<Scalar>>, Vec<Scalar>) {
        let ev = brev(&fast_dft(c, self.n, root(self.n)));
        let xs = brev(&naive_roots(self.n));
        let pt = peval(c, &self.tau);
        let l = self.coset as u64;
        let tl = pow(self.tau, l);
        let mut evs = vec![];
        let mut pr = vec![];
        for k in 0..self.n / self.coset {
            let (x, y) = (&xs[k * self.coset..(k + 1) * self.coset], &ev[k * self.coset..(k + 1) * self.coset]);
            let z = tl - pow(x[0], l);
            pr.push((pt - self.interp(x, y)) * z.invert().unwrap());
            evs.push(y.to_vec());
        }
        (evs, pr)
    }
    /// value at tau of the interpolation polynomial: sum y_i x_i (tau^l - h^l) / (l h^l (tau - x_i))
    fn interp(&self, x: &[Scalar], y: &[Scalar]) -> Scalar {
        let l = self.coset as u64;
        let hl = pow(x[0], l);
        let z = pow(self.tau, l) - hl;
        let mut d: Vec<Scalar> = x.iter().map(|x| self.tau - x).collect();
        batch_inv(&mut d);
        let s: Scalar = (0..x.len()).map(|i| y[i] * x[i] * d[i]).sum();
        s * z * (Scalar::from(l) * hl).invert().unwrap()
    }
    fn coset_points(&self, k: usize) -> Vec<Scalar> {
        brev(&naive_roots(self.n))[k * self.coset..(k + 1) * self.coset].to_vec()
    }
}
fn naive_roots(n: usize) -> Vec<Scalar> {
    let w = root(n);
    let mut v = vec![Scalar::ONE; n];
    for i in 1..n {
        v[i] = v[i - 1] * w;
    }
    v
}
#[derive(PartialEq, Clone)]
enum R {
    S(Vec<Scalar>),
    P(Vec<G1Projective>),
    P2(Vec<G2Projective>),
    A(Vec<G1Affine>),
    Fp(Vec<blstrs::Fp>),
    Arts(Vec<G1Affine>, Vec<Vec<Scalar>>),
    Reorder(Option<(Vec<usize>, Vec<Scalar>)>),
    Err(&'static str),
    Ok,
    None,
    Panic,
}
impl R {
    fn show(&self) -> String {
        fn h<T: std::fmt::Debug>(v: &[T]) -> String {
            let t = format!("{v:?}");
            format!("{} value(s), {:016x}", v.len(), crate::ops::fnv(0xcbf29ce484222325, t.as_bytes()))
        }
        match self {
            R::S(v) => h(v),
            R::P(v) => h(&v.iter().map(|p| p.to_affine()).collect::<Vec<_>>()),
            R::P2(v) => h(&v.iter().map(|p| p.to_affine()).collect::<Vec<_>>()),
            R::A(v) => h(v),
            R::Fp(v) => h(v),
            R::Arts(a, b) => format!("{} / {}", h(a), h(b)),
            R::Reorder(r) => match r { Some((a, b)) => format!("{} / {}", h(a), h(b)), None => "None".into() },
            R::Err(e) => format!("error {e}"),
            R::Ok => "Ok".into(),
            R::None => "None".into(),
            R::Panic => "panic".into(),
        }
    }
}
type Call = Box<dyn FnOnce() -> R + Send>;
/// (name, what to do, what must come out)
fn prep(op: &BOp, objs: &Arc<Vec<Obj>>) -> Option<(String, Call, R)> {
    Some(match op {
        BOp::Lincomb { g2, n, pk, sk, s, short } => {
            let e = exps(*pk, *n, *s);
            let m = (*n as i64 + short).max(0) as usize;
            let k = scalars(*sk, m, *s);
            let want = if m != *n { R::None } else if *g2 { R::P2(vec![G2Projective::generator() * dot(&e, &k)]) } else { R::P(vec![g1_mul_gen(&dot(&e, &k))]) };
            if *g2 {
                let p = g2s(&e);
                ("g2_lincomb".into(), Box::new(move || bls12_381::lincomb::g2_lincomb(&p, &k).map_or(R::None, |x| R::P2(vec![x]))), want)
            } else {
                let p = g1s(&e);
                let unsafe_too = *pk < 5 && *s & 1 == 1 && *n > 0;
                ("g1_lincomb".into(), Box::new(move || if unsafe_too { bls12_381::lincomb::g1_lincomb_unsafe(&p, &k) } else { bls12_381::lincomb::g1_lincomb(&p, &k) }.map_or(R::None, |x| R::P(vec![x]))), want)
            }
        }
        BOp::Add { sizes, multi, pk, s } => {
            let sets: Vec<Vec<Scalar>> = sizes.iter().enumerate().map(|(i, n)| exps(*pk % 5, *n, mix2(*s, i as u64))).collect();
            let sums: Vec<G1Projective> = sets.iter().map(|e| g1_mul_gen(&e.iter().sum())).collect();
            let pts: Vec<Vec<G1Affine>> = sets.iter().map(|e| g1s(e)).collect();
            if *multi {
                ("multi_batch_addition".into(), Box::new(move || R::P(bls12_381::batch_addition::multi_batch_addition_binary_tree_stride(pts))), R::P(sums))
            } else {
                let p = pts.into_iter().next()?;
                ("batch_addition".into(), Box::new(move || R::P(vec![bls12_381::batch_addition::batch_addition_binary_tree_stride(p)])), R::P(sums[..1].to_vec()))
            }
        }
        BOp::Inv { n, fp, zero, s } => {
            let mut r = Rng::new(*s);
            if *fp {
                let mut v: Vec<blstrs::Fp> = g1s(&exps(0, *n, *s)).iter().map(|p| p.x()).collect();
                if let Some(z) = zero { if *n > 0 { v[z % n] = blstrs::Fp::ZERO } }
                let want = v.iter().map(|x| Option::from(x.invert())).collect::<Option<Vec<_>>>();
                ("batch_inverse".into(), Box::new(move || { let mut v = v; bls12_381::batch_inversion::batch_inverse(&mut v); R::Fp(v) }), want.map_or(R::Panic, R::Fp))
            } else {
                let mut v: Vec<Scalar> = (0..*n).map(|i| if i % 5 == 4 { Scalar::from(1 + r.below(3)) } else { rnd(&mut r) }).collect();
                if let Some(z) = zero { if *n > 0 { v[z % n] = Scalar::ZERO } }
                let want = v.iter().map(|x| Option::from(x.invert())).collect::<Option<Vec<_>>>();
                ("batch_inverse".into(), Box::new(move || { let mut v = v; bls12_381::batch_inversion::batch_inverse(&mut v); R::S(v) }), want.map_or(R::Panic, R::S))
            }
        }
        BOp::Poly { k, a, b, sk, s } => {
            use polynomial::poly_coeff::*;
            let (x, y) = (scalars(*sk, *a, *s), scalars(*sk, *b, mix2(*s, 1)));
            let m = (*a).max(*b);
            let at = |v: &[Scalar], i: usize| v.get(i).copied().unwrap_or(Scalar::ZERO);
            match k % 7 {
                0 => ("poly_add".into(), { let (x, y) = (x.clone(), y.clone()); Box::new(move || R::S(trim(poly_add(x, y)))) as Call }, R::S(trim((0..m).map(|i| at(&x, i) + at(&y, i)).collect()))),
                1 => ("poly_sub".into(), { let (x, y) = (x.clone(), y.clone()); Box::new(move || R::S(trim(poly_sub(x, y)))) as Call }, R::S(trim((0..m).map(|i| at(&x, i) - at(&y, i)).collect()))),
                2 => ("poly_neg".into(), { let x = x.clone(); Box::new(move || R::S(poly_neg(x))) as Call }, R::S(x.iter().map(|v| -v).collect())),
                3 => {
                    let z = at(&y, 0);
                    let want = R::S(vec![(0..*a).map(|i| x[i] * pow(z, i as u64)).sum()]);
                    ("poly_eval".into(), Box::new(move || R::S(vec![poly_eval(&x, &z)])), want)
                }
                4 => {
                    if *a == 0 || *b == 0 { return None }
                    let mut w = vec![Scalar::ZERO; a + b];
                    for i in 0..*a { for j in 0..*b { w[i + j] += x[i] * y[j] } }
                    ("poly_mul".into(), Box::new(move || R::S(trim(poly_mul(x, y)))), R::S(trim(w)))
                }
                5 => {
                    // monic, of the right degree and zero at the roots (with multiplicity): compare in evaluations
                    let want: Vec<Scalar> = (0..a + 2).map(|i| { let p = Scalar::from(i as u64 + 2); x.iter().map(|r| p - r).product() }).chain([Scalar::from(*a as u64 + 1)]).collect();
                    let n = *a;
                    ("vanishing_poly".into(), Box::new(move || { let v = vanishing_poly(&x); R::S((0..n + 2).map(|i| peval(&v, &Scalar::from(i as u64 + 2))).chain([Scalar::from(trim(v.clone()).len() as u64)]).collect()) }), R::S(want))
                }
                _ => {
                    if *a < 2 { return None }
                    let mut r = Rng::new(*s);
                    let xs: Vec<Scalar> = { let f = rnd(&mut r); (0..*a).map(|i| if s & 1 == 0 { Scalar::from(i as u64) } else { f * Scalar::from(i as u64 + 1) }).collect() };
                    let pts: Vec<(Scalar, Scalar)> = xs.iter().copied().zip(x.iter().copied()).collect();
                    let want = trim(lagrange(&xs, &x));
                    ("lagrange_interpolate".into(), Box::new(move || lagrange_interpolate(&pts).map_or(R::None, |v| R::S(trim(v)))), R::S(want))
                }
            }
        }
        BOp::Group { k, n, pk, sk, s } => {
            let e = exps(*pk, *n, *s);
            let z = |i: usize| Scalar::from(i as u64 + 3 + s % 7);
            match k % 6 {
                0 => {
                    let mut f = scalars(*sk, *n, *s);
                    if s & 1 == 0 && *n > 1 && !bool::from(e[n - 1].is_zero()) {
                        // make the product one
                        let t: Scalar = dot(&e[..n - 1], &f[..n - 1]);
                        f[n - 1] = -t * e[n - 1].invert().unwrap();
                    }
                    let one = bool::from(dot(&e, &f).is_zero());
                    let (a, b) = (g1s(&e), g2s(&f));
                    ("multi_pairings".into(), Box::new(move || {
                        let b: Vec<bls12_381::G2Prepared> = b.into_iter().map(|x| x.into()).collect();
                        let v: Vec<_> = a.iter().zip(&b).collect();
                        if bls12_381::multi_pairings(&v) { R::Ok } else { R::None }
                    }), if one { R::Ok } else { R::None })
                }
                1 => {
                    // points in many representations, some the identity
                    let p: Vec<G1Projective> = e.iter().enumerate().map(|(i, x)| g1_mul_gen(&(x - z(i))) + g1_mul_gen(&z(i))).collect();
                    let want = R::A(e.iter().map(|x| g1_mul_gen(x).to_affine()).collect());
                    ("g1_batch_normalize".into(), Box::new(move || R::A(bls12_381::g1_batch_normalize(&p))), want)
                }
                2 => {
                    let g = G2Projective::generator();
                    let p: Vec<G2Projective> = e.iter().enumerate().map(|(i, x)| g * (x - z(i)) + g * z(i)).collect();
                    let want = R::P2(e.iter().map(|x| g * x).collect());
                    ("g2_batch_normalize".into(), Box::new(move || R::P2(bls12_381::g2_batch_normalize(&p).into_iter().map(|x| x.into()).collect())), want)
                }
                3 => {
                    let m = *n.max(&1);
                    let e = exps(*pk, m, *s);
                    let f = scalars(*sk, (*s as usize) % (m + 1), *s);
                    let ck = CommitKey::new(g1s(&e));
                    let want = R::P(vec![g1_mul_gen(&dot(&e, &f))]);
                    ("commit_key.commit_g1".into(), Box::new(move || R::P(vec![ck.commit_g1(&f)])), want)
                }
                _ => {
                    let m = (*n).clamp(2, 66);
                    let e = exps(*pk, m, *s);
                    let f = scalars(*sk, (*s as usize) % (m + 1), *s);
                    let vk = VerificationKey::new(g1s(&e), g2s(&e), m - 1, m);
                    let x = dot(&e, &f);
                    if k % 6 == 4 {
                        ("verification_key.commit_g1".into(), Box::new(move || R::P(vec![vk.commit_g1(&f)])), R::P(vec![g1_mul_gen(&x)]))
                    } else {
                        ("verification_key.commit_g2".into(), Box::new(move || R::P2(vec![vk.commit_g2(&f)])), R::P2(vec![G2Projective::generator() * x]))
                    }
                }
            }
        }
        BOp::Reduce { k, s } => {
            let mut r = Rng::new(*s);
            let mut b = [0u8; 32];
            r.bytes(&mut b);
            // the group order, big-endian
            let mut q = (-Scalar::ONE).to_bytes_be();
            q[31] += 1;
            let add = |v: &mut [u8; 32], x: i32| {
                let mut c = x;
                for i in (0..32).rev() {
                    let t = v[i] as i32 + c;
                    v[i] = t.rem_euclid(256) as u8;
                    c = t.div_euclid(256);
                    if c == 0 { break }
                }
            };
            match k % 5 {
                1 => { b = q; add(&mut b, r.below(5) as i32 - 2) }
                2 => { b = [0xff; 32]; add(&mut b, -(r.below(3) as i32)) }
                3 => {
                    // twice the order, and neighbours
                    let mut c = 0u32;
                    for i in (0..32).rev() { c += 2 * q[i] as u32; b[i] = c as u8; c >>= 8 }
                    add(&mut b, r.below(5) as i32 - 2)
                }
                4 => { b = [0; 32]; b[31] = r.below(3) as u8 }
                _ => {}
            }
            let want = b.iter().fold(Scalar::ZERO, |a, x| a * Scalar::from(256u64) + Scalar::from(*x as u64));
            ("reduce_bytes_to_scalar_bias".into(), Box::new(move || R::S(vec![bls12_381::reduce_bytes_to_scalar_bias(b)])), R::S(vec![want]))
        }
        BOp::Reorder { dom, coset, n, bad, s } => {
            let mut r = Rng::new(*s);
            let cnt = dom / coset;
            let mut idx: Vec<usize> = (0..cnt).collect();
            r.shuffle(&mut idx);
            idx.truncate((*n).min(cnt));
            let mut ev: Vec<Vec<Scalar>> = idx.iter().map(|_| (0..*coset).map(|_| rnd(&mut r)).collect()).collect();
            let mut want = None;
            if !idx.is_empty() {
                match bad {
                    1 => idx[r.clone().idx(ev.len())] = cnt + (s % 3) as usize,
                    2 if ev.len() > 1 => { ev.last_mut().unwrap().pop(); }
                    _ => {
                        let mut v = vec![Scalar::ZERO; *dom];
                        for (k, e) in idx.iter().zip(&ev) {
                            for (j, x) in e.iter().enumerate() {
                                v[if *dom > 1 { brp(k * coset + j, log2(*dom)) } else { 0 }] = *x;
                            }
                        }
                        want = Some((idx.iter().map(|i| if cnt > 1 { brp(*i, log2(cnt)) } else { 0 }).collect(), v));
                    }
                }
            }
            let d = *dom;
            ("recover_evaluations_in_domain_order".into(), Box::new(move || R::Reorder(kzg::recover_evaluations_in_domain_order(d, idx, ev))), R::Reorder(want))
        }
        BOp::New { spec, k, sk, n, s, e } => {
            let on = BOp::On { obj: 0, k: *k, sk: *sk, n: *n, s: *s, e: e.clone() };
            let (name, _, want) = prep(&on, &Arc::new(vec![build_obj(spec)]))?;
            let spec = spec.clone();
            (format!("new+{name}"), Box::new(move || prep(&on, &Arc::new(vec![build_obj(&spec)])).map_or(R::None, |x| x.1())), want)
        }
        BOp::On { obj, k, sk, n, s, e } => {
            if objs.is_empty() { return None }
            let i = obj % objs.len();
            let o = objs.clone();
            match &objs[i] {
                Obj::Fixed(_, ex) => {
                    let v = scalars(*sk, ex.len(), *s);
                    let want = R::P(vec![g1_mul_gen(&dot(ex, &v))]);
                    ("fixed_base_msm".into(), Box::new(move || match &o[i] { Obj::Fixed(m, _) => R::P(vec![m.msm(v)]), _ => R::Ok }), want)
                }
                Obj::Blst(_, ex) => {
                    let v = scalars(*sk, ex.len(), *s);
                    let want = R::P(vec![g1_mul_gen(&dot(ex, &v))]);
                    ("fixed_base_msm_blst".into(), Box::new(move || match &o[i] { Obj::Blst(m, _) => R::P(vec![m.msm(v)]), _ => R::Ok }), want)
                }
                Obj::Dom(_, size) => {
                    let size = *size;
                    let len = (*n).min(size);
                    let a = scalars(*sk, len, *s);
                    let w = root(size);
                    let wi = w.invert().unwrap();
                    let ni = Scalar::from(size as u64).invert().unwrap();
                    let inv = |v: Vec<Scalar>| -> Vec<Scalar> { v.into_iter().map(|x| x * ni).collect() };
                    let g = { let mut r = Rng::new(mix2(*s, 3)); if s & 1 == 0 { Scalar::from(7u64) } else { rnd(&mut r) } };
                    let gp = |v: &[Scalar], g: Scalar| -> Vec<Scalar> { let mut p = Scalar::ONE; v.iter().map(|x| { let y = x * p; p *= g; y }).collect() };
                    let take = if size > 1 { 1 + (*s as usize / 2) % (size - 1) } else { 0 };
                    let k = if size > 64 { k % 4 } else { k % 7 };
                    let k = if k == 6 && size < 2 { 5 } else { k };
                    let want = match k {
                        0 => R::S(fast_dft(&a, size, w)),
                        1 => R::S(inv(fast_dft(&a, size, wi))),
                        2 => R::S(fast_dft(&gp(&a, g), size, w)),
                        3 => R::S(gp(&inv(fast_dft(&a, size, wi)), g.invert().unwrap())),
                        4 => R::P(fast_dft(&a, size, w).iter().map(g1_mul_gen).collect()),
                        5 => R::P(inv(fast_dft(&a, size, wi)).iter().map(g1_mul_gen).collect()),
                        _ => R::P(inv(fast_dft(&a, size, wi)).iter().take(take).map(g1_mul_gen).collect()),
                    };
                    let pts: Vec<G1Projective> = if k >= 4 { a.iter().map(g1_mul_gen).collect() } else { vec![] };
                    let name = ["fft_scalars", "ifft_scalars", "coset_fft_scalars", "coset_ifft_scalars", "fft_g1", "ifft_g1", "ifft_g1_take_n"][k as usize];
                    (name.into(), Box::new(move || {
                        let Obj::Dom(d, _) = &o[i] else { return R::Ok };
                        let c = polynomial::CosetFFT::new(g);
                        match k {
                            0 => R::S(d.fft_scalars(a)),
                            1 => R::S(d.ifft_scalars(a)),
                            2 => R::S(d.coset_fft_scalars(a, &c)),
                            3 => R::S(d.coset_ifft_scalars(a, &c)),
                            4 => R::P(d.fft_g1(pts)),
                            5 => R::P(d.ifft_g1(pts)),
                            _ => R::P(d.ifft_g1_take_n(pts, Some(take))),
                        }
                    }), want)
                }
                Obj::Rs(_, len, exp, block) => {
                    let (len, exp, block) = (*len, *exp, *block);
                    let total = len * exp;
                    let nblocks = total / block;
                    let cap = (total - len) / nblocks;
                    if k % 6 == 0 {
                        // encode
                        let m = if *n > 2 * len { len + 1 } else { (*n).min(len) };
                        let a = scalars(*sk, m, *s);
                        let want = if m > len { R::Err("PolynomialHasTooManyCoefficients") } else { R::S(fast_dft(&a, total, root(total))) };
                        return Some(("encode".into(), Box::new(move || match &o[i] {
                            Obj::Rs(rs, ..) => match rs.encode(a) { Ok(v) => R::S(v), Err(e) => R::Err(rsname(&e)) },
                            _ => R::Ok,
                        }), want));
                    }
                    let msg = scalars(*sk, len, *s);
                    let mut cw = fast_dft(&msg, total, root(total));
                    let mut r = Rng::new(mix2(*s, 9));
                    // erasures: distinct block indices
                    let mut er: Vec<usize> = vec![];
                    for x in e {
                        let b = *x as usize % block;
                        if !er.contains(&b) { er.push(b) }
                    }
                    let over = k % 6 == 5 && *n % 2 == 0;
                    if !over { er.truncate(cap) } else if er.len() <= cap && cap < block {
                        for b in 0..block { if er.len() <= cap && !er.contains(&b) { er.push(b) } }
                    }
                    let mut want = R::S(msg.clone());
                    if k % 6 == 5 && *n % 2 == 1 && !er.is_empty() {
                        let at = r.idx(er.len());
                        er[at] = block + r.idx(3);
                        want = R::Err("InvalidBlockIndex");
                    } else if er.len() > cap {
                        want = R::Err("TooManyBlockErasures");
                    }
                    for b in er.iter().filter(|b| **b < block) {
                        for t in 0..nblocks {
                            cw[b + t * block] = if s & 1 == 0 { Scalar::ZERO } else { rnd(&mut r) };
                        }
                    }
                    let alive: Vec<usize> = (0..total).filter(|x| !er.contains(&(x % block))).collect();
                    if let R::S(_) = want {
                        let nerr = match k % 6 { 2 => 1, 3 => 1 + r.idx(3), 4 => 1 + r.idx(alive.len()), _ => 0 };
                        for _ in 0..nerr {
                            let x = alive[r.idx(alive.len())];
                            cw[x] += if r.chance(1, 2) { Scalar::ONE } else { rnd(&mut r) };
                        }
                        if k % 6 == 4 && *n % 3 == 0 {
                            // the codeword of a polynomial one degree too high
                            let mut m2 = msg.clone();
                            if exp > 1 {
                                m2.push(rnd(&mut r));
                                let c2 = fast_dft(&m2, total, root(total));
                                for x in &alive { cw[*x] = c2[*x] }
                            }
                        }
                        // decode the slow way
                        let xs = naive_roots(total);
                        let (px, py): (Vec<Scalar>, Vec<Scalar>) = alive.iter().take(len).map(|x| (xs[*x], cw[*x])).unzip();
                        let c = if nerr == 0 && k % 6 != 4 { msg.clone() } else { lagrange(&px, &py) };
                        want = if alive.iter().all(|x| peval(&c, &xs[*x]) == cw[*x]) { R::S(c) } else { R::Err("PolynomialHasInvalidLength") };
                    }
                    ("recover_polynomial_coefficient".into(), Box::new(move || match &o[i] {
                        Obj::Rs(rs, ..) => match rs.recover_polynomial_coefficient(cw, erasure::BlockErasureIndices(er)) { Ok(v) => R::S(v), Err(e) => R::Err(rsname(&e)) },
                        _ => R::Ok,
                    }), want)
                }
                Obj::Fk(f) => {
                    let data = k & 1 == 0;
                    let v = scalars(*sk, f.len, *s);
                    let coeffs = if data {
                        let ni = Scalar::from(f.len as u64).invert().unwrap();
                        fast_dft(&brev(&v), f.len, root(f.len).invert().unwrap()).into_iter().map(|x| x * ni).collect::<Vec<_>>()
                    } else { v.clone() };
                    let input = move |v: Vec<Scalar>| if data { ProverInput::Data(v) } else { ProverInput::PolyCoeff(v) };
                    match k / 2 % 4 {
                        0 => {
                            let want = R::A(vec![g1_mul_gen(&peval(&coeffs, &f.tau)).to_affine()]);
                            ("commit".into(), Box::new(move || match &o[i] { Obj::Fk(f) => R::A(vec![f.p.commit(input(v))]), _ => R::Ok }), want)
                        }
                        1 => {
                            let (ev, pr) = f.expect(&coeffs);
                            let want = R::Arts(g1s(&pr), ev);
                            ("compute_multi_opening_proofs".into(), Box::new(move || match &o[i] { Obj::Fk(f) => { let (a, b) = f.p.compute_multi_opening_proofs(input(v)); R::Arts(a, b) }, _ => R::Ok }), want)
                        }
                        _ => {
                            // a batch over two polynomials, possibly with one thing wrong
                            let mut r = Rng::new(mix2(*s, 5));
                            let v2 = scalars((*s % 11) as u32, f.len, mix2(*s, 6));
                            let polys = [coeffs, v2];
                            let exp: Vec<_> = polys.iter().map(|c| (peval(c, &f.tau), f.expect(c))).collect();
                            let cnt = f.n / f.coset;
                            let m = (*n % 9).min(8);
                            let (mut ci, mut ki, mut ev, mut pr) = (vec![], vec![], vec![], vec![]);
                            for _ in 0..m {
                                let (a, b) = (r.idx(2), r.idx(cnt));
                                ci.push(a as u64);
                                ki.push(b as u64);
                                ev.push(exp[a].1 .0[b].clone());
                                pr.push(exp[a].1 .1[b]);
                            }
                            if m > 0 && k / 2 % 4 == 3 {
                                let x = r.idx(m);
                                match e.first().copied().unwrap_or(0) % 5 {
                                    0 => ev[x][(e.last().copied().unwrap_or(0) as usize) % f.coset] += Scalar::ONE,
                                    1 => pr[x] += Scalar::ONE,
                                    2 => ki[x] = (ki[x] + 1) % cnt as u64,
                                    3 => ci[x] = 1 - ci[x],
                                    _ => { let y = r.idx(m); ev.swap(x, y) }
                                }
                            }
                            let ok = (0..m).all(|t| {
                                let x = f.coset_points(ki[t] as usize);
                                let z = pow(f.tau, f.coset as u64) - pow(x[0], f.coset as u64);
                                exp[ci[t] as usize].0 - f.interp(&x, &ev[t]) == pr[t] * z
                            });
                            let coms = g1s(&[exp[0].0, exp[1].0]);
                            let prs = g1s(&pr);
                            ("verify_multi_opening".into(), Box::new(move || match &o[i] {
                                Obj::Fk(f) => if f.v.verify_multi_opening(&coms, &ci, &ki, &ev, &prs).is_ok() { R::Ok } else { R::Err("InvalidProof") },
                                _ => R::Ok,
                            }), if ok { R::Ok } else { R::Err("InvalidProof") })
                        }
                    }
                }
            }
        }
    })
}
fn rsname(e: &erasure::errors::RSError) -> &'static str {
    use erasure::errors::RSError::*;
    match e {
        PolynomialHasTooManyCoefficients { .. } => "PolynomialHasTooManyCoefficients",
        PolynomialHasInvalidLength { .. } => "PolynomialHasInvalidLength",
        TooManyBlockErasures { .. } => "TooManyBlockErasures",
        InvalidBlockIndex { .. } => "InvalidBlockIndex",
    }
}
fn run_one(ci: usize, steps: Vec<(usize, String, Call, R)>) {
    for (si, name, call, want) in steps {
        if rep().viol.is_some() {
            return;
        }
        let got = catch_unwind(AssertUnwindSafe(call));
        let (got, msg) = match got {
            Ok(r) => (r, String::new()),
            Err(e) => (R::Panic, panic_text(e)),
        };
        let mut r = rep();
        r.add("calls", 1);
        r.add(&format!("op.{name}"), 1);
        r.ev(got.show().as_bytes());
        r.ev(&rt::now().to_le_bytes());
        if got != want {
            let class = if got == R::Panic { "panic" } else { "wrong-value" };
            r.fail(viol(&["C16"], &format!("{class}-{name}"), format!("{name} answered {}{}{msg}, expected {}", got.show(), if msg.is_empty() { "" } else { ": " }, want.show())), json!([ci, si]));
        }
    }
}
pub fn run(plan: &Plan) {
    let specs: Vec<ObjSpec> = serde_json::from_value(plan.extra["objs"].clone()).unwrap_or_default();
    let mut objs = vec![];
    for (i, s) in specs.iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| build_obj(s))) {
            Ok(o) => objs.push(o),
            Err(e) => {
                rep().fail(viol(&["C16"], "panic-construction", format!("building {s:?} panicked: {}", panic_text(e))), json!(["obj", i]));
                return;
            }
        }
    }
    let objs = Arc::new(objs);
    let mut jobs = vec![];
    for c in &plan.callers {
        let mut v = vec![];
        for (si, s) in c.steps.iter().enumerate() {
            if let Step::Block { x } = s {
                if let Ok(op) = serde_json::from_value::<BOp>(x.clone()) {
                    if let Some((a, b, d)) = prep(&op, &objs) {
                        if let BOp::On { k, .. } = &op {
                            if a == "recover_polynomial_coefficient" {
                                rep().add("fault.erasures", 1);
                                if (2..5).contains(&(k % 6)) { rep().add("fault.corrupted-symbols", 1) }
                            }
                        }
                        v.push((si, a, b, d));
                    }
                }
            }
        }
        jobs.push((c.pool, v));
    }
    let gate = Arc::new(std::sync::Barrier::new(jobs.len() + 1));
    #[cfg(feature = "mt")]
    let pools: std::collections::BTreeMap<u32, Arc<rayon::ThreadPool>> =
        jobs.iter().filter(|j| j.0 > 0).map(|j| (j.0, Arc::new(rayon::ThreadPoolBuilder::new().num_threads(j.0 as usize).build().unwrap()))).collect();
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(ci, (pool, steps))| {
            let gate = gate.clone();
            #[cfg(feature = "mt")]
            let p = pools.get(&pool).cloned();
            #[cfg(not(feature = "mt"))]
            let _ = pool;
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    gate.wait();
                    #[cfg(feature = "mt")]
                    if let Some(p) = p {
                        p.install(|| run_one(ci, steps));
                        return;
                    }
                    run_one(ci, steps)
                })
                .unwrap()
        })
        .collect();
    gate.wait();
    for h in hs {
        if h.join().is_err() {
            rep().fail(viol(&["C16"], "caller-died", "a caller thread panicked outside a call".into()), Value::Null);
        }
    }
    #[cfg(feature = "mt")]
    drop(pools);
    drop(objs);
    rt::quiesce(200_000);
}
fn size(r: &mut Rng, max: u64) -> usize {
    (match r.below(8) {
        0 => r.below(4),
        1 => 1 << r.below(10),
        2 => (1u64 << r.below(10)).saturating_add(1),
        3 => (1u64 << r.below(10)) - 1,
        4 => 14 + r.below(22),
        5 => r.below(40),
        _ => r.below(max + 1),
    })
    .min(max) as usize
}
fn obj_spec(r: &mut Rng, deep: bool) -> ObjSpec {
        match r.below(10) {
            0..=2 => {
                let width = *r.pick(&[0usize, 2, 3, 4, 5, 6, 7, 8, 9, 11]);
                let blst = width >= 2 && r.chance(1, 5);
                ObjSpec::Fixed { n: 1 + size(r, if width > 8 { 10 } else { 70 }), width: if blst { width.min(8) } else { width }, blst, s: r.below(1 << 40) }
            }
            3..=4 => ObjSpec::Dom { size: if r.chance(1, 4) { 1 + size(r, 300) } else { 1 << r.below(if deep { 11 } else { 9 }) } },
            5..=6 => {
                let (len, exp) = (1usize << r.below(7), 1usize << r.below(4));
                let total = len * exp;
                let block = 1usize << r.below(log2(total) as u64 + 1);
                ObjSpec::Rs { len, exp, block }
            }
            _ => {
                let lg = 3 + r.below(if deep { 6 } else { 4 });
                let len = 1usize << lg;
                let coset = 1usize << r.below(lg - 1);
                ObjSpec::Fk { len, coset, exp: *r.pick(&[2usize, 2, 4]), width: *r.pick(&[0usize, 0, 2, 4, 6]), s: r.below(1 << 40) }
            }
        }
}
pub fn plan(r: &mut Rng, seed: u64, deep: bool) -> Plan {
    // in some runs all callers do the same thing to the same object
    let same = r.chance(1, 4);
    let nobj = if same { 1 } else { 1 + r.idx(3) };
    let objs: Vec<ObjSpec> = (0..nobj).map(|_| obj_spec(r, deep)).collect();
    let (same_k, same_sk) = (r.below(24) as u32, *r.pick(&[0u32, 0, 3, 5]));
    let nc = if same { 2 + r.idx(3) } else { *r.pick(&[1usize, 1, 2, 3, 4]) };
    let mut callers = vec![];
    for _ in 0..nc {
        let mut steps = vec![];
        for _ in 0..2 + r.idx(4) {
            let (s, sk) = (r.below(1 << 40), *r.pick(&[0u32, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]));
            let op = match if same { 19 } else { r.below(21) } {
                0..=3 => BOp::Lincomb { g2: false, n: size(r, if deep { 1500 } else { 400 }), pk: *r.pick(&[0u32, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), sk, s, short: if r.chance(1, 12) { *r.pick(&[-1i64, 1, -3, 40]) } else { 0 } },
                4 => BOp::Lincomb { g2: true, n: size(r, 70), pk: *r.pick(&[0u32, 1, 4, 5, 6, 7, 9, 10]), sk, s, short: if r.chance(1, 12) { *r.pick(&[-1i64, 1]) } else { 0 } },
                5..=6 => {
                    let multi = r.chance(2, 3);
                    let many = multi && r.chance(1, 4);
                    let n = if many { 20 + r.idx(300) } else if multi { r.idx(12) } else { 1 };
                    BOp::Add { sizes: (0..n).map(|_| if many { r.idx(7) } else { size(r, 120) }).collect(), multi, pk: r.below(5) as u32, s }
                }
                7 => BOp::Inv { n: size(r, 200), fp: r.chance(1, 3), zero: if r.chance(1, 5) { Some(r.idx(200)) } else { None }, s },
                8..=9 => BOp::Poly { k: r.below(7) as u32, a: size(r, 48), b: size(r, 48), sk, s },
                12 => BOp::Group { k: r.below(6) as u32, n: size(r, 40), pk: r.below(11) as u32, sk, s },
                10 => BOp::Reduce { k: r.below(5) as u32, s },
                11 => {
                    let lg = r.below(8);
                    BOp::Reorder { dom: 1 << lg, coset: 1 << r.below(lg + 1), n: r.idx(140), bad: r.below(4) as u32, s }
                }
                20 => BOp::New { spec: obj_spec(r, false), k: r.below(24) as u32, sk, n: size(r, 300), s, e: (0..r.below(8)).map(|_| r.below(512)).collect() },
                _ => BOp::On { obj: r.idx(nobj), k: if same { same_k } else { r.below(24) as u32 }, sk: if same { same_sk } else { sk }, n: size(r, 300), s, e: { let n = *r.pick(&[0usize, 1, 3, 10, 60, 300]); let base = r.below(512); let run = r.chance(1, 2); (0..n).map(|i| if run { base + i as u64 } else { r.below(512) }).collect() } },
            };
            steps.push(Step::Block { x: serde_json::to_value(op).unwrap() });
        }
        callers.push(Caller { pool: *r.pick(&[0u32, 0, 1, 2, 3]), reuse: false, steps });
    }
    let sim = crate::gen::sim_cfg(r, nc as u32);
    Plan { scn: "blocks".into(), prop: "C16".into(), seed, sim, callers, extra: json!({ "objs": objs }), ..Default::default() }
}
