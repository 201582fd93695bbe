//! The template every episode is forked from: a trusted setup and a handful of differently deployed contexts.
use crate::model::*;
use crate::rt;
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve};
use rust_eth_kzg::{DASContext, TrustedSetup, UsePrecomp};
#[cfg(feature = "mt")]
use rust_eth_kzg::ThreadCount;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct CtxSpec {
    pub threads: i64, // -1 Single, 0 SensibleDefault, n Multi(n)
    pub width: u64,   // 0: no precomputation
    pub ncpu: u32,    // CPUs visible while it is built
}
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Template {
    pub kind: String,     // rust | capi | java | node
    pub tau: Option<u64>, // None: the built-in setup
    pub ctxs: Vec<CtxSpec>,
    pub seed: u64,
    pub policy: u32,
    pub prestart: bool, // start the process-wide pools (rayon's, blst's) before building contexts
    pub ncpu: u32,      // CPUs visible then
}
pub struct Art {
    pub vals: Vec<Scalar>,
    pub ext: Vec<Scalar>,
    pub c: [u8; 48],
    pub c_log: Scalar,
    pub q_logs: Vec<Scalar>,
    pub proofs: Vec<[u8; 48]>,
    pub cells: Vec<Box<[u8; CELL_BYTES]>>,
    pub blob: Vec<u8>,
    pub bad: Option<String>, // built-in setup only: the artefacts failed the pairing equations
}
pub enum Secret {
    Tau(Tau),
    Main(Main),
}
/// the built-in setup as decoded by the harness
pub struct Main {
    pub g1: Vec<G1Affine>,
    pub lag: Vec<G1Affine>,
    pub g2: Vec<G2Affine>,
}
pub struct World {
    pub tpl: Template,
    pub secret: Secret,
    pub ts: TrustedSetup,
    pub ctxs: Vec<Option<Arc<DASContext>>>,
    pub grown: Vec<i64>, // fibres added while building context i
    pub base_live: u64,
    pub arts: Vec<(u32, u64, Arc<Art>)>, // prepared artefacts
    pub trust: bool, // built-in setup: take proofs from the library without checking them (binding checks only)
}
static mut WORLD: *mut World = std::ptr::null_mut();
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
pub fn set_world(w: World) {
    unsafe { WORLD = Box::into_raw(Box::new(w)) }
}

fn hx(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}
pub fn tau_setup(t: &Tau) -> TrustedSetup {
    let mono = t.g1_monomial();
    let mut aff = vec![G1Affine::default(); mono.len()];
    G1Projective::batch_normalize(&mono, &mut aff);
    let g1_monomial = aff.iter().map(|p| hx(&p.to_compressed())).collect();
    // Lagrange basis over the natural-order domain
    let w = root(N);
    let mut xs = vec![Scalar::ONE; N];
    for i in 1..N {
        xs[i] = xs[i - 1] * w;
    }
    let mut inv: Vec<_> = xs.iter().map(|x| t.tau - x).collect();
    batch_inv(&mut inv);
    let k = (pow(t.tau, N as u64) - Scalar::ONE) * Scalar::from(N as u64).invert().unwrap();
    let lag: Vec<_> = (0..N).map(|i| g1_mul_gen(&(k * xs[i] * inv[i]))).collect();
    G1Projective::batch_normalize(&lag, &mut aff);
    let g1_lagrange = aff.iter().map(|p| hx(&p.to_compressed())).collect();
    let g2_monomial = t.g2_monomial().iter().map(|p| hx(&p.to_compressed())).collect();
    TrustedSetup { g1_monomial, g1_lagrange, g2_monomial }
}
pub fn dehex(s: &str) -> Option<Vec<u8>> {
    hex::decode(s.strip_prefix("0x").unwrap_or(s)).ok()
}
fn main_setup(ts: &TrustedSetup) -> Main {
    let g1 = |v: &Vec<String>| -> Vec<G1Affine> { v.iter().map(|s| G1Affine::from_compressed_unchecked(&dehex(s).unwrap().try_into().unwrap()).unwrap()).collect() };
    Main { g1: g1(&ts.g1_monomial), lag: g1(&ts.g1_lagrange), g2: ts.g2_monomial.iter().map(|s| G2Affine::from_compressed_unchecked(&dehex(s).unwrap().try_into().unwrap()).unwrap()).collect() }
}
/// plain bucket method
pub fn msm(p: &[G1Affine], s: &[Scalar]) -> G1Projective {
    let b: Vec<[u8; 32]> = s.iter().map(|x| x.to_bytes_be()).collect();
    let mut acc = <G1Projective as group::Group>::identity();
    for w in 0..32 {
        for _ in 0..8 {
            acc = acc + acc;
        }
        let mut bk = vec![<G1Projective as group::Group>::identity(); 256];
        for i in 0..p.len() {
            let d = b[i][w];
            if d != 0 {
                bk[d as usize] += p[i];
            }
        }
        let (mut run, mut sum) = (<G1Projective as group::Group>::identity(), <G1Projective as group::Group>::identity());
        for d in (1..256).rev() {
            run += bk[d];
            sum += run;
        }
        acc += sum;
    }
    acc
}
impl Main {
    /// commitment to the polynomial of degree < 64 through a cell, in the exponent
    fn cell_commit(&self, i: usize, v: &[Scalar]) -> G1Projective {
        let w = root(64);
        let h = points()[i * PER_CELL];
        let winv = w.invert().unwrap();
        let hinv = h.invert().unwrap();
        let inv64 = Scalar::from(64u64).invert().unwrap();
        let mut pw = vec![Scalar::ONE; 64];
        for k in 1..64 {
            pw[k] = pw[k - 1] * winv;
        }
        let mut c = Vec::new();
        let mut hp = Scalar::ONE;
        for j in 0..64 {
            let mut s = Scalar::ZERO;
            for m in 0..64 {
                s += v[m] * pw[brp(m, 6) * j % 64];
            }
            c.push(s * inv64 * hp);
            hp *= hinv;
        }
        msm(&self.g1[..64], &c)
    }
    fn truth(&self, c: &G1Affine, i: usize, v: &[Scalar], q: &G1Affine) -> bool {
        let lhs = (G1Projective::from(c) - self.cell_commit(i, v)).to_affine();
        let z = (G2Projective::from(self.g2[64]) - G2Projective::generator_mul(&coset_z(i))).to_affine();
        blstrs::pairing(&lhs, &G2Affine::generator()) == blstrs::pairing(q, &z)
    }
    pub fn commit(&self, vals: &[Scalar]) -> [u8; 48] {
        let nat: Vec<_> = (0..N).map(|i| vals[brp(i, 12)]).collect();
        compress(&msm(&self.lag, &nat))
    }
}
trait GenMul {
    fn generator_mul(s: &Scalar) -> G2Projective;
}
impl GenMul for G2Projective {
    fn generator_mul(s: &Scalar) -> G2Projective {
        use group::Group;
        G2Projective::generator() * s
    }
}
impl World {
    pub fn tau(&self) -> Option<&Tau> {
        match &self.secret {
            Secret::Tau(t) => Some(t),
            _ => None,
        }
    }
    pub fn truth(&self, c: &[u8; 48], idx: u64, cell: &[u8], proof: &[u8; 48]) -> Truth {
        match &self.secret {
            Secret::Tau(t) => t.truth(c, idx, cell, proof),
            Secret::Main(m) => {
                if idx >= CELLS as u64 {
                    return Truth::Malformed;
                }
                let (Some(c), Some(q)) = (Option::<G1Affine>::from(G1Affine::from_compressed(c)), Option::<G1Affine>::from(G1Affine::from_compressed(proof))) else {
                    return Truth::Malformed;
                };
                let Some(v) = parse_scalars(cell) else { return Truth::Malformed };
                if m.truth(&c, idx as usize, &v, &q) { Truth::True } else { Truth::False }
            }
        }
    }
    pub fn art_vals(&self, vals: Vec<Scalar>) -> Art {
        let ext = extend(&vals);
        let blob = scalars_bytes(&vals);
        let cells: Vec<Box<[u8; CELL_BYTES]>> = (0..CELLS)
            .map(|i| {
                let v: Box<[u8]> = scalars_bytes(&ext[i * PER_CELL..(i + 1) * PER_CELL]).into();
                v.try_into().unwrap()
            })
            .collect();
        match &self.secret {
            Secret::Tau(t) => {
                let (c_log, q_logs) = t.artefact_logs(&vals, &ext);
                let pts: Vec<_> = q_logs.iter().map(g1_mul_gen).collect();
                let mut aff = vec![G1Affine::default(); pts.len()];
                batch_norm(&pts, &mut aff);
                Art { c: compress(&g1_mul_gen(&c_log)), c_log, proofs: aff.iter().map(|p| p.to_compressed()).collect(), q_logs, vals, ext, cells, blob, bad: None }
            }
            Secret::Main(m) => {
                // ask the library, then hold its answer against the pairing equation, proof by proof
                let c = m.commit(&vals);
                let mut a = Art { vals, ext, c, c_log: Scalar::ZERO, q_logs: vec![], proofs: vec![[0u8; 48]; 128], cells, blob, bad: None };
                let ctx = self.ctxs.iter().flatten().next().expect("context");
                let blob: &[u8; BLOB_BYTES] = a.blob.as_slice().try_into().unwrap();
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ctx.compute_cells_and_kzg_proofs(blob))) {
                    Ok(Ok((_, p))) => {
                        a.proofs = p.to_vec();
                        for i in 0..if self.trust { 0 } else { CELLS } {
                            if self.truth(&a.c, i as u64, &a.cells[i][..], &a.proofs[i]) != Truth::True {
                                a.bad = Some(format!("proof {i} of the built-in setup does not satisfy the pairing equation"));
                                break;
                            }
                        }
                    }
                    Ok(Err(e)) => a.bad = Some(format!("compute failed: {e:?}")),
                    Err(_) => a.bad = Some("compute panicked".into()),
                }
                a
            }
        }
    }
    pub fn art(&self, kind: u32, seed: u64) -> Arc<Art> {
        for (k, s, a) in &self.arts {
            if *k == kind && *s == seed {
                return a.clone();
            }
        }
        Arc::new(self.art_vals(make_blob(kind, seed)))
    }
}
/// batch_normalize that copes with the identity
pub fn batch_norm(p: &[G1Projective], out: &mut [G1Affine]) {
    for (a, b) in p.iter().zip(out.iter_mut()) {
        *b = a.to_affine();
    }
}
pub fn cfg_for(tpl: &Template, k: u64, ncpu: u32) -> rt::SimCfg {
    rt::SimCfg { seed: crate::rng::mix2(tpl.seed, k), policy: tpl.policy, mean_slice: 5000, hot_denom: 400, sync_denom: 8, ncpu: ncpu.max(1), ..Default::default() }
}
pub fn precomp(width: u64) -> UsePrecomp {
    if width == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: width as usize } }
}
#[cfg(feature = "mt")]
pub fn make_ctx(ts: &TrustedSetup, s: &CtxSpec) -> DASContext {
    let t = match s.threads {
        -1 => ThreadCount::Single,
        0 => ThreadCount::SensibleDefault,
        n => ThreadCount::Multi(n as usize),
    };
    DASContext::with_threads(ts, t, precomp(s.width))
}
#[cfg(not(feature = "mt"))]
pub fn make_ctx(ts: &TrustedSetup, s: &CtxSpec) -> DASContext {
    DASContext::new(ts, precomp(s.width))
}
pub fn build(tpl: Template) {
    rt::start();
    rt::configure(&cfg_for(&tpl, 0, tpl.ncpu.max(1)), &[], false);
    points();
    g1_mul_gen(&Scalar::ONE);
    let (secret, ts) = match tpl.tau {
        Some(s) => {
            let t = Tau::new(s);
            let ts = tau_setup(&t);
            (Secret::Tau(t), ts)
        }
        None => {
            let ts = TrustedSetup::default();
            (Secret::Main(main_setup(&ts)), ts)
        }
    };
    #[cfg(feature = "mt")]
    if tpl.prestart {
        let _ = rayon::current_num_threads();
        rayon::join(|| (), || ());
        // blst keeps a process-wide pool too, started by the first large multi-scalar multiplication
        let p: Vec<G1Projective> = (1..200u64).map(|i| g1_mul_gen(&Scalar::from(i))).collect();
        let s: Vec<Scalar> = (1..200u64).map(Scalar::from).collect();
        let _ = G1Projective::multi_exp(&p, &s);
    }
    rt::quiesce(100000);
    let base_live = rt::stats().live;
    let mut w = World { secret, ts, ctxs: vec![], grown: vec![], base_live, arts: vec![], trust: false, tpl: tpl.clone() };
    let mut before = base_live;
    for (i, s) in tpl.ctxs.iter().enumerate() {
        if tpl.kind != "rust" {
            break;
        }
        rt::configure(&cfg_for(&tpl, 1 + i as u64, s.ncpu), &[], false);
        let c = make_ctx(&w.ts, s);
        rt::quiesce(100000);
        let now = rt::stats().live;
        w.grown.push(now as i64 - before as i64);
        before = now;
        w.ctxs.push(Some(Arc::new(c)));
    }
    set_world(w);
}
