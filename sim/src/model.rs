//! Reference model. Knows the secret of the trusted setup, so that every artefact and the truth of
//! every tuple follow from field arithmetic: no FK20, no erasure decoding through FFT division, no
//! pairing, no Fiat-Shamir, no deduplication. Trusted base: blstrs field/group operations.
use crate::rng::Rng;
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use std::sync::OnceLock;

pub const N: usize = 4096;
pub const EXT: usize = 8192;
pub const CELLS: usize = 128;
pub const PER_CELL: usize = 64;
pub const BLOB_BYTES: usize = N * 32;
pub const CELL_BYTES: usize = PER_CELL * 32;

pub fn brp(i: usize, bits: u32) -> usize {
    ((i as u64).reverse_bits() >> (64 - bits)) as usize
}
pub fn pow(b: Scalar, mut e: u64) -> Scalar {
    let (mut r, mut b) = (Scalar::ONE, b);
    while e > 0 {
        if e & 1 == 1 {
            r *= b;
        }
        b *= b;
        e >>= 1;
    }
    r
}
/// a primitive n-th root of unity: 7^((r-1)/n), n a power of two up to 2^32
pub fn root(n: usize) -> Scalar {
    // (r-1)/2^32 as little-endian limbs
    let mut r1 = Scalar::ZERO - Scalar::ONE;
    let le = r1.to_bytes_le();
    r1 = Scalar::ONE;
    let _ = r1;
    let mut limbs = [0u64; 4];
    for i in 0..4 {
        limbs[i] = u64::from_le_bytes(le[i * 8..i * 8 + 8].try_into().unwrap());
    }
    // shift right by log2(n)
    let s = n.trailing_zeros();
    let mut out = [0u64; 4];
    for i in 0..4 {
        out[i] = limbs[i] >> s | if i < 3 && s > 0 { limbs[i + 1] << (64 - s) } else { 0 };
    }
    let g = Scalar::from(7u64);
    let (mut r, mut b) = (Scalar::ONE, g);
    for i in 0..4 {
        for j in 0..64 {
            if out[i] >> j & 1 == 1 {
                r *= b;
            }
            b *= b;
        }
    }
    r
}
/// x-coordinates of the extended domain in protocol (bit-reversed) order
pub fn points() -> &'static Vec<Scalar> {
    static P: OnceLock<Vec<Scalar>> = OnceLock::new();
    P.get_or_init(|| {
        let w = root(EXT);
        let mut p = vec![Scalar::ONE; EXT];
        for i in 1..EXT {
            p[i] = p[i - 1] * w;
        }
        (0..EXT).map(|i| p[brp(i, 13)]).collect()
    })
}
/// h_i^64 for cell i
pub fn coset_z(i: usize) -> Scalar {
    pow(points()[i * PER_CELL], 64)
}
pub fn dft(a: &[Scalar], w: Scalar) -> Vec<Scalar> {
    // plain recursive radix-2
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let e: Vec<_> = a.iter().step_by(2).copied().collect();
    let o: Vec<_> = a.iter().skip(1).step_by(2).copied().collect();
    let w2 = w * w;
    let (e, o) = (dft(&e, w2), dft(&o, w2));
    let mut r = vec![Scalar::ZERO; n];
    let mut x = Scalar::ONE;
    for i in 0..n / 2 {
        let t = x * o[i];
        r[i] = e[i] + t;
        r[i + n / 2] = e[i] - t;
        x *= w;
    }
    r
}
pub fn batch_inv(v: &mut [Scalar]) {
    let mut acc = vec![Scalar::ONE; v.len()];
    let mut p = Scalar::ONE;
    for i in 0..v.len() {
        acc[i] = p;
        p *= v[i];
    }
    let mut inv = p.invert().unwrap();
    for i in (0..v.len()).rev() {
        let t = inv * acc[i];
        inv *= v[i];
        v[i] = t;
    }
}
/// values of the blob polynomial over the extended domain, protocol order
pub fn extend(vals: &[Scalar]) -> Vec<Scalar> {
    eval_ext(&interpolate_blob(vals))
}
/// coefficients from the 4096 blob values (protocol order)
pub fn interpolate_blob(vals: &[Scalar]) -> Vec<Scalar> {
    let nat: Vec<_> = (0..N).map(|i| vals[brp(i, 12)]).collect();
    let winv = root(N).invert().unwrap();
    let mut c = dft(&nat, winv);
    let ninv = Scalar::from(N as u64).invert().unwrap();
    for x in &mut c {
        *x *= ninv;
    }
    c
}
pub fn eval_ext(coeffs: &[Scalar]) -> Vec<Scalar> {
    let mut c = coeffs.to_vec();
    c.resize(EXT, Scalar::ZERO);
    let nat = dft(&c, root(EXT));
    (0..EXT).map(|i| nat[brp(i, 13)]).collect()
}
pub fn parse_scalars(b: &[u8]) -> Option<Vec<Scalar>> {
    b.chunks(32).map(|c| Option::<Scalar>::from(Scalar::from_bytes_be(c.try_into().unwrap()))).collect()
}
pub fn scalars_bytes(v: &[Scalar]) -> Vec<u8> {
    v.iter().flat_map(|s| s.to_bytes_be()).collect()
}
/// fixed-base table for the G1 generator, byte windows
fn gen_table() -> &'static Vec<Vec<G1Affine>> {
    static T: OnceLock<Vec<Vec<G1Affine>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut base = G1Projective::generator();
        let mut t = Vec::new();
        for _ in 0..32 {
            let mut row = vec![G1Projective::identity(); 256];
            for i in 1..256 {
                row[i] = row[i - 1] + base;
            }
            base = row[255] + base;
            t.push(row.iter().map(|p| p.to_affine()).collect());
        }
        t
    })
}
pub fn g1_mul_gen(s: &Scalar) -> G1Projective {
    let t = gen_table();
    let b = s.to_bytes_le();
    let mut r = G1Projective::identity();
    for i in 0..32 {
        if b[i] != 0 {
            r += t[i][b[i] as usize];
        }
    }
    r
}
pub fn compress(p: &G1Projective) -> [u8; 48] {
    p.to_affine().to_compressed()
}
/// multiplication that is right for any curve point, in the subgroup or not
pub fn double_and_add(p: &G1Projective, le_bits: &[u8]) -> G1Projective {
    let mut r = G1Projective::identity();
    for byte in le_bits.iter().rev() {
        for j in (0..8).rev() {
            r = r.double();
            if byte >> j & 1 == 1 {
                r += p;
            }
        }
    }
    r
}
/// a point on the curve of order coprime to the group order (so: not in the subgroup, invisible to pairings)
pub fn torsion_point(rng: &mut Rng) -> G1Projective {
    let r_le = {
        let mut m = (Scalar::ZERO - Scalar::ONE).to_bytes_le();
        m[0] = 1; // r-1 ends in 0x00000000, so r is r-1 with the low bit set
        m
    };
    loop {
        let mut b = [0u8; 48];
        rng.bytes(&mut b);
        b[0] = 0x80 | (b[0] & 0x0f) | (b[0] & 0x20);
        if let Some(p) = Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&b)) {
            let t = double_and_add(&p.into(), &r_le);
            if !bool::from(t.is_identity()) {
                return t;
            }
        }
    }
}

/// A trusted setup whose secret is known.
pub struct Tau {
    pub tau: Scalar,
    inv: Vec<Scalar>, // 1/(tau - x) for every extended-domain point
    tn: Scalar,       // tau^4096 - 1
    t64: Scalar,      // tau^64
}
pub fn scalar_from(rng: &mut Rng) -> Scalar {
    loop {
        let mut b = [0u8; 32];
        rng.bytes(&mut b);
        b[0] &= 0x7f;
        if let Some(s) = Option::<Scalar>::from(Scalar::from_bytes_be(&b)) {
            return s;
        }
    }
}
impl Tau {
    pub fn new(seed: u64) -> Tau {
        let mut rng = Rng::new(seed ^ 0x7a75);
        let tau = scalar_from(&mut rng);
        let mut inv: Vec<_> = points().iter().map(|x| tau - x).collect();
        batch_inv(&mut inv);
        Tau { tau, inv, tn: pow(tau, N as u64) - Scalar::ONE, t64: pow(tau, 64) }
    }
    pub fn g1_monomial(&self) -> Vec<G1Projective> {
        let mut t = Scalar::ONE;
        (0..N)
            .map(|_| {
                let p = g1_mul_gen(&t);
                t *= self.tau;
                p
            })
            .collect()
    }
    pub fn g2_monomial(&self) -> Vec<G2Affine> {
        let mut t = Scalar::ONE;
        (0..65)
            .map(|_| {
                let p = (G2Projective::generator() * t).to_affine();
                t *= self.tau;
                p
            })
            .collect()
    }
    /// p(tau) from the blob values
    pub fn eval_blob(&self, vals: &[Scalar]) -> Scalar {
        let x = points();
        let mut s = Scalar::ZERO;
        for i in 0..N {
            if vals[i] != Scalar::ZERO {
                s += vals[i] * x[i] * self.inv[i];
            }
        }
        s * self.tn * Scalar::from(N as u64).invert().unwrap()
    }
    /// I(tau) for the cell's interpolation polynomial on coset `i`
    pub fn eval_cell(&self, i: usize, vals: &[Scalar]) -> Scalar {
        let x = &points()[i * PER_CELL..(i + 1) * PER_CELL];
        let z = coset_z(i);
        let mut s = Scalar::ZERO;
        for j in 0..PER_CELL {
            s += vals[j] * x[j] * self.inv[i * PER_CELL + j];
        }
        s * (self.t64 - z) * (Scalar::from(64u64) * z).invert().unwrap()
    }
    pub fn z(&self, i: usize) -> Scalar {
        self.t64 - coset_z(i)
    }
    /// discrete logs of commitment and of the 128 proofs
    pub fn artefact_logs(&self, vals: &[Scalar], ext: &[Scalar]) -> (Scalar, Vec<Scalar>) {
        let p = self.eval_blob(vals);
        let q = (0..CELLS)
            .map(|i| (p - self.eval_cell(i, &ext[i * PER_CELL..(i + 1) * PER_CELL])) * self.z(i).invert().unwrap())
            .collect();
        (p, q)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Truth {
    True,
    False,
    Malformed,
}
impl Tau {
    /// Is (commitment, index, cell, proof) true under this setup? Decided in the exponent group:
    /// C - I(tau) G == Z(tau) proof.
    pub fn truth(&self, c: &[u8; 48], idx: u64, cell: &[u8], proof: &[u8; 48]) -> Truth {
        if idx >= CELLS as u64 {
            return Truth::Malformed;
        }
        let (Some(c), Some(q)) = (Option::<G1Affine>::from(G1Affine::from_compressed(c)), Option::<G1Affine>::from(G1Affine::from_compressed(proof))) else {
            return Truth::Malformed;
        };
        let Some(v) = parse_scalars(cell) else { return Truth::Malformed };
        let i = idx as usize;
        let lhs = G1Projective::from(c) - g1_mul_gen(&self.eval_cell(i, &v));
        let rhs = q * self.z(i);
        if lhs == rhs { Truth::True } else { Truth::False }
    }
}

pub enum Rec {
    Ok(Vec<Scalar>), // 8192 values, protocol order
    NotCodeword,
    Invalid,
}
/// What recovery must answer for this input. Solves p(x) = sum_j x^j A_j(x^64) by Lagrange
/// interpolation of every A_j over the cosets' x^64 values.
pub fn recover(indices: &[u64], cells: &[&[u8]]) -> Rec {
    if indices.len() != cells.len() || indices.len() < 64 || indices.len() > 128 {
        return Rec::Invalid;
    }
    let mut seen = [false; CELLS];
    for &i in indices {
        if i >= CELLS as u64 || seen[i as usize] {
            return Rec::Invalid;
        }
        seen[i as usize] = true;
    }
    let mut vals = Vec::new();
    for c in cells {
        match parse_scalars(c) {
            Some(v) => vals.push(v),
            None => return Rec::Invalid,
        }
    }
    // coefficients of each of the first 64 cells' interpolation polynomials: values at h*w64^brp(j)
    let w = root(64);
    let mut winv = vec![Scalar::ONE; 64];
    let wi = w.invert().unwrap();
    for k in 1..64 {
        winv[k] = winv[k - 1] * wi;
    }
    let inv64 = Scalar::from(64u64).invert().unwrap();
    let mut coeff = Vec::new(); // [cell][j]
    for k in 0..64 {
        let h = points()[indices[k] as usize * PER_CELL];
        let hinv = h.invert().unwrap();
        let mut hp = Scalar::ONE;
        let mut c = Vec::with_capacity(64);
        for j in 0..64 {
            let mut s = Scalar::ZERO;
            for m in 0..64 {
                s += vals[k][brp(m, 6)] * winv[m * j % 64];
            }
            c.push(s * inv64 * hp);
            hp *= hinv;
        }
        coeff.push(c);
    }
    // Lagrange basis over z_k
    let z: Vec<_> = (0..64).map(|k| coset_z(indices[k] as usize)).collect();
    // master polynomial
    let mut m = vec![Scalar::ONE];
    for zk in &z {
        let mut n = vec![Scalar::ZERO; m.len() + 1];
        for (i, c) in m.iter().enumerate() {
            n[i + 1] += c;
            n[i] -= c * zk;
        }
        m = n;
    }
    let mut coeffs = vec![Scalar::ZERO; N];
    for k in 0..64 {
        // m / (x - z_k), synthetic division
        let mut q = vec![Scalar::ZERO; 64];
        let mut c = Scalar::ZERO;
        for i in (0..64).rev() {
            c = m[i + 1] + c * z[k];
            q[i] = c;
        }
        let mut d = Scalar::ZERO;
        for i in (0..64).rev() {
            d = d * z[k] + q[i];
        }
        let dinv = d.invert().unwrap();
        for j in 0..64 {
            let f = coeff[k][j] * dinv;
            if f == Scalar::ZERO {
                continue;
            }
            for t in 0..64 {
                coeffs[j + 64 * t] += f * q[t];
            }
        }
    }
    let ext = eval_ext(&coeffs);
    for (k, v) in vals.iter().enumerate() {
        let i = indices[k] as usize;
        if &ext[i * PER_CELL..(i + 1) * PER_CELL] != v.as_slice() {
            return Rec::NotCodeword;
        }
    }
    Rec::Ok(ext)
}

/// Blob families, chosen for structure: sparse, boundary values, low degree, repeated...
pub const BLOB_KINDS: u32 = 16;
/// kinds from 100: a blob of kind `kind % 100` and the same seed, slightly changed
pub const RELATED: u32 = 7;
pub fn make_blob(kind: u32, seed: u64) -> Vec<Scalar> {
    if kind >= 100 {
        let mut v = make_blob(kind % 100, seed);
        let mut rng = Rng::new(seed ^ 0x7e1a7ed);
        match kind / 100 {
            1 => v.iter_mut().for_each(|x| *x = -*x), // commitment, proofs and cells negated
            2 => { let k = rng.idx(N); v[k] += Scalar::ONE }
            3 => v.iter_mut().for_each(|x| *x += *x),
            4 => v.iter_mut().for_each(|x| *x += Scalar::ONE), // same proofs, other cells and commitment
            5 => { let k = rng.idx(64); for j in 0..PER_CELL { v[k * PER_CELL + j] += Scalar::from(3u64) } } // one cell differs
            6 => v.rotate_left(PER_CELL),
            _ => v.iter_mut().rev().take(PER_CELL).for_each(|x| *x = Scalar::ZERO),
        }
        return v;
    }
    let mut rng = Rng::new(seed ^ 0xb10b);
    let mut v = vec![Scalar::ZERO; N];
    let max = Scalar::ZERO - Scalar::ONE;
    match kind % BLOB_KINDS {
        0 | 1 | 2 => v.iter_mut().for_each(|x| *x = scalar_from(&mut rng)),
        3 => {}                                                    // zero
        4 => { let c = scalar_from(&mut rng); v.iter_mut().for_each(|x| *x = c) } // constant
        5 => { let k = rng.idx(N); v[k] = scalar_from(&mut rng) }  // single non-zero
        6 => v.iter_mut().for_each(|x| *x = max),                  // r-1 everywhere
        7 => v.iter_mut().for_each(|x| *x = match rng.below(4) { 0 => max, 1 => Scalar::ZERO, 2 => Scalar::ONE, _ => scalar_from(&mut rng) }),
        8 => v.iter_mut().for_each(|x| *x = Scalar::from(rng.below(256))), // small values
        9 => { // low degree polynomial
            let d = 1 + rng.idx(130);
            let mut c = vec![Scalar::ZERO; N];
            for x in c.iter_mut().take(d) { *x = scalar_from(&mut rng) }
            v = eval_ext(&c)[..N].to_vec();
        }
        10 => { // only high coefficients
            let mut c = vec![Scalar::ZERO; N];
            let d = 1 + rng.idx(70);
            for k in 0..d { c[N - 1 - k] = scalar_from(&mut rng) }
            v = eval_ext(&c)[..N].to_vec();
        }
        11 => { // monomial x^k
            let mut c = vec![Scalar::ZERO; N];
            let k = rng.idx(N);
            c[k] = scalar_from(&mut rng);
            v = eval_ext(&c)[..N].to_vec();
        }
        12 => { // repeated cells
            let cell: Vec<_> = (0..PER_CELL).map(|_| scalar_from(&mut rng)).collect();
            for i in 0..N { v[i] = cell[i % PER_CELL] }
        }
        13 => { // zero cells mixed with random ones
            for i in 0..64 { if rng.chance(1, 2) { for j in 0..PER_CELL { v[i * PER_CELL + j] = scalar_from(&mut rng) } } }
        }
        14 => { // powers of two and neighbours
            v.iter_mut().for_each(|x| { let mut t = pow(Scalar::from(2u64), rng.below(255)); match rng.below(3) { 0 => t += Scalar::ONE, 1 => t -= Scalar::ONE, _ => {} } *x = t })
        }
        _ => { // polynomial in x^64: every A_j zero but one
            let mut c = vec![Scalar::ZERO; N];
            let j = rng.idx(64);
            for t in 0..64 { c[j + 64 * t] = scalar_from(&mut rng) }
            v = eval_ext(&c)[..N].to_vec();
        }
    }
    v
}
pub fn repr_le(s: &Scalar) -> [u8; 32] {
    let _ = Scalar::NUM_BITS;
    s.to_bytes_le()
}
pub fn gen_affine() -> G1Affine {
    G1Affine::generator()
}
