//! The C interface: every call through the real `extern "C"` functions on guarded memory.
//! Inputs sit in read-only pages, every buffer is bounded by inaccessible pages, outputs are
//! pre-filled with a pattern, and allocations are counted.
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::rt;
use crate::scen::*;
use crate::world::*;
use c_eth_kzg::{CResult, CResultStatus, DASContext as CCtxRaw};
use serde_json::{json, Value};
use std::sync::Arc;

pub struct CCtx(pub *mut CCtxRaw);
unsafe impl Send for CCtx {}
unsafe impl Sync for CCtx {}
impl CCtx {
    pub fn new(s: &CtxSpec) -> CCtx {
        CCtx(c_eth_kzg::eth_kzg_das_context_new(s.width > 0, s.threads.max(0) as u32))
    }
}
impl Drop for CCtx {
    fn drop(&mut self) {
        c_eth_kzg::eth_kzg_das_context_free(self.0)
    }
}
static mut CTXS: Vec<Option<Arc<CCtx>>> = Vec::new();
#[allow(static_mut_refs)]
fn ctxs() -> &'static mut Vec<Option<Arc<CCtx>>> {
    unsafe { &mut CTXS }
}
pub fn build() {
    let w = world();
    let specs = w.tpl.ctxs.clone();
    // reference context, through the Rust interface
    rt::configure(&cfg_for(&w.tpl, 1, 1), &[], false);
    w.ctxs.push(Some(Arc::new(make_ctx(&w.ts, &CtxSpec { threads: -1, width: 0, ncpu: 1 }))));
    w.trust = true;
    reference_arts(5);
    for (i, s) in specs.iter().enumerate() {
        rt::configure(&cfg_for(&world().tpl, 2 + i as u64, s.ncpu), &[], false);
        ctxs().push(Some(Arc::new(CCtx::new(s))));
        rt::quiesce(100000);
    }
}
/// a few blobs with artefacts established against the pairing equation (built-in setup)
pub fn reference_arts(n: u64) {
    let w = world();
    for i in 0..n {
        let kind = match i {
            0 => 1,
            1 => 3,
            _ => 0,
        };
        let s = mix2(w.tpl.seed, 77 + i) >> 30;
        let a = Arc::new(w.art_vals(make_blob(kind, s)));
        w.arts.push((kind, s, a));
    }
}

// ---------- guarded memory
const PAGE: usize = 4096;
const PAT: u8 = 0xA7;
pub struct Buf {
    pub p: *mut u8,
    pub len: usize,
    lo: *mut u8,
    hi: *mut u8,
}
pub struct Arena {
    base: *mut u8,
    len: usize,
    used: usize,
}
impl Arena {
    pub fn new(items: &[usize]) -> Arena {
        let pages: usize = items.iter().map(|l| l.div_ceil(PAGE).max(1) + 1).sum::<usize>() + 1;
        let len = pages * PAGE;
        let base = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(base != libc::MAP_FAILED, "harness: mmap");
        Arena { base: base as *mut u8, len, used: PAGE }
    }
    /// a buffer touching an inaccessible page at its end (or start)
    pub fn buf(&mut self, len: usize, at_end: bool) -> Buf {
        let n = len.div_ceil(PAGE).max(1) * PAGE;
        let lo = unsafe { self.base.add(self.used) };
        self.used += n + PAGE;
        assert!(self.used <= self.len, "harness: arena");
        unsafe {
            assert!(libc::mprotect(lo as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) == 0, "harness: mprotect");
            std::ptr::write_bytes(lo, PAT, n);
            Buf { p: if at_end { lo.add(n - len) } else { lo }, len, lo, hi: lo.add(n) }
        }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, self.len);
        }
    }
}
impl Buf {
    pub fn fill(&self, b: &[u8]) {
        assert!(b.len() == self.len);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p, b.len()) }
    }
    pub fn protect(&self) {
        unsafe {
            assert!(libc::mprotect(self.lo as *mut _, self.hi as usize - self.lo as usize, libc::PROT_READ) == 0);
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.len) }
    }
    /// the slack around the buffer is untouched
    pub fn slack_ok(&self) -> bool {
        unsafe {
            let a = std::slice::from_raw_parts(self.lo, self.p as usize - self.lo as usize);
            let e = self.p.add(self.len);
            let b = std::slice::from_raw_parts(e, self.hi as usize - e as usize);
            a.iter().chain(b).all(|x| *x == PAT)
        }
    }
    pub fn untouched(&self) -> bool {
        self.slack_ok() && self.bytes().iter().all(|x| *x == PAT)
    }
}
struct Ins {
    ptrs: Option<Buf>,
    n: u64,
    bufs: Vec<Buf>,
}
impl Ins {
    fn arr(&self, r: &mut Rng) -> *const *const u8 {
        match &self.ptrs {
            Some(b) => b.p as *const *const u8,
            None => *r.pick(&[std::ptr::null(), 8 as *const *const u8]),
        }
    }
}
/// an array of pointers to buffers; equal consecutive elements sometimes share one buffer
fn ins(a: &mut Arena, r: &mut Rng, v: &[&[u8]]) -> Ins {
    if v.is_empty() {
        return Ins { ptrs: None, n: 0, bufs: vec![] };
    }
    let share = r.chance(1, 2);
    let mut bufs: Vec<Buf> = vec![];
    let mut ptrs: Vec<u8> = vec![];
    for (i, x) in v.iter().enumerate() {
        if !(share && i > 0 && v[i - 1] == *x) {
            let b = a.buf(x.len(), r.chance(3, 4));
            b.fill(x);
            b.protect();
            bufs.push(b);
        }
        ptrs.extend((bufs.last().unwrap().p as usize).to_ne_bytes());
    }
    let pb = a.buf(ptrs.len(), r.chance(3, 4));
    pb.fill(&ptrs);
    pb.protect();
    Ins { ptrs: Some(pb), n: v.len() as u64, bufs }
}
fn outs(a: &mut Arena, r: &mut Rng, n: usize, len: usize) -> (Buf, Vec<Buf>) {
    let bufs: Vec<Buf> = (0..n).map(|_| a.buf(len, r.chance(3, 4))).collect();
    let mut ptrs: Vec<u8> = vec![];
    for b in &bufs {
        ptrs.extend((b.p as usize).to_ne_bytes());
    }
    let pb = a.buf(ptrs.len(), r.chance(3, 4));
    pb.fill(&ptrs);
    (pb, bufs)
}
fn sizes(p: &Raw) -> Vec<usize> {
    let mut s = vec![];
    match p {
        Raw::Commit(b) => s.extend([b.len(), 48]),
        Raw::Compute(b) => s.extend([b.len()]),
        Raw::Recover(i, c) => {
            s.push(i.len() * 8);
            s.push(c.len() * 8);
            s.extend(c.iter().map(|_| CELL_BYTES));
        }
        Raw::Verify(c, i, e, q) => {
            s.push(i.len() * 8);
            s.extend([c.len() * 8, e.len() * 8, q.len() * 8, 1]);
            s.extend(c.iter().map(|_| 48));
            s.extend(q.iter().map(|_| 48));
            s.extend(e.iter().map(|_| CELL_BYTES));
        }
    }
    if matches!(p, Raw::Compute(_) | Raw::Recover(..)) {
        s.extend([CELLS * 8, CELLS * 8]);
        s.extend(vec![CELL_BYTES; CELLS]);
        s.extend(vec![48; CELLS]);
    }
    s
}
fn idx_buf(a: &mut Arena, r: &mut Rng, i: &[u64]) -> (*const u64, u64) {
    if i.is_empty() {
        return (*r.pick(&[std::ptr::null(), 8 as *const u64]), 0);
    }
    let b = a.buf(i.len() * 8, r.chance(3, 4));
    let v: Vec<u8> = i.iter().flat_map(|x| x.to_ne_bytes()).collect();
    b.fill(&v);
    b.protect();
    (b.p as *const u64, i.len() as u64)
}
/// error strings a caller still holds, and what they said
static HELD: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());
fn check_held() -> Option<(&'static str, String)> {
    let h = HELD.lock().unwrap();
    for (i, (p, s)) in h.iter().enumerate() {
        if unsafe { std::ffi::CStr::from_ptr(*p as *const _) }.to_bytes() != s.as_bytes() {
            return Some(("message-overwritten", format!("an error message that was not freed yet changed; it was {s:?}")));
        }
        if h[..i].iter().any(|x| x.0 == *p) {
            return Some(("message-shared", "two error messages that are both alive are the same memory".into()));
        }
    }
    None
}
/// frees all but `keep` of them
fn free_held(keep: usize, r: &mut Rng) {
    loop {
        let p = {
            let mut h = HELD.lock().unwrap();
            if h.len() <= keep {
                return;
            }
            let i = r.idx(h.len());
            h.swap_remove(i).0
        };
        unsafe { c_eth_kzg::eth_kzg_free_error_message(p as *mut _) };
    }
}
/// status, error text; the error string is freed through the library, now or later
fn take(res: CResult, problems: &mut Vec<(&'static str, String)>) -> Result<(), String> {
    match res.status {
        CResultStatus::Ok => {
            if !res.error_msg.is_null() {
                problems.push(("message-on-success", "a successful call returned a non-null error message".into()));
            }
            Ok(())
        }
        CResultStatus::Err => {
            if res.error_msg.is_null() {
                problems.push(("no-message", "a failed call returned no error message".into()));
                return Err(String::new());
            }
            let s = unsafe { std::ffi::CStr::from_ptr(res.error_msg) }.to_string_lossy().into_owned();
            if s.is_empty() {
                problems.push(("no-message", "a failed call returned an empty error message".into()));
            }
            let mut h = HELD.lock().unwrap();
            h.push((res.error_msg as usize, unsafe { std::ffi::CStr::from_ptr(res.error_msg) }.to_string_lossy().into_owned()));
            drop(h);
            problems.extend(check_held());
            Err(s)
        }
    }
}
pub fn c_call(ctx: *const CCtxRaw, raw: &Raw, seed: u64) -> (Out, Vec<(&'static str, String)>) {
    let mut rr = Rng::new(mix2(seed, 0xc0ffee));
    let r = &mut rr;
    let mut problems = vec![];
    let mut a = Arena::new(&sizes(raw));
    let a = &mut a;
    let out = match raw {
        Raw::Commit(b) => {
            let blob = a.buf(b.len(), r.chance(3, 4));
            blob.fill(&b[..]);
            blob.protect();
            let out = a.buf(48, r.chance(3, 4));
            let res = c_eth_kzg::eth_kzg_blob_to_kzg_commitment(ctx, blob.p, out.p);
            let st = take(res, &mut problems);
            if !out.slack_ok() {
                problems.push(("wrote-outside", "commitment: bytes beside the output were written".into()));
            }
            match st {
                Ok(()) => {
                    let mut c = [0u8; 48];
                    c.copy_from_slice(out.bytes());
                    Out::Commit(Ok(c))
                }
                Err(e) => {
                    if !out.untouched() {
                        problems.push(("output-on-error", "commitment: a failed call wrote to its output".into()));
                    }
                    Out::Commit(Err(e))
                }
            }
        }
        Raw::Compute(_) | Raw::Recover(..) => {
            let (pc, cells) = outs(a, r, CELLS, CELL_BYTES);
            let (pp, proofs) = outs(a, r, CELLS, 48);
            let (hc, hp) = (pc.bytes().to_vec(), pp.bytes().to_vec());
            let res = match raw {
                Raw::Compute(b) => {
                    let blob = a.buf(b.len(), r.chance(3, 4));
                    blob.fill(&b[..]);
                    blob.protect();
                    c_eth_kzg::eth_kzg_compute_cells_and_kzg_proofs(ctx, blob.p, pc.p as *mut *mut u8, pp.p as *mut *mut u8)
                }
                Raw::Recover(i, c) => {
                    let (ip, il) = idx_buf(a, r, i);
                    let v: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
                    let ci = ins(a, r, &v);
                    let ca = ci.arr(r);
                    c_eth_kzg::eth_kzg_recover_cells_and_proofs(ctx, ci.n, ca, il, ip, pc.p as *mut *mut u8, pp.p as *mut *mut u8)
                }
                _ => unreachable!(),
            };
            let st = take(res, &mut problems);
            if pc.bytes() != hc || pp.bytes() != hp {
                problems.push(("pointers-modified", "the caller's array of output pointers was modified".into()));
            }
            if !cells.iter().chain(&proofs).chain([&pc, &pp]).all(|b| b.slack_ok()) {
                problems.push(("wrote-outside", "bytes beside an output were written".into()));
            }
            match st {
                Ok(()) => {
                    let c: Vec<BCell> = cells
                        .iter()
                        .map(|b| {
                            let v: Box<[u8]> = b.bytes().into();
                            v.try_into().unwrap()
                        })
                        .collect();
                    let p: Vec<B48> = proofs.iter().map(|b| b.bytes().try_into().unwrap()).collect();
                    Out::Arts(Ok((c, p)))
                }
                Err(e) => {
                    if !cells.iter().chain(&proofs).all(|b| b.untouched()) {
                        problems.push(("output-on-error", "a failed call wrote to its outputs".into()));
                    }
                    Out::Arts(Err(e))
                }
            }
        }
        Raw::Verify(c, i, e, q) => {
            let (ip, il) = idx_buf(a, r, i);
            let cv: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
            let ev: Vec<&[u8]> = e.iter().map(|x| &x[..]).collect();
            let qv: Vec<&[u8]> = q.iter().map(|x| &x[..]).collect();
            let (ci, ei, qi) = (ins(a, r, &cv), ins(a, r, &ev), ins(a, r, &qv));
            let (ca, ea, qa) = (ci.arr(r), ei.arr(r), qi.arr(r));
            let v = a.buf(1, r.chance(1, 2));
            let preset = r.below(2) as u8;
            v.fill(&[preset]);
            let res = c_eth_kzg::eth_kzg_verify_cell_kzg_proof_batch(ctx, ci.n, ca, il, ip, ei.n, ea, qi.n, qa, v.p as *mut bool);
            let st = take(res, &mut problems);
            if !v.slack_ok() {
                problems.push(("wrote-outside", "bytes beside `verified` were written".into()));
            }
            let got = v.bytes()[0];
            let _ = (&ci.bufs, &ei.bufs);
            match st {
                Ok(()) => match got {
                    1 => Out::Verify(Verdict::Accept, String::new()),
                    0 => Out::Verify(Verdict::InvalidProof, String::new()),
                    x => {
                        problems.push(("bad-bool", format!("verified was set to {x}")));
                        Out::Verify(Verdict::InputError, String::new())
                    }
                },
                Err(m) => {
                    if got != preset {
                        problems.push(("output-on-error", format!("a failed verification changed `verified` from {preset} to {got}")));
                    }
                    Out::Verify(Verdict::InputError, m)
                }
            }
        }
    };
    // sooner or later the strings are given back
    problems.extend(check_held());
    let keep = if HOLD.load(std::sync::atomic::Ordering::SeqCst) { *r.pick(&[0usize, 1, 3, 8]) } else { 0 };
    free_held(keep, r);
    (out, problems)
}
static HOLD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// a call's arguments and what the Rust interface returns for them
pub struct Want {
    pub raw: Raw,
    pub out: Out,
}
pub fn want(t: &mut Tables, op: &Op) -> Want {
    let raw = prep_raw(t, op);
    let c = world().ctxs[0].clone().unwrap();
    let out = crate::ops::run(&c, &raw);
    Want { raw, out }
}
pub fn out_name(o: &Out) -> String {
    match o {
        Out::Commit(Ok(_)) | Out::Arts(Ok(_)) => "ok".into(),
        Out::Commit(Err(e)) | Out::Arts(Err(e)) => format!("error ({e})"),
        Out::Verify(v, e) => format!("{v:?} {e}"),
        Out::Panic(m) => format!("panic ({m})"),
    }
}
pub fn count_want(r: &mut Rep, op: &Op, w: &Want) {
    r.add("calls", 1);
    r.add(&format!("op.{}", op.name()), 1);
    let n = match &w.out {
        Out::Commit(Ok(_)) | Out::Arts(Ok(_)) => "ok",
        Out::Commit(Err(_)) | Out::Arts(Err(_)) => "error",
        Out::Verify(Verdict::Accept, _) => "accept",
        Out::Verify(Verdict::InvalidProof, _) => "invalid",
        Out::Verify(Verdict::InputError, _) => "input-error",
        Out::Panic(_) => "panic",
    };
    r.add(&format!("rust.{}.{n}", op.name()), 1);
    count_faults(r, op);
}
fn one(ctx: *const CCtxRaw, op: &Op, p: &Want, at: Value, seed: u64) {
    let t0 = rt::now();
    let (o, problems) = c_call(ctx, &p.raw, seed);
    let t1 = rt::now();
    let differs = out_hash(&o) != out_hash(&p.out);
    let second = differs.then(|| crate::ops::run(unsafe { (*ctx).inner() }, &p.raw));
    let mut r = rep();
    count_want(&mut r, op, p);
    r.ev(&out_hash(&o).to_le_bytes());
    r.ev(&(t1 - t0).to_le_bytes());
    if let Some((c, d)) = problems.into_iter().next() {
        r.fail(viol(&["C08"], c, format!("{}: {d}", op.name())), at.clone());
    }
    if let Some(s) = second {
        let same = out_hash(&o) == out_hash(&s);
        // the context itself may disagree with a differently deployed one: that is C06's business
        r.fail(viol(if same { &["C06"] } else { &["C08"] }, "differs-from-rust", format!("{} through C: {}; through Rust: {}", op.name(), out_name(&o), out_name(&p.out))), at);
    }
}
struct Job {
    handles: Vec<Option<Arc<CCtx>>>,
    steps: Vec<(Step, Vec<Want>)>,
}
fn caller(ci: usize, mut j: Job, seed: u64) {
    for (si, (s, preps)) in j.steps.iter().enumerate() {
        if rep().viol.is_some() {
            break;
        }
        let seed = mix2(seed, (ci * 1000 + si) as u64);
        match s {
            Step::Call { op, .. } => {
                let n = j.handles.len().max(1);
                if let Some(Some(c)) = j.handles.get(op.ctx() % n) {
                    one(c.0, op, &preps[0], json!([ci, si]), seed)
                }
            }
            Step::Drop { ctx } => {
                let n = j.handles.len().max(1);
                if let Some(h) = j.handles.get_mut(ctx % n) {
                    *h = None;
                }
                rep().add("ctx.dropped", 1);
            }
            Step::New { spec, ops, .. } => {
                let c = CCtx::new(spec);
                rep().add("ctx.built", 1);
                for (k, op) in ops.iter().enumerate() {
                    one(c.0, op, &preps[k], json!([ci, si, k]), mix2(seed, k as u64));
                }
            }
            Step::Pause { ns } => std::thread::sleep(std::time::Duration::from_nanos(*ns)),
            Step::Block { .. } => {}
        }
    }
}
pub fn run_capi(plan: &Plan) {
    let mut t = Tables::new(&plan.blobs);
    let mut jobs = vec![];
    for c in &plan.callers {
        let steps = c
            .steps
            .iter()
            .map(|s| {
                let preps = match s {
                    Step::Call { op, .. } => vec![want(&mut t, op)],
                    Step::New { ops, .. } => ops.iter().map(|o| want(&mut t, o)).collect(),
                    _ => vec![],
                };
                (s.clone(), preps)
            })
            .collect();
        jobs.push(Job { handles: ctxs().clone(), steps });
    }
    for &d in &plan.drop_world {
        if let Some(c) = ctxs().get_mut(d) {
            *c = None;
        }
    }
    let reps = plan.extra["reps"].as_u64().unwrap_or(0);
    HOLD.store(reps == 0, std::sync::atomic::Ordering::SeqCst);
    if reps > 0 {
        return leak(plan, jobs.pop().unwrap(), reps);
    }
    if jobs.len() == 1 {
        caller(0, jobs.pop().unwrap(), plan.seed)
    } else {
        let seed = plan.seed;
        let hs: Vec<_> = jobs.into_iter().enumerate().map(|(ci, j)| std::thread::Builder::new().stack_size(8 << 20).spawn(move || caller(ci, j, seed)).unwrap()).collect();
        for h in hs {
            if h.join().is_err() {
                rep().fail(viol(&["C08"], "caller-died", "a caller panicked outside a call".into()), Value::Null);
            }
        }
    }
}
/// the same calls again and again: what the library holds on to must not grow
fn leak(plan: &Plan, j: Job, reps: u64) {
    let mut live = vec![];
    for _ in 0..reps {
        if rep().viol.is_some() {
            return;
        }
        let steps: Vec<(Step, Vec<Want>)> = vec![];
        let _ = steps;
        for (si, (s, preps)) in j.steps.iter().enumerate() {
            let seed = mix2(plan.seed, si as u64);
            match s {
                Step::Call { op, .. } => {
                    if let Some(Some(c)) = j.handles.get(op.ctx() % j.handles.len().max(1)) {
                        one(c.0, op, &preps[0], json!([0, si]), seed)
                    }
                }
                Step::New { spec, ops, .. } => {
                    let c = CCtx::new(spec);
                    rep().add("ctx.built", 1);
                    for (k, op) in ops.iter().enumerate() {
                        one(c.0, op, &preps[k], json!([0, si, k]), mix2(seed, k as u64));
                    }
                }
                _ => {}
            }
        }
        rt::quiesce(200_000);
        live.push(crate::alloc::live());
    }
    let mut r = rep();
    r.add("leak-accounting", 1);
    if std::env::var_os("DASSIM_DEBUG").is_some() || plan.extra.get("debug").is_some() {
        r.sample = json!(live);
    }
    // growth over the second half of the repetitions, which repeat exactly what the first half did
    let (h, e) = (reps as usize / 2, reps as usize - 1);
    let n = (e - h) as i64;
    let (db, dn) = (live[e].0 - live[h].0, live[e].1 - live[h].1);
    let steady = (h..e).filter(|i| live[i + 1].1 > live[*i].1).count() as i64;
    if n > 0 && dn >= n && steady * 10 >= n * 9 {
        r.fail(viol(&["C08"], "leak", format!("{dn} blocks, {db} bytes more are held after repeating the same calls {n} times")), Value::Null);
    }
}
pub fn run(plan: &Plan) {
    run_capi(plan)
}
pub fn plan(r: &mut Rng, seed: u64, tier: &str) -> Plan {
    let deep = tier == "thorough";
    let w = world();
    let nc = ctxs().len().max(1) as u64;
    let nb = 1 + r.idx(3);
    let blobs: Vec<BlobSpec> = (0..nb)
        .map(|_| {
            let a = r.pick(&w.arts);
            BlobSpec { k: a.0, s: a.1 }
        })
        .collect();
    let any = |r: &mut Rng, heavy: u64, hostile: u64| {
        let mut op = if r.chance(hostile, 300) { crate::gen::shape_op(r, nb) } else { crate::gen::any_op(r, nb, heavy, hostile) };
        crate::gen::set_ctx(&mut op, r.below(nc) as usize);
        op
    };
    let mut p = Plan { scn: "capi".into(), prop: "C08".into(), seed, blobs, ..Default::default() };
    if r.chance(1, 3) {
        let heavy = r.chance(1, 2);
        let steps = if r.chance(1, 8) {
            vec![Step::New { spec: CtxSpec { threads: *r.pick(&[0i64, 1, 2, 5]), width: 0, ncpu: 0 }, ops: vec![any(r, 20, 30)], spawn: None, alloc: None, away: false }]
        } else {
            (0..if heavy { 1 } else { 3 }).map(|_| call(any(r, if heavy { 100 } else { 0 }, if heavy { 60 } else { 75 }))).collect()
        };
        let h = matches!(steps[0], Step::New { .. });
        p.callers = vec![Caller { pool: 0, reuse: false, steps }];
        p.extra = json!({"reps": if h { 6 } else if heavy { 8 } else { 12 }});
        p.sim = crate::gen::sim_cfg(r, 1);
        return p;
    }
    let n = 1 + r.idx(if deep { 4 } else { 3 });
    for c in 0..nc as usize {
        if r.chance(1, 6) {
            p.drop_world.push(c)
        }
    }
    let mut hv = 0;
    p.callers = (0..n)
        .map(|_| {
            let m = if n == 1 { 8 } else { 4 };
            let mut steps: Vec<Step> = (0..m)
                .map(|_| {
                    let op = any(r, if hv < 5 { 45 } else { 0 }, 50);
                    if matches!(op, Op::Compute { .. } | Op::Recover { .. }) {
                        hv += 1
                    }
                    call(op)
                })
                .collect();
            if r.chance(1, 6) {
                steps.push(Step::Drop { ctx: r.below(nc) as usize });
                steps.push(call(any(r, 0, 30)));
            }
            Caller { pool: 0, reuse: false, steps }
        })
        .collect();
    if r.chance(1, 10) {
        p.callers[0].steps.push(Step::New { spec: CtxSpec { threads: *r.pick(&[0i64, 1, 3]), width: 0, ncpu: 0 }, ops: vec![any(r, 0, 30)], spawn: None, alloc: None, away: false });
    }
    p.sim = crate::gen::sim_cfg(r, n as u32);
    p
}
