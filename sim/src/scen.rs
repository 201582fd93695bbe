//! Episodes: a plan (workload, schedule, faults) is executed in a process forked from the template.
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::rt;
use crate::world::*;
use rust_eth_kzg::DASContext;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Plan {
    pub scn: String,
    pub prop: String,
    pub seed: u64,
    pub sim: rt::SimCfg,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub decisions: Vec<(u64, u32, u32)>,
    pub blobs: Vec<BlobSpec>,
    pub callers: Vec<Caller>,
    /// template handles dropped before the callers start (callers keep theirs)
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub drop_world: Vec<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub net: Option<crate::net::NetPlan>,
    #[serde(skip_serializing_if = "Value::is_null")]
    pub extra: Value,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Caller {
    /// 0: a plain thread; n: from inside a foreign rayon pool of n threads shared by callers with the same n
    pub pool: u32,
    /// every call is prepared in the same memory
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub reuse: bool,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "s")]
pub enum Step {
    Call {
        op: Op,
        /// thread creations (counted from here) refused during the call
        #[serde(default, skip_serializing_if = "Option::is_none")]
        spawn: Option<(u64, u64)>,
        /// allocations (number from, to, of at least bytes) refused during the call
        #[serde(default, skip_serializing_if = "Option::is_none")]
        alloc: Option<(u64, u64, u64)>,
        /// binding-specific part
        #[serde(default, skip_serializing_if = "Value::is_null")]
        x: Value,
    },
    /// drop this caller's handle
    Drop { ctx: usize },
    /// build a context, use it for the given operations, drop it
    New {
        spec: CtxSpec,
        ops: Vec<Op>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        spawn: Option<(u64, u64)>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        alloc: Option<(u64, u64, u64)>,
        /// used and dropped by another thread than the one that built it
        #[serde(default, skip_serializing_if = "std::ops::Not::not")]
        away: bool,
    },
    Pause { ns: u64 },
    /// an operation on a building block
    Block { x: Value },
}
pub fn call(op: Op) -> Step {
    Step::Call { op, spawn: None, alloc: None, x: Value::Null }
}

/// what an episode reports
#[derive(Default)]
pub struct Rep {
    pub hash: u64,
    pub cnt: BTreeMap<String, u64>,
    pub viol: Option<Viol>,
    pub at: Value,   // which step violated
    pub trace: Vec<Value>,
    pub sample: Value,
}
impl Rep {
    pub fn new() -> Rep {
        Rep { hash: 0xcbf29ce484222325, ..Default::default() }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.cnt.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn ev(&mut self, b: &[u8]) {
        self.hash = fnv(self.hash, b);
    }
    pub fn fail(&mut self, v: Viol, at: Value) {
        if self.viol.is_none() {
            self.viol = Some(v);
            self.at = at;
        }
    }
}
static mut REP: *mut Mutex<Rep> = std::ptr::null_mut();
pub fn rep() -> std::sync::MutexGuard<'static, Rep> {
    unsafe { (*REP).lock().unwrap_or_else(|e| e.into_inner()) }
}
pub fn init_rep() {
    unsafe { REP = Box::into_raw(Box::new(Mutex::new(Rep::new()))) }
}
fn mut_name(m: &Mut) -> String {
    match m {
        Mut::Flip { part, .. } => format!("fault.flip.{part}"),
        Mut::From { part, .. } => format!("fault.relabel.{part}"),
        Mut::Idx { .. } => "fault.index".into(),
        Mut::Add { .. } => "fault.cell-value".into(),
        Mut::Poly { .. } | Mut::All { .. } => "fault.cell-polynomial".into(),
        Mut::Scale { .. } => "case.scaled-commitment".into(),
        Mut::NonCanon { .. } => "fault.noncanonical".into(),
        Mut::PAdd { part, .. } => format!("fault.point-add.{part}"),
        Mut::Torsion { part, .. } => format!("fault.torsion.{part}"),
        Mut::Neg { part } => format!("fault.negate.{part}"),
        Mut::Inf { part } => format!("fault.infinity.{part}"),
        Mut::Enc { part, .. } => format!("fault.encoding.{part}"),
        Mut::Swap { part } => format!("fault.byteorder.{part}"),
        Mut::Zero { part } => format!("fault.zeroed.{part}"),
    }
}
pub fn count_faults(r: &mut Rep, op: &Op) {
    let items: &[Item] = match op {
        Op::Recover { items, cut, dup, .. } => {
            if cut != &[0, 0] || dup != &[0, 0] { r.add("fault.length", 1) }
            items
        }
        Op::Verify { items, atk, cut, .. } => {
            if cut != &[0, 0, 0, 0] { r.add("fault.length", 1) }
            if let Some(a) = atk {
                let s = match a {
                    Attack::Pair { .. } => "pair".to_string(),
                    Attack::Weak { part, sel, .. } => format!("weak-transcript.{part}.{sel}"),
                    Attack::Const { .. } => "const-challenge".into(),
                    Attack::Sum { .. } => "sum".into(),
                };
                r.add(&format!("fault.attack.{s}"), 1);
            }
            items
        }
        Op::Commit { m, .. } | Op::Compute { m, .. } => {
            if !m.is_empty() { r.add("fault.blob", 1) }
            &[]
        }
    };
    for i in items {
        for m in &i.m {
            r.add(&mut_name(m), 1);
        }
    }
}
pub fn count_op(r: &mut Rep, op: &Op, p: &Prep) {
    r.add(&format!("op.{}", op.name()), 1);
    count_faults(r, op);
    let e = match &p.exp {
        Expect::Commit(Some(_)) | Expect::Arts(Some(_), _) => "ok",
        Expect::Commit(None) | Expect::Arts(None, _) => "error",
        Expect::Verify(Verdict::Accept, _) => "accept",
        Expect::Verify(Verdict::InvalidProof, _) => "invalid",
        Expect::Verify(Verdict::InputError, _) => "input-error",
    };
    r.add(&format!("expect.{}.{e}", op.name()), 1);
    if let Raw::Verify(c, ..) = &p.raw {
        r.add(if c.is_empty() { "size.verify.0" } else if c.len() == 1 { "size.verify.1" } else if c.len() <= 64 { "size.verify.2-64" } else if c.len() <= 128 { "size.verify.65-128" } else { "size.verify.129+" }, 1);
    }
}
/// Refusals are process-wide: a call that overlaps a window of refusals may fail visibly too.
static WINDOWS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static OPEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn refuse(spawn: &Option<(u64, u64)>, alloc: &Option<(u64, u64, u64)>) {
    use std::sync::atomic::Ordering::SeqCst;
    if spawn.is_none() && alloc.is_none() {
        return;
    }
    WINDOWS.fetch_add(1, SeqCst);
    OPEN.fetch_add(1, SeqCst);
    if let Some((a, b)) = spawn {
        rt::set_spawn_fail(*a, *b);
    }
    if let Some((a, b, m)) = alloc {
        crate::alloc::arm(*a, *b, *m);
    }
}
fn allow(spawn: &Option<(u64, u64)>, alloc: &Option<(u64, u64, u64)>) {
    use std::sync::atomic::Ordering::SeqCst;
    if spawn.is_none() && alloc.is_none() {
        return;
    }
    let f = alloc.as_ref().map(|_| crate::alloc::disarm());
    if spawn.is_some() {
        rt::set_spawn_fail(0, 0);
    }
    OPEN.fetch_sub(1, SeqCst);
    if let Some((n, f)) = f {
        let mut r = rep();
        r.add("alloc.seen", n);
        r.add("fault.alloc", f);
    }
}
/// (windows so far, any open)
fn windows() -> (u64, bool) {
    use std::sync::atomic::Ordering::SeqCst;
    (WINDOWS.load(SeqCst), OPEN.load(SeqCst) > 0)
}
/// one call on a context with everything checked; returns the outcome
pub fn do_call(ctx: &DASContext, op: &Op, p: &Prep, at: Value, spawn: Option<(u64, u64)>, alloc: Option<(u64, u64, u64)>, mut bufs: Option<&mut Bufs>) -> Out {
    let loaded = bufs.as_mut().map(|b| b.load(&p.raw));
    let raw = loaded.as_ref().unwrap_or(&p.raw);
    let h0 = raw_hash(raw);
    let w0 = windows();
    refuse(&spawn, &alloc);
    let t0 = rt::now();
    let o = run(ctx, raw);
    let t1 = rt::now();
    let w1 = windows();
    allow(&spawn, &alloc);
    let refused = w0.1 || w1.0 != w0.0;
    let mut r = rep();
    count_op(&mut r, op, p);
    r.ev(&out_hash(&o).to_le_bytes());
    r.ev(&(t1 - t0).to_le_bytes());
    r.add("calls", 1);
    let h1 = raw_hash(raw);
    if let (Some(b), Some(l)) = (bufs, loaded) {
        r.add("case.same-memory", 1);
        b.back(l)
    }
    if h0 != h1 {
        r.fail(viol(&["C05", "C07"], "arguments-modified", format!("{} changed its arguments", p.name)), at.clone());
    }
    if let Some(v) = judge(p, &o) {
        // under refused resources a call may fail visibly, never answer wrongly
        let visible = matches!(&o, Out::Panic(_)) || matches!(&o, Out::Commit(Err(_)) | Out::Arts(Err(_)));
        if refused && visible {
            r.add("failed-visibly", 1);
        } else {
            let mut v = v;
            // also when the refusals are over, or hit the construction of the context
            if w1.0 > 0 {
                v.props.push("C10");
            }
            r.fail(v, at);
        }
    }
    o
}
struct Job {
    pool: u32,
    reuse: bool,
    handles: Vec<Option<Arc<DASContext>>>,
    steps: Vec<(Step, Vec<Prep>)>,
}
fn run_caller(ci: usize, job: Job) {
    let Job { mut handles, steps, reuse, .. } = job;
    let mut bufs = reuse.then(Bufs::new);
    for (si, (s, preps)) in steps.into_iter().enumerate() {
        if rep().viol.is_some() {
            break;
        }
        match s {
            Step::Call { op, spawn, alloc, .. } => {
                let n = handles.len().max(1);
                let Some(Some(c)) = handles.get(op.ctx() % n) else { continue };
                let c = c.clone();
                do_call(&c, &op, &preps[0], json!([ci, si]), spawn, alloc, bufs.as_mut());
            }
            Step::Drop { ctx } => {
                let n = handles.len().max(1);
                if let Some(h) = handles.get_mut(ctx % n) {
                    *h = None;
                }
                rep().add("ctx.dropped", 1);
            }
            Step::New { spec, ops, spawn, alloc, away } => {
                let w0 = windows();
                refuse(&spawn, &alloc);
                let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make_ctx(&world().ts, &spec)));
                let w1 = windows();
                allow(&spawn, &alloc);
                let refused = w0.1 || w1.0 != w0.0;
                match made {
                    Ok(c) => {
                        rep().add("ctx.built", 1);
                        let work = move || {
                            for (k, op) in ops.iter().enumerate() {
                                do_call(&c, op, &preps[k], json!([ci, si, k]), None, None, None);
                            }
                            drop(c);
                        };
                        if away {
                            rep().add("ctx.used-elsewhere", 1);
                            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(work).unwrap();
                            if h.join().is_err() {
                                rep().fail(viol(&["C05", "C07", "C09", "C10"], "caller-died", "a caller thread panicked outside a call".into()), Value::Null);
                            }
                        } else {
                            work();
                        }
                    }
                    Err(e) => {
                        let m = panic_text(e);
                        let mut r = rep();
                        if refused {
                            r.add("ctx.build-failed-visibly", 1);
                        } else {
                            r.fail(viol(&["C09", "C10", "C06", "C05", "C07"], "construction-panicked", format!("building {spec:?} panicked: {m}")), json!([ci, si]));
                        }
                    }
                }
            }
            Step::Pause { ns } => {
                let t = std::time::Duration::from_nanos(ns);
                std::thread::sleep(t);
            }
            Step::Block { .. } => {}
        }
    }
    drop(handles);
}
/// callers: every caller is a thread (or a task inside a foreign pool), all calls checked
pub fn run_callers(plan: &Plan) {
    let mut t = Tables::new(&plan.blobs);
    let w = world();
    let nctx = w.ctxs.len();
    let mut jobs: Vec<Job> = vec![];
    let mut alive = vec![true; nctx];
    for c in &plan.callers {
        let steps = c
            .steps
            .iter()
            .map(|s| {
                let preps = match s {
                    Step::Call { op, .. } => vec![prep(&mut t, op)],
                    Step::New { ops, .. } => ops.iter().map(|o| prep(&mut t, o)).collect(),
                    _ => vec![],
                };
                (s.clone(), preps)
            })
            .collect();
        jobs.push(Job { pool: c.pool, reuse: c.reuse, handles: w.ctxs.clone(), steps });
    }
    for &d in &plan.drop_world {
        if d < nctx {
            w.ctxs[d] = None;
            alive[d] = false;
        }
    }
    let (b0, _) = crate::alloc::live();
    let live_before = rt::stats().live;
    let solo = jobs.len() == 1 && jobs[0].pool == 0;
    #[cfg(feature = "mt")]
    let pools: BTreeMap<u32, Arc<rayon::ThreadPool>> = {
        let mut m = BTreeMap::new();
        for j in &jobs {
            if j.pool > 0 {
                m.entry(j.pool).or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(j.pool as usize).build().unwrap()));
            }
        }
        m
    };
    if solo {
        run_caller(0, jobs.pop().unwrap());
    } else {
        // nobody starts before every caller exists
        let gate = Arc::new(std::sync::Barrier::new(jobs.len() + 1));
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(ci, j)| {
                #[cfg(feature = "mt")]
                let pool = pools.get(&j.pool).cloned();
                let gate = gate.clone();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        gate.wait();
                        #[cfg(feature = "mt")]
                        if let Some(p) = pool {
                            rep().add("foreign-pool-callers", 1);
                            p.install(|| run_caller(ci, j));
                            return;
                        }
                        run_caller(ci, j)
                    })
                    .unwrap()
            })
            .collect();
        gate.wait();
        for h in hs {
            if h.join().is_err() {
                rep().fail(viol(&["C05", "C07", "C09"], "caller-died", "a caller thread panicked outside a call".into()), Value::Null);
            }
        }
    }
    #[cfg(feature = "mt")]
    drop(pools);
    rt::quiesce(200_000);
    // worker accounting: exactly the workers of live contexts (and process-wide pools) remain
    let _ = (b0, live_before);
    if w.tpl.prestart {
        let expect = w.base_live as i64 + (0..nctx).filter(|i| alive[*i]).map(|i| w.grown[i]).sum::<i64>();
        let live = rt::stats().live as i64;
        let mut r = rep();
        r.ev(&live.to_le_bytes());
        if live != expect {
            let p: &[&'static str] = if live > expect { &["C09"] } else { &["C09", "C05"] };
            r.fail(viol(p, if live > expect { "workers-leaked" } else { "workers-lost" }, format!("{live} threads alive after the last call, expected {expect}")), Value::Null);
        }
        r.add("worker-accounting", 1);
    }
}
pub fn execute(plan: &Plan) {
    let decs: Vec<rt::Decision> = plan.decisions.iter().map(|d| rt::Decision { step: d.0, to: d.1, kind: d.2 }).collect();
    let mut cfg = plan.sim.clone();
    if cfg.step_limit == 0 {
        cfg.step_limit = 4_000_000_000;
    }
    cfg.replay = !decs.is_empty() as u32;
    rt::configure(&cfg, &decs, true);
    match plan.scn.as_str() {
        "net" => crate::net::run(plan),
        "ops" => run_callers(plan),
        #[cfg(feature = "mt")]
        "capi" => crate::capi::run(plan),
        #[cfg(feature = "mt")]
        "java" => crate::java::run(plan),
        #[cfg(feature = "mt")]
        "node" => crate::node::run(plan),
        "setup" => crate::setup::run(plan),
        #[cfg(feature = "blocks")]
        "blocks" => crate::blocks::run(plan),
        _ => rep().fail(viol(&[], "harness", format!("unknown scenario {}", plan.scn)), Value::Null),
    }
}
pub fn result(full: bool) -> Vec<u8> {
    let mut r = rep();
    let s = rt::stats();
    r.ev(&s.sched_hash.to_le_bytes());
    let mut o = json!({"hash": format!("{:016x}", r.hash), "cnt": r.cnt, "sim": s, "sample": r.sample});
    if let Some(v) = &r.viol {
        o["viol"] = json!(v);
        o["at"] = r.at.clone();
        o["trace"] = json!(r.trace);
        if full {
            let d = rt::decisions();
            if d.len() < 390_000 {
                o["decisions"] = json!(d.iter().map(|d| (d.step, d.to, d.kind)).collect::<Vec<_>>());
            }
        }
    }
    serde_json::to_vec(&o).unwrap()
}
