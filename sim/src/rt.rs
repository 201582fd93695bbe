//! Interface to the C thread simulator (rt/simrt.c).
use serde::{Deserialize, Serialize};
#[repr(C)]
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
#[serde(default)]
pub struct SimCfg {
    pub seed: u64,
    pub policy: u32,
    pub mean_slice: u32,
    pub hot_denom: u32,
    pub sync_denom: u32,
    pub ncpu: u32,
    pub stall_denom: u32,
    pub step_limit: u64,
    pub spawn_fail_from: u64,
    pub spawn_fail_to: u64,
    pub spurious_denom: u32,
    pub replay: u32,
    pub rare_denom: u32,
    pub rare_hits: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Decision {
    pub step: u64,
    pub to: u32,
    pub kind: u32,
}
#[repr(C)]
#[derive(Clone, Debug, Default, Serialize)]
pub struct SimStats {
    pub steps: u64,
    pub switches: u64,
    pub forced: u64,
    pub hot: u64,
    pub hot_preempts: u64,
    pub sync_calls: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spawns: u64,
    pub spawn_fails: u64,
    pub stalls: u64,
    pub timeouts: u64,
    pub yields: u64,
    pub sched_hash: u64,
    pub max_fibres: u64,
    pub finished: u64,
    pub rnd_reads: u64,
    pub clock_reads: u64,
    pub pairs: u64,
    pub live: u64,
    pub idle_jumps: u64,
    pub edges_seen: u64,
    pub spurious: u64,
    pub rare_preempts: u64,
}
extern "C" {
    fn sim_configure(c: *const SimCfg, d: *const Decision, nd: u32, record: i32);
    fn sim_start();
    fn sim_stats(s: *mut SimStats);
    fn sim_decisions(d: *mut *const Decision) -> u32;
    fn sim_now() -> u64;
    fn sim_advance(ns: u64);
    fn sim_cur() -> i32;
    fn sim_steps() -> u64;
    fn sim_set_spawn_fail(from: u64, to: u64);
    fn sim_set_step_limit(extra: u64);
    fn sim_quiesce(max: u32) -> i32;
    fn sim_preempt();
    fn sim_raw_fork() -> i64;
    fn sim_set_abort_cb(cb: extern "C" fn(*const std::os::raw::c_char));
    fn sim_nguards() -> u32;
    fn sim_edge_union() -> u32;
}
pub fn start() {
    unsafe { sim_start() }
}
pub fn configure(c: &SimCfg, d: &[Decision], record: bool) {
    unsafe { sim_configure(c, d.as_ptr(), d.len() as u32, record as i32) }
}
pub fn stats() -> SimStats {
    let mut s = SimStats::default();
    unsafe { sim_stats(&mut s) };
    s
}
pub fn decisions() -> Vec<Decision> {
    unsafe {
        let mut p = std::ptr::null();
        let n = sim_decisions(&mut p);
        if n == 0 { return vec![]; }
        std::slice::from_raw_parts(p, n as usize).to_vec()
    }
}
pub fn now() -> u64 { unsafe { sim_now() } }
pub fn advance(ns: u64) { unsafe { sim_advance(ns) } }
pub fn cur() -> i32 { unsafe { sim_cur() } }
pub fn steps() -> u64 { unsafe { sim_steps() } }
pub fn set_spawn_fail(from: u64, to: u64) { unsafe { sim_set_spawn_fail(from, to) } }
pub fn set_step_limit(extra: u64) { unsafe { sim_set_step_limit(extra) } }
pub fn quiesce(max: u32) -> bool { unsafe { sim_quiesce(max) != 0 } }
pub fn preempt() { unsafe { sim_preempt() } }
pub fn raw_fork() -> i64 { unsafe { sim_raw_fork() } }
pub fn nguards() -> u32 { unsafe { sim_nguards() } }
pub fn set_abort_cb(cb: extern "C" fn(*const std::os::raw::c_char)) { unsafe { sim_set_abort_cb(cb) } }
pub fn edge_union() -> u32 { unsafe { sim_edge_union() } }
