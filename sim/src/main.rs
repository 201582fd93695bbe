//! dassim: deterministic simulation of the library and its bindings.
//!   dassim serve <template json>     read commands on stdin, one episode (forked process) per command
//!   dassim bits                      print build facts
mod alloc;
#[cfg(feature = "blocks")]
mod blocks;
#[cfg(feature = "mt")]
mod capi;
mod gen;
#[cfg(feature = "mt")]
mod java;
mod model;
mod net;
#[cfg(feature = "mt")]
mod node;
mod ops;
mod rng;
mod rt;
mod scen;
mod setup;
mod shm;
mod world;
use std::sync::atomic::Ordering::Relaxed;

fn fixed_env() {
    // same addresses, same environment, every time
    unsafe {
        let p = libc::personality(0xffffffff);
        if p & 0x40000 == 0 {
            libc::personality((p | 0x40000) as u64);
        } else if std::env::var_os("DASSIM").is_some() {
            return;
        }
        let a: Vec<std::ffi::CString> = std::env::args().map(|x| std::ffi::CString::new(x).unwrap()).collect();
        let mut v: Vec<*const libc::c_char> = a.iter().map(|x| x.as_ptr()).collect();
        v.push(std::ptr::null());
        let e = [c"DASSIM=1".as_ptr(), c"RUST_BACKTRACE=0".as_ptr(), std::ptr::null()];
        libc::execve(c"/proc/self/exe".as_ptr(), v.as_ptr(), e.as_ptr());
        libc::_exit(96);
    }
}
static PARKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn main() {
    fixed_env();
    // This thread parks for good before the simulation starts: from then on one kernel thread runs everything.
    std::mem::forget(std::thread::Builder::new().stack_size(256 << 20).spawn(real).unwrap());
    PARKED.store(true, std::sync::atomic::Ordering::SeqCst);
    loop {
        unsafe { libc::pause() };
    }
}
fn out(b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(1, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            unsafe { libc::_exit(95) }
        }
        o += n as usize;
    }
}
static mut LINE: [u8; 1 << 16] = [0; 1 << 16];
static mut LPOS: usize = 0;
static mut LEND: usize = 0;
/// next input line into the plan buffer (no allocation)
fn read_line() -> Option<usize> {
    let buf = shm::plan_buf();
    let mut n = 0;
    unsafe {
        loop {
            if LPOS == LEND {
                let k = libc::read(0, std::ptr::addr_of_mut!(LINE) as *mut _, 1 << 16);
                if k <= 0 {
                    return None;
                }
                LPOS = 0;
                LEND = k as usize;
            }
            let c = (*std::ptr::addr_of!(LINE))[LPOS];
            LPOS += 1;
            if c == b'\n' {
                return Some(n);
            }
            if n < buf.len() {
                buf[n] = c;
                n += 1;
            }
        }
    }
}
extern "C" fn on_abort(m: *const libc::c_char) {
    let m = unsafe { std::ffi::CStr::from_ptr(m) }.to_string_lossy().into_owned();
    let class = m.split(':').next().unwrap_or("abort").to_string();
    let all = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C16"];
    if class == "unsupported-futex-op" {
        scen::rep().fail(ops::viol(&[], "harness", m), serde_json::Value::Null);
    } else {
        scen::rep().fail(ops::viol(all, &class, format!("no call can make progress or a call exceeded its step bound: {m}")), serde_json::Value::Null);
    }
    let r = scen::result(true);
    shm::put_result(&r);
}
fn child_limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 400, rlim_max: 420 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
fn real() {
    let r = std::panic::catch_unwind(serve);
    unsafe { libc::_exit(if r.is_ok() { 0 } else { 101 }) }
}
fn serve() {
    while !PARKED.load(std::sync::atomic::Ordering::SeqCst) {
        std::hint::spin_loop();
    }
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) != Some("serve") {
        eprintln!("usage: dassim serve <template>");
        std::process::exit(2);
    }
    let tpl: world::Template = serde_json::from_str(&args[2]).expect("template");
    shm::init();
    rt::set_abort_cb(on_abort);
    std::panic::set_hook(Box::new(|_| {}));
    scen::init_rep();
    world::build(tpl);
    #[cfg(feature = "mt")]
    match world::world().tpl.kind.as_str() {
        "capi" => capi::build(),
        "java" => java::build(),
        "node" => node::build(),
        _ => {}
    }
    setup::build();
    out(b"READY\n");
    // From here on this process does not allocate.
    loop {
        let Some(n) = read_line() else { break };
        let b = shm::plan_buf();
        let h = shm::hdr();
        h.res_len.store(0, Relaxed);
        h.alloc_failed.store(0, Relaxed);
        h.plan_len.store(0, Relaxed);
        if n == 0 {
            continue;
        }
        let cmd = b[0];
        let mut st = 0;
        if cmd == b'E' {
            // edges of the instrumented code reached by all episodes so far
            st = rt::nguards() as i32;
            h.alloc_failed.store(rt::edge_union(), Relaxed);
        } else if cmd == b'G' {
            // plan generated in its own process, so that executing it starts from the same image as a replay
            let p = rt::raw_fork();
            if p == 0 {
                child_limits();
                let line = String::from_utf8_lossy(&b[..n]).into_owned();
                let f: Vec<&str> = line.split(' ').collect();
                let plan = gen::plan(f[1], f[2].parse().unwrap(), f[3]);
                let s = serde_json::to_vec(&plan).unwrap();
                shm::plan_buf()[..s.len()].copy_from_slice(&s);
                h.plan_len.store(s.len() as u32, Relaxed);
                unsafe { libc::_exit(0) }
            }
            let mut st = 0;
            unsafe { libc::waitpid(p as i32, &mut st, 0) };
            if h.plan_len.load(Relaxed) == 0 {
                out(b"ERR plan\n");
                continue;
            }
        } else {
            // "P <json>" / "V <json>" (V: verbose result with decisions)
            b.copy_within(2..n, 0);
            h.plan_len.store((n - 2) as u32, Relaxed);
        }
        let p = if cmd == b'E' { -1 } else { rt::raw_fork() };
        if p == 0 {
            child_limits();
            let l = h.plan_len.load(Relaxed) as usize;
            match serde_json::from_slice::<scen::Plan>(&shm::plan_buf()[..l]) {
                Ok(plan) => {
                    scen::execute(&plan);
                    let r = scen::result(cmd != b'P');
                    shm::put_result(&r);
                    unsafe { libc::_exit(0) }
                }
                Err(_) => unsafe { libc::_exit(94) },
            }
        }
        if p > 0 {
            unsafe { libc::waitpid(p as i32, &mut st, 0) };
        }
        // R <wait status> <alloc failures> <plan length> <result length>\n<plan><result>
        let (pl, rl) = (h.plan_len.load(Relaxed) as usize, h.res_len.load(Relaxed) as usize);
        let mut hd = [0u8; 96];
        let mut o = 0;
        let mut put = |v: u64, hd: &mut [u8; 96], c: u8| {
            let mut t = [0u8; 20];
            let mut i = 20;
            let mut v = v;
            loop {
                i -= 1;
                t[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            for &d in &t[i..] {
                hd[o] = d;
                o += 1;
            }
            hd[o] = c;
            o += 1;
        };
        put(st as u64, &mut hd, b' ');
        put(h.alloc_failed.load(Relaxed) as u64, &mut hd, b' ');
        put(pl as u64, &mut hd, b' ');
        put(rl as u64, &mut hd, b'\n');
        out(b"R ");
        out(&hd[..o]);
        out(&shm::plan_buf()[..pl]);
        out(&shm::res_buf()[..rl]);
    }
}
