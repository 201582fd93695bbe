//! The Node binding run against a simulated JavaScript engine: Node-API over a small object heap with
//! handle scopes, references, a collector, thread-safe functions and an event loop. The binding, napi-rs
//! and its tokio runtime are the real code; every tokio worker is a simulated thread.
#![allow(clippy::missing_safety_doc)]
use crate::capi::{count_want, out_name, want, Want};
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::rt;
use crate::scen::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::ffi::{c_char, c_void, CStr};
use std::sync::{Condvar, Mutex};

type Status = i32;
const OK: Status = 0;
const INVALID: Status = 1;
const OBJECT: Status = 2;
const STRING: Status = 3;
const FUNCTION: Status = 5;
const NUMBER: Status = 6;
const BOOLEAN: Status = 7;
const ARRAY: Status = 8;
const FAILURE: Status = 9;
const PENDING: Status = 10;
const CLOSING: Status = 16;
const BIGINT: Status = 17;
const NO_EXTERNAL: Status = 22;
type H = *mut c_void; // napi_value
type Cb = Option<unsafe extern "C" fn(*mut c_void, *mut Info) -> H>;
type Fin = Option<unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_void)>;
type CallJs = Option<unsafe extern "C" fn(*mut c_void, H, *mut c_void, *mut c_void)>;
pub struct Info {
    this: H,
    args: Vec<H>,
    data: *mut c_void,
}
#[derive(Clone)]
enum V {
    Undef,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Big(bool, Vec<u64>),
    Obj,
    Arr(Vec<usize>),
    Buf { p: usize, len: usize, owned: usize, fin: Fin, hint: usize }, // owned: bytes of pages held
    View { ty: i32, buf: usize, off: usize, len: usize },
    Func(Cb, usize),
    Error,
    Promise(u8, usize), // 0 pending, 1 fulfilled, 2 rejected
}
#[derive(Clone)]
struct Acc {
    name: String,
    method: Cb,
    get: Cb,
    data: usize,
    is_static: bool,
}
struct Obj {
    v: V,
    props: Vec<(String, usize)>,
    class: usize,
    accs: Vec<Acc>,
    wrap: Option<(usize, Fin, usize)>,
    mark: bool,
    dead: bool,
}
struct Ref {
    o: usize,
    count: u32,
    live: bool,
}
struct Tsfn {
    func: usize,
    ctx: usize,
    call: CallJs,
    fin: Fin,
    fin_data: usize,
    threads: u32,
    queue: VecDeque<usize>,
    closing: bool,
    gone: bool,
}
#[derive(Default)]
struct Js {
    o: Vec<Obj>,
    scopes: Vec<(u64, Vec<usize>)>,
    serial: u64,
    refs: Vec<Ref>,
    roots: Vec<usize>,
    /// buffers the program fills again and again: part, position, length
    pool: std::collections::BTreeMap<(usize, usize, usize), usize>,
    deferred: Vec<(usize, bool)>, // promise, settled
    fired: Vec<usize>,            // settled promises whose reactions have not run
    pending: Option<usize>,
    hooks: Vec<(usize, usize)>,
    finq: Vec<(Fin, usize, usize)>,
    fibre: i32,
    rng: Option<Rng>,
    gc_denom: u64,
    no_external: bool,
    region: usize,
    used: usize,
    // one native call
    accesses: u64,
    throw_at: u64,
    threw: bool,
    gcs: u64,
    fins: u64,
    freed: u64,
}
const REGION: usize = 4 << 30;
static mut JS: Option<Box<Js>> = None;
static mut ENV: [u8; 64] = [0; 64];
static TSFN: Mutex<Vec<Tsfn>> = Mutex::new(Vec::new());
static WAKE: Condvar = Condvar::new();
static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[allow(static_mut_refs)]
fn js() -> &'static mut Js {
    unsafe { JS.get_or_insert_with(|| Box::new(Js { throw_at: u64::MAX, ..Default::default() })) }
}
fn env_ptr() -> *mut c_void {
    std::ptr::addr_of_mut!(ENV) as *mut c_void
}
fn problem(c: &str, d: String) {
    rep().fail(viol(&["C14"], c, d), Value::Null);
}
/// every Node-API function except the thread-safe ones: only on the JavaScript thread
fn enter(env: *mut c_void, name: &str) -> Option<&'static mut Js> {
    rt::preempt();
    if env.is_null() {
        return None;
    }
    let j = js();
    if rt::cur() != j.fibre {
        problem("napi-off-thread", format!("{name} was called from a thread that is not the JavaScript thread"));
        return None;
    }
    if env != env_ptr() {
        problem("bad-env", format!("{name} with an unknown environment"));
        return None;
    }
    Some(j)
}
macro_rules! js_or {
    ($e:expr, $n:expr) => {
        match enter($e, $n) {
            Some(j) => j,
            None => return INVALID,
        }
    };
    // functions that may run JavaScript refuse while an exception is pending
    ($e:expr, $n:expr, run) => {
        match enter($e, $n) {
            Some(j) if j.pending.is_none() => j,
            Some(_) => return PENDING,
            None => return INVALID,
        }
    };
}
impl Js {
    fn alloc(&mut self, v: V) -> usize {
        if self.gc_denom > 0 {
            let d = self.gc_denom;
            if self.rng.as_mut().is_some_and(|r| r.chance(1, d)) {
                self.gc();
            }
        }
        self.o.push(Obj { v, props: vec![], class: 0, accs: vec![], wrap: None, mark: false, dead: false });
        self.o.len() - 1
    }
    fn h(&mut self, o: usize) -> H {
        let s = self.scopes.last_mut().expect("harness: no handle scope");
        s.1.push(o);
        ((s.0 << 28) | (s.1.len() as u64) << 4) as H
    }
    /// the object behind a handle
    fn get(&self, h: H, what: &str) -> Option<usize> {
        if h.is_null() {
            return None;
        }
        let v = h as u64;
        let (s, n) = (v >> 28, (v & 0xfff_ffff) as usize >> 4);
        for (serial, refs) in self.scopes.iter().rev() {
            if *serial == s && n >= 1 && n <= refs.len() {
                return Some(refs[n - 1]);
            }
        }
        problem("bad-handle", format!("{what} used a handle that is not valid any more"));
        None
    }
    fn open(&mut self) {
        self.serial += 1;
        self.scopes.push((self.serial, vec![]));
    }
    fn throw(&mut self, msg: &str) {
        let s = self.alloc(V::Str(msg.into()));
        self.roots.push(s);
        let e = self.alloc(V::Error);
        self.roots.pop();
        self.o[e].props.push(("message".into(), s));
        self.pending = Some(e);
    }
    fn map(&mut self, len: usize) -> (usize, usize) {
        let n = len.div_ceil(4096).max(1) * 4096;
        if self.region == 0 {
            let p = unsafe { libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
            assert!(p != libc::MAP_FAILED, "harness: mmap");
            self.region = p as usize;
        }
        assert!(self.used + n + 4096 < REGION, "harness: out of simulated JavaScript memory");
        let p = self.region + self.used;
        self.used += n + 4096;
        unsafe { assert!(libc::mprotect(p as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) == 0) };
        // ends where the accessible page ends (8-byte aligned, as V8 does)
        (p + n - len.div_ceil(8) * 8, n)
    }
    fn buffer(&mut self, len: usize) -> usize {
        let (p, n) = self.map(len);
        self.alloc(V::Buf { p: if len == 0 { 0 } else { p }, len, owned: n, fin: None, hint: 0 })
    }
    fn gc(&mut self) {
        self.gcs += 1;
        let mut st: Vec<usize> = vec![0, 1, 2, 3];
        st.extend(&self.roots);
        st.extend(self.pool.values());
        for (_, r) in &self.scopes {
            st.extend(r);
        }
        st.extend(self.refs.iter().filter(|r| r.live && r.count > 0).map(|r| r.o));
        st.extend(self.deferred.iter().filter(|d| !d.1).map(|d| d.0));
        st.extend(self.pending);
        st.extend(&self.fired);
        if let Ok(t) = TSFN.try_lock() {
            st.extend(t.iter().filter(|t| !t.gone).map(|t| t.func));
        }
        for o in &mut self.o {
            o.mark = false;
        }
        while let Some(i) = st.pop() {
            let o = &mut self.o[i];
            if o.mark {
                continue;
            }
            o.mark = true;
            st.push(o.class);
            st.extend(o.props.iter().map(|p| p.1));
            match &o.v {
                V::Arr(e) => st.extend(e),
                V::View { buf, .. } => st.push(*buf),
                V::Promise(_, x) => st.push(*x),
                _ => {}
            }
        }
        let mut fin = vec![];
        for o in &mut self.o {
            if o.mark || o.dead {
                continue;
            }
            o.dead = true;
            o.props.clear();
            if let Some((p, f, h)) = o.wrap.take() {
                fin.push((f, p, h));
            }
            match &o.v {
                V::Buf { p, owned, fin: f, hint, .. } => {
                    if f.is_some() {
                        fin.push((*f, *p, *hint));
                    } else if *owned > 0 && *p != 0 {
                        self.freed += 1;
                        unsafe { libc::mprotect((*p & !4095) as *mut _, *owned, libc::PROT_NONE) };
                    }
                }
                _ => {}
            }
            o.v = V::Undef;
        }
        // finalizers run later, in an order nobody promises
        while !fin.is_empty() {
            let n = fin.len();
            let k = self.rng.as_mut().map_or(0, |r| r.idx(n));
            self.finq.push(fin.swap_remove(k));
        }
    }
    /// finalizers the collector queued
    fn finalize(&mut self) {
        while !self.finq.is_empty() {
            let (f, p, h) = self.finq.remove(0);
            self.fins += 1;
            if let Some(f) = f {
                self.open();
                unsafe { f(env_ptr(), p as *mut c_void, h as *mut c_void) };
                js().scopes.pop();
            }
        }
    }
    fn str(&self, o: usize) -> String {
        match &self.o[o].v {
            V::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
    fn prop(&self, o: usize, n: &str) -> Option<usize> {
        self.o[o].props.iter().find(|p| p.0 == n).map(|p| p.1)
    }
    fn bytes(&self, o: usize) -> Option<Vec<u8>> {
        match &self.o[o].v {
            V::View { ty: 1, buf, off, len } => match &self.o[*buf].v {
                V::Buf { p, .. } => Some(if *len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts((*p + off) as *const u8, *len).to_vec() } }),
                _ => None,
            },
            _ => None,
        }
    }
    fn error_text(&self, e: usize) -> String {
        match &self.o[e].v {
            V::Error => {
                let m = self.prop(e, "message").map(|m| self.str(m)).unwrap_or_default();
                m.chars().take(160).collect()
            }
            _ => String::new(),
        }
    }
    fn is_object(&self, o: usize) -> bool {
        matches!(self.o[o].v, V::Obj | V::Arr(_) | V::Buf { .. } | V::View { .. } | V::Func(..) | V::Error | V::Promise(..))
    }
    /// a property access that user code (a getter or a proxy) may make fail
    fn access_throws(&mut self) -> bool {
        let n = self.accesses;
        self.accesses += 1;
        if n == self.throw_at {
            self.threw = true;
            self.throw("thrown by a getter");
            return true;
        }
        false
    }
}
unsafe fn cstr(p: *const c_char, len: usize) -> String {
    if p.is_null() {
        String::new()
    } else if len == usize::MAX {
        CStr::from_ptr(p).to_string_lossy().into_owned()
    } else {
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, len)).into_owned()
    }
}
// ---------- Node-API
macro_rules! napi {
    ($(fn $n:ident($e:ident, $j:ident $(, $a:ident : $t:ty)*) $b:block)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n($e: *mut c_void $(, $a: $t)*) -> Status { let $j = js_or!($e, stringify!($n)); $b }
    )*};
}
macro_rules! napi_run {
    ($(fn $n:ident($e:ident, $j:ident $(, $a:ident : $t:ty)*) $b:block)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n($e: *mut c_void $(, $a: $t)*) -> Status { let $j = js_or!($e, stringify!($n), run); $b }
    )*};
}
macro_rules! obj {
    ($j:ident, $h:expr, $w:expr) => {
        match $j.get($h, $w) {
            Some(o) => o,
            None => return INVALID,
        }
    };
}
napi! {
    fn napi_get_undefined(env, j, r: *mut H) { *r = j.h(0); OK }
    fn napi_get_null(env, j, r: *mut H) { *r = j.h(1); OK }
    fn napi_get_boolean(env, j, b: bool, r: *mut H) { *r = j.h(3 - b as usize); OK }
    fn napi_create_object(env, j, r: *mut H) { let o = j.alloc(V::Obj); *r = j.h(o); OK }
    fn napi_create_array(env, j, r: *mut H) { let o = j.alloc(V::Arr(vec![])); *r = j.h(o); OK }
    fn napi_create_array_with_length(env, j, n: usize, r: *mut H) { let o = j.alloc(V::Arr(vec![0; n])); *r = j.h(o); OK }
    fn napi_create_uint32(env, j, v: u32, r: *mut H) { let o = j.alloc(V::Num(v as f64)); *r = j.h(o); OK }
    fn napi_create_int32(env, j, v: i32, r: *mut H) { let o = j.alloc(V::Num(v as f64)); *r = j.h(o); OK }
    fn napi_create_int64(env, j, v: i64, r: *mut H) { let o = j.alloc(V::Num(v as f64)); *r = j.h(o); OK }
    fn napi_create_double(env, j, v: f64, r: *mut H) { let o = j.alloc(V::Num(v)); *r = j.h(o); OK }
    fn napi_create_bigint_uint64(env, j, v: u64, r: *mut H) { let o = j.alloc(V::Big(false, if v == 0 { vec![] } else { vec![v] })); *r = j.h(o); OK }
    fn napi_create_string_utf8(env, j, s: *const c_char, n: usize, r: *mut H) { let o = j.alloc(V::Str(cstr(s, n))); *r = j.h(o); OK }
    fn napi_create_error(env, j, code: H, msg: H, r: *mut H) {
        let m = obj!(j, msg, "napi_create_error");
        if !matches!(j.o[m].v, V::Str(_)) { return STRING }
        let o = j.alloc(V::Error);
        j.o[o].props.push(("message".into(), m));
        if !code.is_null() {
            let c = obj!(j, code, "napi_create_error");
            j.o[o].props.push(("code".into(), c));
        }
        *r = j.h(o);
        OK
    }
    fn napi_typeof(env, j, v: H, r: *mut i32) {
        let o = obj!(j, v, "napi_typeof");
        *r = match &j.o[o].v { V::Undef => 0, V::Null => 1, V::Bool(_) => 2, V::Num(_) => 3, V::Str(_) => 4, V::Func(..) => 7, V::Big(..) => 9, _ => 6 };
        OK
    }
    fn napi_get_value_bool(env, j, v: H, r: *mut bool) {
        let o = obj!(j, v, "napi_get_value_bool");
        match &j.o[o].v { V::Bool(b) => { *r = *b; OK } _ => BOOLEAN }
    }
    fn napi_get_value_uint32(env, j, v: H, r: *mut u32) {
        let o = obj!(j, v, "napi_get_value_uint32");
        match &j.o[o].v { V::Num(x) => { *r = if x.is_finite() { x.trunc() as i64 as u32 } else { 0 }; OK } _ => NUMBER }
    }
    fn napi_get_value_int32(env, j, v: H, r: *mut i32) {
        let o = obj!(j, v, "napi_get_value_int32");
        match &j.o[o].v { V::Num(x) => { *r = if x.is_finite() { x.trunc() as i64 as i32 } else { 0 }; OK } _ => NUMBER }
    }
    fn napi_get_value_int64(env, j, v: H, r: *mut i64) {
        let o = obj!(j, v, "napi_get_value_int64");
        match &j.o[o].v { V::Num(x) => { *r = if x.is_finite() { *x as i64 } else { 0 }; OK } _ => NUMBER }
    }
    fn napi_get_value_double(env, j, v: H, r: *mut f64) {
        let o = obj!(j, v, "napi_get_value_double");
        match &j.o[o].v { V::Num(x) => { *r = *x; OK } _ => NUMBER }
    }
    fn napi_get_value_bigint_uint64(env, j, v: H, r: *mut u64, lossless: *mut bool) {
        let o = obj!(j, v, "napi_get_value_bigint_uint64");
        match &j.o[o].v {
            V::Big(neg, w) => {
                let x = w.first().copied().unwrap_or(0);
                *r = if *neg { x.wrapping_neg() } else { x };
                *lossless = !neg && w.len() <= 1;
                OK
            }
            _ => BIGINT,
        }
    }
    fn napi_get_value_bigint_int64(env, j, v: H, r: *mut i64, lossless: *mut bool) {
        let o = obj!(j, v, "napi_get_value_bigint_int64");
        match &j.o[o].v {
            V::Big(neg, w) => {
                let x = w.first().copied().unwrap_or(0);
                *r = if *neg { x.wrapping_neg() } else { x } as i64;
                *lossless = w.len() <= 1 && (if *neg { x <= 1 << 63 } else { x < 1 << 63 });
                OK
            }
            _ => BIGINT,
        }
    }
    fn napi_get_value_bigint_words(env, j, v: H, sign: *mut i32, count: *mut usize, words: *mut u64) {
        let o = obj!(j, v, "napi_get_value_bigint_words");
        match &j.o[o].v {
            V::Big(neg, w) => {
                if !words.is_null() && !sign.is_null() {
                    *sign = *neg as i32;
                    for (i, x) in w.iter().take(*count).enumerate() {
                        *words.add(i) = *x;
                    }
                }
                *count = w.len();
                OK
            }
            _ => BIGINT,
        }
    }
    fn napi_get_value_string_utf8(env, j, v: H, buf: *mut c_char, size: usize, r: *mut usize) {
        let o = obj!(j, v, "napi_get_value_string_utf8");
        match &j.o[o].v {
            V::Str(s) => {
                if buf.is_null() {
                    *r = s.len();
                } else if size > 0 {
                    let n = s.len().min(size - 1);
                    std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, n);
                    *buf.add(n) = 0;
                    if !r.is_null() { *r = n }
                }
                OK
            }
            _ => STRING,
        }
    }
    fn napi_is_array(env, j, v: H, r: *mut bool) { let o = obj!(j, v, "napi_is_array"); *r = matches!(j.o[o].v, V::Arr(_)); OK }
    fn napi_is_typedarray(env, j, v: H, r: *mut bool) { let o = obj!(j, v, "napi_is_typedarray"); *r = matches!(j.o[o].v, V::View { .. }); OK }
    fn napi_is_arraybuffer(env, j, v: H, r: *mut bool) { let o = obj!(j, v, "napi_is_arraybuffer"); *r = matches!(j.o[o].v, V::Buf { .. }); OK }
    fn napi_is_buffer(env, j, v: H, r: *mut bool) { let o = obj!(j, v, "napi_is_buffer"); *r = matches!(j.o[o].v, V::View { .. }); OK }
    fn napi_is_error(env, j, v: H, r: *mut bool) { let o = obj!(j, v, "napi_is_error"); *r = matches!(j.o[o].v, V::Error); OK }
    fn napi_is_promise(env, j, v: H, r: *mut bool) { let o = obj!(j, v, "napi_is_promise"); *r = matches!(j.o[o].v, V::Promise(..)); OK }
    fn napi_is_exception_pending(env, j, r: *mut bool) { *r = j.pending.is_some(); OK }
    fn napi_get_and_clear_last_exception(env, j, r: *mut H) { let x = j.pending.take().unwrap_or(0); *r = j.h(x); OK }
    fn napi_get_array_length(env, j, v: H, r: *mut u32) {
        let o = obj!(j, v, "napi_get_array_length");
        match &j.o[o].v { V::Arr(e) => { *r = e.len() as u32; OK } _ => ARRAY }
    }
    fn napi_get_typedarray_info(env, j, v: H, ty: *mut i32, len: *mut usize, data: *mut *mut c_void, ab: *mut H, off: *mut usize) {
        let o = obj!(j, v, "napi_get_typedarray_info");
        let V::View { ty: t, buf, off: f, len: n } = j.o[o].v.clone() else { return INVALID };
        let V::Buf { p, .. } = j.o[buf].v else { return INVALID };
        if !ty.is_null() { *ty = t }
        if !len.is_null() { *len = n }
        if !data.is_null() { *data = if p == 0 { std::ptr::null_mut() } else { (p + f) as *mut c_void } }
        if !ab.is_null() { *ab = j.h(buf) }
        if !off.is_null() { *off = f }
        OK
    }
    fn napi_get_arraybuffer_info(env, j, v: H, data: *mut *mut c_void, len: *mut usize) {
        let o = obj!(j, v, "napi_get_arraybuffer_info");
        let V::Buf { p, len: n, .. } = j.o[o].v else { return INVALID };
        if !data.is_null() { *data = p as *mut c_void }
        if !len.is_null() { *len = n }
        OK
    }
    fn napi_get_buffer_info(env, j, v: H, data: *mut *mut c_void, len: *mut usize) {
        let o = obj!(j, v, "napi_get_buffer_info");
        let V::View { buf, off: f, len: n, .. } = j.o[o].v.clone() else { return INVALID };
        let V::Buf { p, .. } = j.o[buf].v else { return INVALID };
        if !data.is_null() { *data = if p == 0 { std::ptr::null_mut() } else { (p + f) as *mut c_void } }
        if !len.is_null() { *len = n }
        OK
    }
    fn napi_get_cb_info(env, j, i: *mut Info, argc: *mut usize, argv: *mut H, this: *mut H, data: *mut *mut c_void) {
        let i = &*i;
        if !argc.is_null() {
            if !argv.is_null() {
                for k in 0..*argc {
                    *argv.add(k) = match i.args.get(k) { Some(h) => *h, None => j.h(0) };
                }
            }
            *argc = i.args.len();
        }
        if !this.is_null() { *this = i.this }
        if !data.is_null() { *data = i.data }
        OK
    }
    fn napi_create_reference(env, j, v: H, n: u32, r: *mut usize) {
        let o = obj!(j, v, "napi_create_reference");
        if !j.is_object(o) { return OBJECT }
        j.refs.push(Ref { o, count: n, live: true });
        *r = j.refs.len() << 3;
        OK
    }
    fn napi_delete_reference(env, j, r: usize) {
        match live_ref(j, r, "napi_delete_reference") { Some(x) => { x.live = false; OK } None => INVALID }
    }
    fn napi_reference_ref(env, j, r: usize, n: *mut u32) {
        match live_ref(j, r, "napi_reference_ref") { Some(x) => { x.count += 1; if !n.is_null() { *n = x.count } OK } None => INVALID }
    }
    fn napi_reference_unref(env, j, r: usize, n: *mut u32) {
        match live_ref(j, r, "napi_reference_unref") {
            Some(x) if x.count == 0 => FAILURE,
            Some(x) => { x.count -= 1; if !n.is_null() { *n = x.count } OK }
            None => INVALID,
        }
    }
    fn napi_get_reference_value(env, j, r: usize, v: *mut H) {
        match live_ref(j, r, "napi_get_reference_value") {
            Some(x) => { let o = x.o; *v = if j.o[o].dead { std::ptr::null_mut() } else { j.h(o) }; OK }
            None => INVALID,
        }
    }
    fn napi_add_env_cleanup_hook(env, j, f: usize, arg: usize) { j.hooks.push((f, arg)); OK }
    fn napi_remove_env_cleanup_hook(env, j, f: usize, arg: usize) { j.hooks.retain(|h| *h != (f, arg)); OK }
    fn napi_open_handle_scope(env, j, r: *mut u64) { j.open(); *r = j.serial; OK }
    fn napi_close_handle_scope(env, j, s: u64) {
        if j.scopes.last().map(|x| x.0) != Some(s) || j.scopes.len() < 2 {
            problem("handle-scope", "a handle scope was closed out of order".into());
            return 13;
        }
        j.scopes.pop();
        OK
    }
    fn napi_adjust_external_memory(env, j, d: i64, r: *mut i64) { let _ = (&j, d); *r = 0; OK }
    fn napi_set_instance_data(env, j, _d: usize, _f: usize, _h: usize) { let _ = &j; OK }
    fn napi_ref_threadsafe_function(env, j, _t: usize) { let _ = &j; OK }
    fn napi_unref_threadsafe_function(env, j, _t: usize) { let _ = &j; OK }
    fn napi_create_threadsafe_function(env, j, func: H, _res: H, _name: H, max: usize, threads: usize, fin_data: usize, fin: Fin, ctx: usize, call: CallJs, r: *mut usize) {
        if max != 0 { return FAILURE }
        let func = if func.is_null() { 0 } else { obj!(j, func, "napi_create_threadsafe_function") };
        let mut t = TSFN.lock().unwrap();
        t.push(Tsfn { func, ctx, call, fin, fin_data, threads: threads as u32, queue: VecDeque::new(), closing: false, gone: false });
        *r = t.len() << 3;
        OK
    }
}
fn live_ref<'a>(j: &'a mut Js, r: usize, what: &str) -> Option<&'a mut Ref> {
    if r == 0 {
        return None;
    }
    match j.refs.get_mut((r >> 3).wrapping_sub(1)) {
        Some(x) if x.live => Some(x),
        _ => {
            problem("bad-reference", format!("{what} used a reference that was deleted"));
            None
        }
    }
}
napi_run! {
    fn napi_throw(env, j, e: H) { let o = obj!(j, e, "napi_throw"); j.pending = Some(o); OK }
    fn napi_throw_error(env, j, _code: *const c_char, msg: *const c_char) { let m = cstr(msg, usize::MAX); j.throw(&m); OK }
    fn napi_throw_type_error(env, j, _code: *const c_char, msg: *const c_char) { let m = cstr(msg, usize::MAX); j.throw(&m); OK }
    fn napi_throw_range_error(env, j, _code: *const c_char, msg: *const c_char) { let m = cstr(msg, usize::MAX); j.throw(&m); OK }
    fn napi_create_function(env, j, _n: *const c_char, _l: usize, cb: Cb, data: usize, r: *mut H) { let o = j.alloc(V::Func(cb, data)); *r = j.h(o); OK }
    fn napi_create_arraybuffer(env, j, n: usize, data: *mut *mut c_void, r: *mut H) {
        let o = j.buffer(n);
        if let (V::Buf { p, .. }, false) = (&j.o[o].v, data.is_null()) { *data = *p as *mut c_void }
        *r = j.h(o);
        OK
    }
    fn napi_create_external_arraybuffer(env, j, p: usize, n: usize, fin: Fin, hint: usize, r: *mut H) {
        if j.no_external { return NO_EXTERNAL }
        let o = j.alloc(V::Buf { p, len: n, owned: 0, fin, hint });
        *r = j.h(o);
        OK
    }
    fn napi_create_typedarray(env, j, ty: i32, n: usize, ab: H, off: usize, r: *mut H) {
        let b = obj!(j, ab, "napi_create_typedarray");
        let V::Buf { len, .. } = j.o[b].v else { return INVALID };
        let size = [1, 1, 1, 2, 2, 4, 4, 4, 8, 8, 8][ty.clamp(0, 10) as usize];
        if off + n * size > len { j.throw("Invalid typed array length"); return PENDING }
        let o = j.alloc(V::View { ty, buf: b, off, len: n });
        *r = j.h(o);
        OK
    }
    fn napi_create_buffer_copy(env, j, n: usize, src: *const u8, data: *mut *mut c_void, r: *mut H) {
        let b = j.buffer(n);
        j.roots.push(b);
        let V::Buf { p, .. } = j.o[b].v else { return FAILURE };
        if n > 0 { std::ptr::copy_nonoverlapping(src, p as *mut u8, n) }
        if !data.is_null() { *data = p as *mut c_void }
        let o = j.alloc(V::View { ty: 1, buf: b, off: 0, len: n });
        j.roots.pop();
        *r = j.h(o);
        OK
    }
    fn napi_create_promise(env, j, d: *mut usize, r: *mut H) {
        let o = j.alloc(V::Promise(0, 0));
        j.deferred.push((o, false));
        *d = j.deferred.len() << 3;
        *r = j.h(o);
        OK
    }
    fn napi_resolve_deferred(env, j, d: usize, v: H) { settle(j, d, v, 1) }
    fn napi_reject_deferred(env, j, d: usize, v: H) { settle(j, d, v, 2) }
    fn napi_set_named_property(env, j, o: H, n: *const c_char, v: H) {
        let (o, v, n) = (obj!(j, o, "napi_set_named_property"), obj!(j, v, "napi_set_named_property"), cstr(n, usize::MAX));
        if !j.is_object(o) { return OBJECT }
        match j.o[o].props.iter_mut().find(|p| p.0 == n) { Some(p) => p.1 = v, None => j.o[o].props.push((n, v)) }
        OK
    }
    fn napi_get_named_property(env, j, o: H, n: *const c_char, r: *mut H) {
        let (o, n) = (obj!(j, o, "napi_get_named_property"), cstr(n, usize::MAX));
        if matches!(j.o[o].v, V::Undef | V::Null) { return OBJECT }
        if j.access_throws() { return PENDING }
        let x = j.prop(o, &n).unwrap_or(0);
        *r = j.h(x);
        OK
    }
    fn napi_has_named_property(env, j, o: H, n: *const c_char, r: *mut bool) {
        let (o, n) = (obj!(j, o, "napi_has_named_property"), cstr(n, usize::MAX));
        *r = j.prop(o, &n).is_some();
        OK
    }
    fn napi_get_element(env, j, o: H, i: u32, r: *mut H) {
        let o = obj!(j, o, "napi_get_element");
        if matches!(j.o[o].v, V::Undef | V::Null) { return OBJECT }
        if j.access_throws() { return PENDING }
        let x = match &j.o[o].v { V::Arr(e) => e.get(i as usize).copied().unwrap_or(0), _ => 0 };
        *r = j.h(x);
        OK
    }
    fn napi_set_element(env, j, o: H, i: u32, v: H) {
        let (o, v) = (obj!(j, o, "napi_set_element"), obj!(j, v, "napi_set_element"));
        match &mut j.o[o].v {
            V::Arr(e) => { if e.len() <= i as usize { e.resize(i as usize + 1, 0) } e[i as usize] = v; OK }
            _ => OBJECT,
        }
    }
    fn napi_wrap(env, j, o: H, p: usize, fin: Fin, hint: usize, r: *mut usize) {
        let o = obj!(j, o, "napi_wrap");
        if !j.is_object(o) { return OBJECT }
        if j.o[o].wrap.is_some() { return INVALID }
        j.o[o].wrap = Some((p, fin, hint));
        if !r.is_null() {
            j.refs.push(Ref { o, count: 0, live: true });
            *r = j.refs.len() << 3;
        }
        OK
    }
    fn napi_unwrap(env, j, o: H, r: *mut usize) {
        let o = obj!(j, o, "napi_unwrap");
        match j.o[o].wrap { Some((p, _, _)) => { *r = p; OK } None => INVALID }
    }
    fn napi_remove_wrap(env, j, o: H, r: *mut usize) {
        let o = obj!(j, o, "napi_remove_wrap");
        match j.o[o].wrap.take() { Some((p, _, _)) => { if !r.is_null() { *r = p } OK } None => INVALID }
    }
    fn napi_define_class(env, j, _n: *const c_char, _l: usize, ctor: Cb, data: usize, np: usize, props: *const Desc, r: *mut H) {
        let o = j.alloc(V::Func(ctor, data));
        for k in 0..np {
            let d = &*props.add(k);
            let name = if d.name.is_null() { cstr(d.utf8, usize::MAX) } else { let s = obj!(j, d.name, "napi_define_class"); j.str(s) };
            j.o[o].accs.push(Acc { name, method: d.method, get: d.getter, data: d.data, is_static: d.attrs & 1024 != 0 });
        }
        *r = j.h(o);
        OK
    }
    fn napi_new_instance(env, j, c: H, argc: usize, argv: *const H, r: *mut H) {
        let c = obj!(j, c, "napi_new_instance");
        if !matches!(j.o[c].v, V::Func(..)) { return FUNCTION }
        let args: Vec<usize> = (0..argc).filter_map(|k| j.get(*argv.add(k), "napi_new_instance")).collect();
        match construct(c, &args) {
            Ok(o) => { *r = js().h(o); OK }
            Err(e) => { js().pending = Some(e); PENDING }
        }
    }
    fn napi_call_function(env, j, this: H, f: H, argc: usize, argv: *const H, r: *mut H) {
        let f = obj!(j, f, "napi_call_function");
        let V::Func(cb, data) = j.o[f].v else { return FUNCTION };
        let t = if this.is_null() { 0 } else { obj!(j, this, "napi_call_function") };
        let args: Vec<usize> = (0..argc).filter_map(|k| j.get(*argv.add(k), "napi_call_function")).collect();
        match invoke(cb, data, t, &args) {
            Ok(o) => { if !r.is_null() { *r = js().h(o) } OK }
            Err(e) => { js().pending = Some(e); PENDING }
        }
    }
}
#[repr(C)]
pub struct Desc {
    utf8: *const c_char,
    name: H,
    method: Cb,
    getter: Cb,
    setter: Cb,
    value: H,
    attrs: i32,
    data: usize,
}
fn settle(j: &mut Js, d: usize, v: H, how: u8) -> Status {
    let Some(o) = j.get(v, "settling a promise") else { return INVALID };
    let Some((p, done)) = j.deferred.get_mut((d >> 3).wrapping_sub(1)) else { return INVALID };
    if *done {
        problem("settled-twice", "a promise was settled twice".into());
        return INVALID;
    }
    *done = true;
    let p = *p;
    j.o[p].v = V::Promise(how, o);
    j.fired.push(p);
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_call_threadsafe_function(t: usize, data: usize, _mode: i32) -> Status {
    rt::preempt();
    let mut v = TSFN.lock().unwrap();
    let Some(f) = v.get_mut((t >> 3).wrapping_sub(1)) else { return INVALID };
    if f.closing {
        return CLOSING;
    }
    if f.gone || f.threads == 0 {
        drop(v);
        problem("tsfn-after-release", "a thread-safe function was called after it was released".into());
        return CLOSING;
    }
    f.queue.push_back(data);
    WAKE.notify_all();
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_acquire_threadsafe_function(t: usize) -> Status {
    let mut v = TSFN.lock().unwrap();
    let Some(f) = v.get_mut((t >> 3).wrapping_sub(1)) else { return INVALID };
    f.threads += 1;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_release_threadsafe_function(t: usize, mode: i32) -> Status {
    rt::preempt();
    let mut v = TSFN.lock().unwrap();
    let Some(f) = v.get_mut((t >> 3).wrapping_sub(1)) else { return INVALID };
    if f.threads == 0 {
        drop(v);
        problem("tsfn-after-release", "a thread-safe function was released twice".into());
        return INVALID;
    }
    f.threads -= 1;
    if mode == 1 {
        f.closing = true;
    }
    WAKE.notify_all();
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_get_threadsafe_function_context(t: usize, r: *mut usize) -> Status {
    let mut v = TSFN.lock().unwrap();
    let Some(f) = v.get_mut((t >> 3).wrapping_sub(1)) else { return INVALID };
    *r = f.ctx;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_get_last_error_info(_e: *mut c_void, r: *mut *const c_void) -> Status {
    static INFO: [u64; 4] = [0; 4];
    *r = INFO.as_ptr() as *const c_void;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_fatal_error(_l: *const c_char, _ll: usize, _m: *const c_char, _ml: usize) -> ! {
    libc::abort()
}
#[no_mangle]
pub unsafe extern "C" fn napi_fatal_exception(_e: *mut c_void, _x: H) -> Status {
    libc::abort()
}
// ---------- the JavaScript side
/// calls a native function; Err: the exception it threw
fn invoke(cb: Cb, data: usize, this: usize, args: &[usize]) -> Result<usize, usize> {
    let j = js();
    j.open();
    let n = j.scopes.len();
    let mut i = Info { this: j.h(this), args: args.iter().map(|a| j.h(*a)).collect(), data: data as *mut c_void };
    let r = unsafe { cb.map_or(std::ptr::null_mut(), |f| f(env_ptr(), &mut i)) };
    let j = js();
    let o = if r.is_null() { 0 } else { j.get(r, "the returned value").unwrap_or(0) };
    if j.scopes.len() != n {
        problem("handle-scope", "a native function left a handle scope open".into());
    }
    j.scopes.truncate(n - 1);
    match j.pending.take() {
        Some(e) => Err(e),
        None => Ok(o),
    }
}
fn construct(class: usize, args: &[usize]) -> Result<usize, usize> {
    let j = js();
    let o = j.alloc(V::Obj);
    j.o[o].class = class;
    let V::Func(cb, data) = j.o[class].v else { return Ok(0) };
    j.roots.push(o);
    let r = invoke(cb, data, o, args);
    js().roots.pop();
    r.map(|_| o)
}
fn find(class: usize, name: &str, is_static: bool) -> Option<Acc> {
    js().o[class].accs.iter().find(|a| a.name == name && a.is_static == is_static).cloned()
}
fn method(o: usize, name: &str, this: usize, args: &[usize]) -> Result<usize, usize> {
    let c = js().o[o].class;
    match find(c, name, false) {
        Some(a) => invoke(a.method, a.data, this, args),
        None => {
            problem("missing-method", format!("the class has no method {name}"));
            Ok(0)
        }
    }
}
fn getter(o: usize, name: &str) -> Option<usize> {
    let c = js().o[o].class;
    let a = find(c, name, false)?;
    invoke(a.get, a.data, o, &[]).ok()
}
fn dispatch(t: usize, data: usize) {
    let (call, func, ctx) = {
        let v = TSFN.lock().unwrap();
        (v[t].call, v[t].func, v[t].ctx)
    };
    let j = js();
    j.open();
    let n = j.scopes.len();
    let f = if func == 0 { std::ptr::null_mut() } else { j.h(func) };
    if let Some(c) = call {
        unsafe { c(env_ptr(), f, ctx as *mut c_void, data as *mut c_void) };
    }
    let j = js();
    j.scopes.truncate(n - 1);
    if let Some(e) = j.pending.take() {
        let m = j.error_text(e);
        problem("uncaught-exception", format!("an exception escaped to the event loop and would end the process: {m}"));
    }
}
/// runs up to `max` queued callbacks; which thread-safe function goes first is not promised
fn pump(max: u64) -> u64 {
    let mut n = 0;
    while n < max {
        let mut v = TSFN.lock().unwrap();
        let ready: Vec<usize> = (0..v.len()).filter(|i| !v[*i].gone && (!v[*i].queue.is_empty() || v[*i].threads == 0)).collect();
        if ready.is_empty() {
            break;
        }
        let k = ready[js().rng.as_mut().unwrap().idx(ready.len())];
        match v[k].queue.pop_front() {
            Some(d) => {
                drop(v);
                dispatch(k, d);
                n += 1;
            }
            None => {
                v[k].gone = true;
                let (f, d, c) = (v[k].fin, v[k].fin_data, v[k].ctx);
                drop(v);
                if let Some(f) = f {
                    js().open();
                    unsafe { f(env_ptr(), d as *mut c_void, c as *mut c_void) };
                    js().scopes.pop();
                }
            }
        }
    }
    js().finalize();
    n
}
/// sleeps until a callback is queued
fn block() {
    let mut v = TSFN.lock().unwrap();
    while !v.iter().any(|t| !t.gone && (!t.queue.is_empty() || t.threads == 0)) {
        v = WAKE.wait(v).unwrap();
    }
}
extern "C" {
    fn napi_register_module_v1(env: *mut c_void, exports: H) -> H;
}
struct Ctx {
    o: usize, // 0: dropped
    grown: i64,
    stuck: bool, // a rejected call keeps its receiver for ever (napi-rs)
}
static mut CTXS: Vec<Ctx> = Vec::new();
static mut EXPORTS: usize = 0;
static mut BASE_LIVE: i64 = 0;
#[allow(static_mut_refs)]
fn ctxs() -> &'static mut Vec<Ctx> {
    unsafe { &mut CTXS }
}
fn options(precomp: bool, threads: f64) -> usize {
    let j = js();
    let o = j.alloc(V::Obj);
    j.roots.push(o);
    let t = j.alloc(V::Num(threads));
    j.o[o].props.push(("usePrecomp".into(), 3 - precomp as usize));
    j.o[o].props.push(("numThreads".into(), t));
    j.roots.pop();
    o
}
fn class(name: &str) -> usize {
    js().prop(unsafe { EXPORTS }, name).unwrap_or(0)
}
fn create(opts: usize) -> Result<usize, usize> {
    let c = class("DasContextJs");
    let a = find(c, "create", true).expect("harness: no DasContextJs.create");
    invoke(a.method, a.data, c, &[opts])
}
pub fn build() {
    std::hint::black_box(node_eth_kzg::DASContextJs::blob_to_kzg_commitment as *const () as usize);
    let w = world();
    let specs = w.tpl.ctxs.clone();
    rt::configure(&cfg_for(&w.tpl, 1, specs.first().map_or(1, |s| s.ncpu)), &[], false);
    w.ctxs.push(Some(std::sync::Arc::new(make_ctx(&w.ts, &CtxSpec { threads: -1, width: 0, ncpu: 1 }))));
    w.trust = true;
    crate::capi::reference_arts(5);
    let j = js();
    j.fibre = rt::cur();
    j.rng = Some(Rng::new(w.tpl.seed));
    for v in [V::Undef, V::Null, V::Bool(true), V::Bool(false)] {
        j.alloc(v);
    }
    j.open();
    let ex = j.alloc(V::Obj);
    unsafe { EXPORTS = ex };
    j.roots.push(ex);
    let h = j.h(ex);
    unsafe { napi_register_module_v1(env_ptr(), h) };
    let j = js();
    assert!(j.pending.is_none(), "harness: module registration threw");
    j.scopes.pop();
    for (i, s) in specs.iter().enumerate() {
        rt::configure(&cfg_for(&world().tpl, 2 + i as u64, s.ncpu), &[], false);
        rt::quiesce(100000);
        let before = rt::stats().live as i64;
        let o = if s.width > 0 && s.threads == 1 { construct(class("DasContextJs"), &[]) } else { create(options(s.width > 0, s.threads.max(0) as f64)) };
        let o = o.unwrap_or_else(|e| panic!("harness: create threw {}", js().error_text(e)));
        js().roots.push(o);
        rt::quiesce(100000);
        ctxs().push(Ctx { o, grown: rt::stats().live as i64 - before, stuck: false });
    }
    js().gc();
    js().finalize();
    std::panic::set_hook(Box::new(|_| {
        PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }));
    unsafe {
        BASE_LIVE = rt::stats().live as i64;
        libc::mallopt(libc::M_PERTURB, 0x5b);
    }
}

// ---------- plans
/// part: 0 commitments, 1 indices, 2 cells, 3 proofs, 4 the blob
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "j")]
pub enum NMut {
    Size { part: u8, at: usize, len: usize },
    /// an element of another type
    Kind { part: u8, at: usize, k: u8 },
    /// the whole argument replaced
    Outer { part: u8, k: u8 },
    Index { at: usize, neg: bool, words: Vec<u64> },
    Detached { part: u8, at: usize },
    Fewer { n: usize },
    Extra,
    This { k: u8 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "a")]
pub enum Act {
    Pump { n: u64 },
    Rest { ns: u64 },
    Gc,
    DropCtx { ctx: usize },
    DropResults,
    Touch,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct NExtra {
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub nm: Vec<NMut>,
    pub asy: bool,
    /// computeCells instead of computeCellsAndKzgProofs; nobody keeps the promise
    pub alt: bool,
    pub forget: bool,
    /// the arguments are in the buffers of the call before (synchronous calls only)
    pub refill: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub throw_at: Option<u64>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub act: Vec<Act>,
}
struct NArgs {
    args: Vec<usize>,
    bad: bool,
    idx: Option<Vec<u64>>,
    this: u8,
}
fn u8array(b: &[u8], r: &mut Rng) -> usize {
    let j = js();
    let (pad, tail) = if r.chance(1, 3) { (r.idx(9) * 8, r.idx(3) * 8) } else { (0, 0) };
    let buf = j.buffer(b.len() + pad + tail);
    j.roots.push(buf);
    if let V::Buf { p, .. } = j.o[buf].v {
        if !b.is_empty() {
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (p + pad) as *mut u8, b.len()) };
        }
    }
    let v = j.alloc(V::View { ty: 1, buf, off: pad, len: b.len() });
    j.roots.pop();
    v
}
/// the same buffer as last time, with other contents
fn refilled(part: usize, n: usize, b: &[u8]) -> usize {
    let j = js();
    let buf = match j.pool.get(&(part, n, b.len())) {
        Some(x) => *x,
        None => {
            let x = j.buffer(b.len());
            j.pool.insert((part, n, b.len()), x);
            x
        }
    };
    if let V::Buf { p, .. } = j.o[buf].v {
        if !b.is_empty() {
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, b.len()) };
        }
    }
    j.alloc(V::View { ty: 1, buf, off: 0, len: b.len() })
}
fn odd_value(k: u8, b: &[u8], r: &mut Rng) -> usize {
    let j = js();
    match k % 9 {
        0 => 0,
        1 => 1,
        2 => j.alloc(V::Num(3.0)),
        3 => j.alloc(V::Str("0x00".into())),
        4 => j.alloc(V::Obj),
        5 => {
            let x = u8array(b, r);
            let j = js();
            if let V::View { ty, len, .. } = &mut j.o[x].v {
                *ty = 4;
                *len /= 2;
            }
            x
        }
        6 => {
            let x = u8array(b, r);
            if let V::View { ty, .. } = &mut js().o[x].v {
                *ty = 0;
            }
            x
        }
        7 => j.buffer(b.len()),
        _ => {
            let n = j.alloc(V::Num(0.0));
            j.alloc(V::Arr(vec![n; b.len().min(2048)]))
        }
    }
}
/// the JavaScript arguments of a call; roots grow by everything created
fn nargs(raw: &Raw, nm: &[NMut], refill: bool, r: &mut Rng) -> NArgs {
    let mut a = NArgs { args: vec![], bad: false, idx: None, this: 0 };
    let mut parts: [Option<Vec<Vec<u8>>>; 5] = Default::default();
    let mut idx: Option<Vec<(bool, Vec<u64>)>> = None;
    let big = |i: &[u64]| Some(i.iter().map(|x| (false, if *x == 0 { vec![] } else { vec![*x] })).collect::<Vec<_>>());
    let order: &[usize] = match raw {
        Raw::Commit(b) | Raw::Compute(b) => {
            parts[4] = Some(vec![b.to_vec()]);
            &[4]
        }
        Raw::Recover(i, c) => {
            idx = big(i);
            parts[2] = Some(c.iter().map(|x| x.to_vec()).collect());
            &[1, 2]
        }
        Raw::Verify(c, i, e, p) => {
            idx = big(i);
            parts[0] = Some(c.iter().map(|x| x.to_vec()).collect());
            parts[2] = Some(e.iter().map(|x| x.to_vec()).collect());
            parts[3] = Some(p.iter().map(|x| x.to_vec()).collect());
            &[0, 1, 2, 3]
        }
    };
    // values first, then objects
    let mut kinds: Vec<(usize, usize, u8)> = vec![];
    let mut detached: Vec<(usize, usize)> = vec![];
    let mut outer: Vec<(usize, u8)> = vec![];
    let (mut fewer, mut extra) = (0, false);
    for m in nm {
        match m {
            NMut::Size { part, at, len } => {
                if let Some(v) = &mut parts[*part as usize % 5] {
                    if !v.is_empty() {
                        let n = v.len();
                        if v[at % n].len() != *len {
                            v[at % n].resize(*len, 7);
                            a.bad = true;
                        }
                    }
                }
            }
            NMut::Kind { part, at, k } => {
                let p = *part as usize % 5;
                let n = if p == 1 { idx.as_ref().map_or(0, |i| i.len()) } else { parts[p].as_ref().map_or(0, |v| v.len()) };
                if n > 0 {
                    kinds.push((p, at % n, *k));
                    a.bad = true;
                }
            }
            NMut::Detached { part, at } => {
                let p = *part as usize % 5;
                if let Some(v) = &parts[p] {
                    if !v.is_empty() {
                        detached.push((p, at % v.len()));
                        a.bad = true;
                    }
                }
            }
            NMut::Outer { part, k } => {
                let p = *part as usize % 5;
                if order.contains(&p) {
                    outer.push((p, *k));
                    a.bad = true;
                }
            }
            NMut::Index { at, neg, words } => {
                if let Some(i) = &mut idx {
                    if !i.is_empty() {
                        let n = i.len();
                        i[at % n] = (*neg && !words.is_empty(), words.clone());
                        a.bad |= (*neg && !words.is_empty()) || words.len() > 1;
                    }
                }
            }
            NMut::Fewer { n } => {
                fewer = (*n).clamp(1, order.len());
                a.bad = true;
            }
            NMut::Extra => extra = true,
            NMut::This { k } => {
                a.this = 1 + k % 3;
                a.bad = true;
            }
        }
    }
    if let Some(i) = &idx {
        a.idx = Some(i.iter().map(|x| x.1.first().copied().unwrap_or(0)).collect());
    }
    for &p in order {
        let mut e = vec![];
        if p == 1 {
            for (n, w) in idx.clone().unwrap() {
                let j = js();
                let x = j.alloc(V::Big(n, w));
                j.roots.push(x);
                e.push(x);
            }
        } else {
            for (n, b) in parts[p].as_ref().unwrap().iter().enumerate() {
                let x = if refill { refilled(p, n, b) } else { u8array(b, r) };
                js().roots.push(x);
                e.push(x);
            }
        }
        for (q, at, k) in &kinds {
            if *q == p && *at < e.len() {
                let b = if p == 1 { vec![0; 8] } else { parts[p].as_ref().unwrap()[*at].clone() };
                let x = odd_value(*k, &b, r);
                js().roots.push(x);
                e[*at] = x;
            }
        }
        for (q, at) in &detached {
            if *q == p && *at < e.len() {
                let j = js();
                if let V::View { buf, len, off, .. } = &mut j.o[e[*at]].v {
                    *len = 0;
                    *off = 0;
                    let b = *buf;
                    if let V::Buf { p, len, .. } = &mut j.o[b].v {
                        *p = 0;
                        *len = 0;
                    }
                }
            }
        }
        let mut x = if p == 4 { e[0] } else { js().alloc(V::Arr(e.clone())) };
        js().roots.push(x);
        for (q, k) in &outer {
            if *q == p {
                x = match k % 5 {
                    0 => 0,
                    1 => 1,
                    2 => odd_value(2, &[], r),
                    3 => js().alloc(V::Obj),
                    _ => {
                        if p == 4 {
                            js().alloc(V::Arr(vec![x]))
                        } else {
                            u8array(&[1, 2, 3], r)
                        }
                    }
                };
                js().roots.push(x);
            }
        }
        a.args.push(x);
    }
    a.args.truncate(order.len() - fewer);
    if extra {
        a.args.push(1);
    }
    a
}
fn digest(o: usize, h: u64) -> u64 {
    let j = js();
    match &j.o[o].v {
        V::Arr(e) => e.clone().into_iter().fold(fnv(h, &[1]), |h, x| digest(x, h)),
        V::View { ty: 1, .. } => fnv(h, &j.bytes(o).unwrap_or_default()),
        V::Big(n, w) => w.iter().fold(fnv(h, &[*n as u8]), |h, x| fnv(h, &x.to_le_bytes())),
        _ => fnv(h, &[2]),
    }
}
/// a list of byte arrays
fn list(o: usize) -> Option<Vec<Vec<u8>>> {
    match &js().o[o].v {
        V::Arr(e) => e.iter().map(|x| js().bytes(*x)).collect(),
        _ => None,
    }
}
fn cells_of(v: Vec<Vec<u8>>) -> Option<Vec<BCell>> {
    (v.len() == CELLS && v.iter().all(|x| x.len() == CELL_BYTES)).then(|| v.into_iter().map(|x| x.into_boxed_slice().try_into().unwrap()).collect())
}
/// the value a call produced, as an outcome; None: not the promised shape
fn outcome(op: &Op, alt: bool, o: usize, want: &Out) -> Option<Out> {
    match op {
        Op::Verify { .. } => match js().o[o].v {
            V::Bool(true) => Some(Out::Verify(Verdict::Accept, String::new())),
            V::Bool(false) => Some(Out::Verify(Verdict::InvalidProof, String::new())),
            _ => None,
        },
        Op::Commit { .. } => js().bytes(o).and_then(|b| b.try_into().ok()).map(|b| Out::Commit(Ok(b))),
        Op::Compute { .. } if alt => {
            let c = cells_of(list(o)?)?;
            // proofs are not part of this answer
            let p = match want {
                Out::Arts(Ok((_, p))) => p.clone(),
                _ => vec![],
            };
            Some(Out::Arts(Ok((c, p))))
        }
        _ => {
            let j = js();
            if j.o[o].class != class("CellsAndProofs") {
                return None;
            }
            let c = getter(o, "cells")?;
            js().roots.push(c);
            let p = getter(o, "proofs");
            js().roots.pop();
            let (c, p) = (cells_of(list(c)?)?, list(p?)?);
            (p.len() == CELLS && p.iter().all(|x| x.len() == 48)).then(|| Out::Arts(Ok((c, p.into_iter().map(|x| x.try_into().unwrap()).collect()))))
        }
    }
}
fn error_out(op: &Op, m: String) -> Out {
    match op {
        Op::Commit { .. } => Out::Commit(Err(m)),
        Op::Verify { .. } => Out::Verify(Verdict::InputError, m),
        _ => Out::Arts(Err(m)),
    }
}
struct Pend {
    promise: usize,
    args: Vec<usize>,
    before: u64,
    si: usize,
    op: Op,
    x: NExtra,
    w: Want,
    bad: bool,
    threw: bool,
    done: bool,
    deferred: usize,
}
struct Prog {
    pend: Vec<Pend>,
    kept: Vec<(usize, Op, bool, u64)>,
}
fn reading(op: &Op, alt: bool, o: usize) -> u64 {
    let none = Out::Arts(Err(String::new()));
    outcome(op, alt, o, &none).map_or(0, |x| out_hash(&x))
}
impl Prog {
    fn roots(&self, base: usize) {
        let j = js();
        j.roots.truncate(base);
        for p in &self.pend {
            if !p.done {
                if !p.x.forget {
                    j.roots.push(p.promise);
                }
                // (the arguments are only kept by the binding)
            }
        }
        j.roots.extend(self.kept.iter().map(|k| k.0));
        j.roots.extend(ctxs().iter().filter(|c| c.o != 0).map(|c| c.o));
    }
    fn judge(&mut self, k: usize, how: Result<usize, usize>, base: usize) {
        let p = &self.pend[k];
        let j = js();
        let (op, x) = (p.op.clone(), p.x.clone());
        let at = json!([0, p.si]);
        let kind = if x.asy { "async" } else { "sync" };
        let live = match how {
            Ok(o) | Err(o) => o,
        };
        j.roots.push(live);
        j.roots.extend(&p.args);
        let mut fails: Vec<(&str, String)> = vec![];
        let out = match how {
            Err(e) => {
                let m = j.error_text(e);
                if !matches!(j.o[e].v, V::Error) {
                    fails.push(("bad-error", "the call failed with something that is not an Error".into()));
                }
                Some(error_out(&op, m))
            }
            Ok(o) => {
                let r = outcome(&op, x.alt, o, &p.w.out);
                if r.is_none() {
                    fails.push(("half-built", "the call returned something that is not of the promised shape".into()));
                }
                r
            }
        };
        // the same view of the arguments, unless JavaScript let go of them
        if x.asy && x.forget {
        } else if p.args.iter().fold(0, |h, a| digest(*a, h)) != p.before {
            fails.push(("arguments-modified", "the caller's arrays were modified".into()));
        }
        let p = &self.pend[k];
        if let Some(o) = &out {
            let exc = matches!(o, Out::Commit(Err(_)) | Out::Arts(Err(_)) | Out::Verify(Verdict::InputError, _));
            rep().ev(&out_hash(o).to_le_bytes());
            rep().add(&format!("{kind}.{}", if exc { "error" } else { "value" }), 1);
            if p.bad || p.threw {
                if !exc {
                    fails.push(("bad-arguments-accepted", format!("unusable arguments gave {}", out_name(o))));
                }
            } else if out_hash(o) != out_hash(&p.w.out) {
                fails.push(("differs-from-rust", format!("through Node: {}; through Rust: {}", out_name(o), out_name(&p.w.out))));
            }
            if exc && x.asy {
                let n = ctxs().len();
                ctxs()[op.ctx() % n].stuck = true;
            }
            if let (Ok(v), true) = (how, matches!(o, Out::Arts(Ok(_)))) {
                let h = reading(&op, x.alt, v);
                self.kept.push((v, op.clone(), x.alt, h));
            }
        }
        self.pend[k].done = true;
        if let Some((c, d)) = fails.into_iter().next() {
            rep().fail(viol(&["C14"], c, format!("{kind} {}: {d}", op.name())), at);
        }
        self.roots(base);
    }
    /// promises the event loop has settled
    fn collect(&mut self, base: usize) {
        for k in 0..self.pend.len() {
            if self.pend[k].done {
                continue;
            }
            let p = self.pend[k].promise;
            if let V::Promise(s, v) = js().o[p].v {
                if s > 0 {
                    self.judge(k, if s == 1 { Ok(v) } else { Err(v) }, base);
                }
            }
        }
        js().fired.clear();
    }
    fn touch(&mut self) {
        for (o, op, alt, h) in &self.kept {
            if reading(op, *alt, *o) != *h {
                problem("result-changed", format!("a {} result changed while JavaScript held it", op.name()));
            }
        }
        rep().add("results-reread", self.kept.len() as u64);
    }
    fn act(&mut self, a: &Act, base: usize) {
        match a {
            Act::Pump { n } => {
                let k = pump(*n);
                rep().add("loop.callbacks", k);
                self.collect(base);
            }
            Act::Rest { ns } => std::thread::sleep(std::time::Duration::from_nanos(*ns)),
            Act::Gc => {
                js().gc();
                rep().add("fault.gc", 1);
            }
            Act::DropCtx { ctx } => {
                let n = ctxs().len();
                if ctxs()[ctx % n].o != 0 {
                    ctxs()[ctx % n].o = 0;
                    rep().add("ctx.dropped", 1);
                }
                self.roots(base);
            }
            Act::DropResults => {
                self.kept.clear();
                self.roots(base);
            }
            Act::Touch => self.touch(),
        }
    }
}
pub fn run(plan: &Plan) {
    let mut t = Tables::new(&plan.blobs);
    let mut r = Rng::new(plan.seed ^ 0x6e6f6465);
    js().rng = Some(Rng::new(plan.seed ^ 0x6763));
    js().no_external = plan.extra["no_external"].as_bool().unwrap_or(false);
    js().gcs = 0;
    let base = 1; // the exports
    let mut g = Prog { pend: vec![], kept: vec![] };
    g.roots(base);
    let steps: Vec<Step> = plan.callers.first().map(|c| c.steps.clone()).unwrap_or_default();
    let wants: Vec<Option<(Op, NExtra, Want)>> = steps
        .iter()
        .map(|s| match s {
            Step::Call { op, x, .. } => Some((op.clone(), serde_json::from_value(x.clone()).unwrap_or_default(), want(&mut t, op))),
            _ => None,
        })
        .collect();
    js().gc_denom = plan.extra["gc"].as_u64().unwrap_or(0);
    for (si, s) in wants.into_iter().enumerate() {
        if rep().viol.is_some() {
            break;
        }
        let Some((op, x, mut w)) = s else { continue };
        for a in &x.act {
            g.act(a, base);
        }
        let n = ctxs().len();
        let ctx = ctxs()[op.ctx() % n].o;
        if ctx == 0 {
            continue;
        }
        let refill = x.refill && !x.asy && !x.nm.iter().any(|m| matches!(m, NMut::Detached { .. } | NMut::Kind { .. }));
        if refill {
            rep().add("case.same-memory", 1);
        }
        let a = nargs(&w.raw, &x.nm, refill, &mut r);
        if let (Some(i), false) = (&a.idx, a.bad) {
            let mut changed = false;
            match &mut w.raw {
                Raw::Recover(k, _) | Raw::Verify(_, k, _, _) if k != i => {
                    *k = i.clone();
                    changed = true
                }
                _ => {}
            }
            if changed {
                let c = world().ctxs[0].clone().unwrap();
                w.out = crate::ops::run(&c, &w.raw);
            }
        }
        {
            let mut q = rep();
            count_want(&mut q, &op, &w);
            q.add(if x.asy { "calls.async" } else { "calls.sync" }, 1);
            for m in &x.nm {
                q.add(match m { NMut::Size { .. } => "fault.array-size", NMut::Kind { .. } => "fault.element-type", NMut::Outer { .. } => "fault.argument-type", NMut::Index { .. } => "fault.bigint", NMut::Detached { .. } => "fault.detached", NMut::Fewer { .. } => "fault.missing-argument", NMut::Extra => "case.extra-argument", NMut::This { .. } => "fault.receiver" }, 1);
            }
        }
        let this = match a.this {
            0 => ctx,
            1 => 0,
            2 => js().alloc(V::Obj),
            _ => js().alloc(V::Num(1.0)),
        };
        js().roots.push(this);
        let name = match (&op, x.alt, x.asy) {
            (Op::Commit { .. }, _, false) => "blobToKzgCommitment",
            (Op::Commit { .. }, _, true) => "asyncBlobToKzgCommitment",
            (Op::Compute { .. }, true, false) => "computeCells",
            (Op::Compute { .. }, true, true) => "asyncComputeCells",
            (Op::Compute { .. }, false, false) => "computeCellsAndKzgProofs",
            (Op::Compute { .. }, false, true) => "asyncComputeCellsAndKzgProofs",
            (Op::Recover { .. }, _, false) => "recoverCellsAndKzgProofs",
            (Op::Recover { .. }, _, true) => "asyncRecoverCellsAndKzgProofs",
            (Op::Verify { .. }, _, false) => "verifyCellKzgProofBatch",
            (Op::Verify { .. }, _, true) => "asyncVerifyCellKzgProofBatch",
        };
        let before = a.args.iter().fold(0, |h, x| digest(*x, h));
        js().accesses = 0;
        js().threw = false;
        js().throw_at = x.throw_at.unwrap_or(u64::MAX);
        let d0 = js().deferred.len();
        let res = method(ctx, name, this, &a.args);
        js().throw_at = u64::MAX;
        let threw = js().threw;
        if threw {
            rep().add("fault.getter-throws", 1);
        }
        let live = match res {
            Ok(o) | Err(o) => o,
        };
        js().roots.push(live);
        let mut p = Pend { promise: 0, args: a.args, before, si, op: op.clone(), x: x.clone(), w, bad: a.bad, threw, done: false, deferred: d0 };
        let promise = matches!((&res, x.asy), (Ok(o), true) if matches!(js().o[*o].v, V::Promise(..)));
        if promise {
            p.promise = live;
            if !x.forget {
                // JavaScript keeps looking at what it passed
                let a = p.args.clone();
                js().o[live].props.extend(a.into_iter().map(|v| ("arg".to_string(), v)));
            }
        } else if x.asy && res.is_ok() {
            problem("no-promise", format!("{name} did not return a promise"));
        }
        g.pend.push(p);
        let k = g.pend.len() - 1;
        if promise {
            g.roots(base);
        } else {
            g.judge(k, res, base);
        }
        let most = g.pend.iter().filter(|p| !p.done).count() as u64;
        let mut q = rep();
        let cur = q.cnt.get("max.in-flight").copied().unwrap_or(0);
        q.cnt.insert("max.in-flight".into(), cur.max(most));
    }
    // every promise settles once nothing else is asked
    while rep().viol.is_none() && g.pend.iter().any(|p| !p.done) {
        block();
        let n = 1 + r.below(3);
        let k = pump(n);
        rep().add("loop.callbacks", k);
        g.collect(base);
    }
    if rep().viol.is_some() {
        return;
    }
    if g.pend.iter().any(|p| p.x.asy && p.promise != 0 && !js().deferred[p.deferred].1) {
        problem("harness-deferred", "a settled promise without its deferred".into());
    }
    g.touch();
    let extra = plan.extra.clone();
    let exit = extra["drop_all"].as_bool().unwrap_or(false);
    g.kept.clear();
    let mut expect = unsafe { BASE_LIVE };
    if exit {
        for c in ctxs().iter_mut() {
            c.o = 0;
        }
    }
    g.roots(base);
    js().gc_denom = 0;
    for _ in 0..3 {
        rt::quiesce(200_000);
        pump(u64::MAX);
        js().gc();
        js().finalize();
    }
    rt::quiesce(200_000);
    // arguments are let go, contexts nobody can reach are gone with their threads
    let j = js();
    let leaked = j.refs.iter().filter(|x| x.live && x.count > 0 && matches!(j.o[x.o].v, V::View { ty: 1, .. })).count();
    if leaked > 0 {
        problem("arguments-leaked", format!("{leaked} of the caller's arrays are still referenced after every call has finished"));
    }
    let mut known = true;
    for c in ctxs().iter() {
        if c.o == 0 {
            if c.stuck {
                known = false;
            } else {
                expect -= c.grown;
            }
        }
    }
    let live = rt::stats().live as i64;
    rep().ev(&live.to_le_bytes());
    if known && live != expect {
        problem(if live > expect { "context-leaked" } else { "context-lost" }, format!("{live} threads alive after the last call, expected {expect}"));
    }
    if known {
        rep().add("worker-accounting", 1);
    }
    let n = PANICS.load(std::sync::atomic::Ordering::SeqCst);
    if n > 0 {
        problem("panicked", format!("{n} panics inside calls"));
    }
    let mut q = rep();
    q.add("gc.runs", j.gcs);
    q.add("gc.finalizers", j.fins);
    q.add("gc.buffers-freed", j.freed);
    if j.no_external {
        q.add("fault.no-external-buffers", 1);
    }
}
pub fn plan(r: &mut Rng, seed: u64, tier: &str) -> Plan {
    let w = world();
    let nc = ctxs().len().max(1) as u64;
    let nb = 1 + r.idx(3);
    let blobs: Vec<BlobSpec> = (0..nb)
        .map(|_| {
            let a = r.pick(&w.arts);
            BlobSpec { k: a.0, s: a.1 }
        })
        .collect();
    let m = if tier == "thorough" { 6 + r.idx(7) } else { 4 + r.idx(5) };
    let mut heavy_left = 4;
    let asy = *r.pick(&[0u64, 5, 8, 10]);
    let mut steps = vec![];
    let drop_at = if r.chance(1, 3) { r.idx(m) } else { usize::MAX };
    for k in 0..m {
        let mut op = crate::gen::any_op(r, nb, if heavy_left > 0 { 45 } else { 0 }, 35);
        crate::gen::set_ctx(&mut op, r.below(nc) as usize);
        let heavy = matches!(op, Op::Compute { .. } | Op::Recover { .. });
        heavy_left -= heavy as i32;
        let mut x = NExtra { asy: r.chance(asy, 10), alt: r.chance(1, 4), forget: r.chance(1, 4), refill: r.chance(1, 2), ..Default::default() };
        match r.below(3) {
            0 => {
                for _ in 0..1 + r.idx(2) {
                    let part = match &op {
                        Op::Commit { .. } | Op::Compute { .. } => 4u8,
                        Op::Recover { .. } => *r.pick(&[1u8, 1, 2]),
                        Op::Verify { .. } => *r.pick(&[0u8, 1, 1, 2, 3]),
                    };
                    let full = [48usize, 0, 2048, 48, 131072][part as usize];
                    let at = if r.chance(1, 3) { 0 } else { r.idx(300) };
                    x.nm.push(match r.below(12) {
                        0 => NMut::Outer { part, k: r.below(5) as u8 },
                        1 => NMut::Fewer { n: 1 + r.idx(4) },
                        2 => NMut::This { k: r.below(3) as u8 },
                        3 => NMut::Extra,
                        4 | 5 => NMut::Kind { part, at, k: r.below(9) as u8 },
                        6 => NMut::Detached { part, at },
                        _ if part == 1 => {
                            let base = r.below(128);
                            let (neg, words) = match r.below(12) {
                                0 => (true, vec![1]),
                                1 => (true, vec![base.max(1)]),
                                2 => (true, vec![1 << 63]),
                                3 => (false, vec![base, 1]),
                                4 => (false, vec![0, 1]),
                                5 => (false, vec![base, 0, 1]),
                                6 => (true, vec![0, 1]),
                                7 => (false, vec![u64::MAX]),
                                8 => (false, vec![(1 << 32) + base]),
                                9 => (false, vec![128]),
                                10 => (false, vec![]),
                                _ => (false, vec![base.max(1)]),
                            };
                            NMut::Index { at, neg, words }
                        }
                        _ => NMut::Size { part, at, len: *r.pick(&[0, 1, full - 1, full + 1, full * 2, 32, full / 2, 47, 49]) },
                    });
                }
            }
            1 if r.chance(1, 2) => {
                let span = *r.pick(&[3u64, 10, 130]);
                x.throw_at = Some(r.below(span));
            }
            _ => {}
        }
        for _ in 0..r.idx(3) {
            x.act.push(match r.below(6) {
                0 => Act::Pump { n: 1 + r.below(4) },
                1 => Act::Rest { ns: 1 << r.below(28) },
                2 => Act::Gc,
                3 => Act::DropResults,
                4 => Act::Touch,
                _ => Act::Pump { n: 100 },
            });
        }
        if k == drop_at {
            x.act.push(Act::DropCtx { ctx: r.below(nc) as usize });
            x.act.push(Act::Gc);
        }
        steps.push(Step::Call { op, spawn: None, alloc: None, x: serde_json::to_value(&x).unwrap() });
    }
    let mut p = Plan { scn: "node".into(), prop: "C14".into(), seed, blobs, callers: vec![Caller { pool: 0, reuse: false, steps }], ..Default::default() };
    p.extra = json!({"gc": *r.pick(&[0u64, 20, 200, 2000]), "no_external": r.chance(1, 6), "drop_all": r.chance(1, 2)});
    p.sim = crate::gen::sim_cfg(r, 2);
    let _ = mix2(0, 0);
    p
}
