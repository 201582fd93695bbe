//! The Java binding's native methods, run against a simulated JVM: a JNI function table over a small
//! object heap with per-thread frames of local references, pending exceptions, and a failure
//! injected at a chosen JNI call.
use crate::capi::{count_want, out_name, want, Want};
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix2, Rng};
use crate::rt;
use crate::scen::*;
use crate::world::*;
use java_eth_kzg as j;
use jni::objects::{JByteArray, JClass, JLongArray, JObjectArray};
use jni::sys::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::ffi::CStr;
use std::os::raw::{c_char, c_void};

#[derive(Clone, PartialEq)]
enum Obj {
    Class(String),
    Bytes(Vec<i8>),
    Longs(Vec<i64>),
    Objs(usize, Vec<usize>), // class, elements (0: null)
    Inst(usize, Vec<usize>),
    Str(Vec<u8>),
    Exc(String, String),
}
#[derive(Default)]
struct Heap {
    o: Vec<Obj>,
    copies: Vec<(usize, usize, Vec<u8>)>, // elements handed out: address, object, private copy
}
#[repr(C)]
struct Env {
    fns: *const JNINativeInterface_,
    id: usize,
    refs: Vec<usize>, // local references of the current native frame: object numbers, 0 deleted
    base: u64,
    pending: Option<usize>,
    thrown: u32,
    calls: u64,
    fail_at: u64,
    fail_kind: u32,
    failed: Option<&'static str>,
    problems: Vec<(String, String)>,
    rng: Rng,
}
static mut HEAP: Option<Heap> = None;
static mut FRAME: u64 = 0;
#[allow(static_mut_refs)]
fn heap() -> &'static mut Heap {
    unsafe { HEAP.get_or_insert_with(|| Heap { o: vec![Obj::Str(vec![])], copies: vec![] }) }
}
fn alloc(o: Obj) -> usize {
    let h = heap();
    h.o.push(o);
    h.o.len() - 1
}
fn class(name: &str) -> usize {
    let h = heap();
    for i in 1..h.o.len().min(64) {
        if h.o[i] == Obj::Class(name.into()) {
            return i;
        }
    }
    alloc(Obj::Class(name.into()))
}
const CLASSES: [&str; 17] = [
    "java/lang/Object", "java/lang/String", "[B", "[[B", "[J", "ethereum/cryptography/CellsAndProofs", "ethereum/cryptography/LibEthKZG", "java/lang/Throwable", "java/lang/Exception", "java/lang/RuntimeException",
    "java/lang/IllegalArgumentException", "java/lang/IllegalStateException", "java/lang/OutOfMemoryError", "java/lang/NoClassDefFoundError", "java/lang/ArrayIndexOutOfBoundsException", "java/lang/ArrayStoreException", "java/lang/NullPointerException",
];
fn is_exc(name: &str) -> bool {
    name.starts_with("java/lang/") && (name.ends_with("Exception") || name.ends_with("Error") || name == "java/lang/Throwable")
}
fn class_of(i: usize) -> String {
    match &heap().o[i] {
        Obj::Class(_) => "java/lang/Class".into(),
        Obj::Bytes(_) => "[B".into(),
        Obj::Longs(_) => "[J".into(),
        Obj::Objs(c, _) => match &heap().o[*c] {
            Obj::Class(n) if n.starts_with('[') => format!("[{n}"),
            Obj::Class(n) => format!("[L{n};"),
            _ => "?".into(),
        },
        Obj::Inst(c, _) => match &heap().o[*c] {
            Obj::Class(n) => n.clone(),
            _ => "?".into(),
        },
        Obj::Str(_) => "java/lang/String".into(),
        Obj::Exc(c, _) => c.clone(),
    }
}
impl Env {
    fn new(id: usize) -> Box<Env> {
        Box::new(Env { fns: table(), id, refs: vec![], base: 0, pending: None, thrown: 0, calls: 0, fail_at: u64::MAX, fail_kind: 0, failed: None, problems: vec![], rng: Rng::new(id as u64) })
    }
    fn problem(&mut self, c: &str, d: String) {
        if self.problems.len() < 8 {
            self.problems.push((c.into(), d))
        }
    }
    fn enter_native(&mut self, seed: u64, fail: Option<(u64, u32)>) {
        unsafe { FRAME += 1 };
        self.base = ((self.id as u64 + 1) << 44) | (unsafe { FRAME } & 0xffff) << 28;
        self.refs.clear();
        self.pending = None;
        self.thrown = 0;
        self.calls = 0;
        self.failed = None;
        self.problems.clear();
        (self.fail_at, self.fail_kind) = fail.unwrap_or((u64::MAX, 0));
        self.rng = Rng::new(seed);
    }
    fn local(&mut self, o: usize) -> jobject {
        if o == 0 {
            return std::ptr::null_mut();
        }
        self.refs.push(o);
        (self.base | (self.refs.len() as u64) << 4) as jobject
    }
    /// object behind a reference; 0 for null
    fn get(&mut self, r: jobject, what: &str) -> usize {
        if r.is_null() {
            return 0;
        }
        let v = r as u64;
        if v >> 60 == 1 {
            return (v >> 4 & 0xffffff) as usize; // global
        }
        let n = (v - (v & !0xfff_ffff)) as usize >> 4;
        if v & !0xfff_ffff != self.base || n == 0 || n > self.refs.len() || self.refs[n - 1] == 0 {
            self.problem("bad-reference", format!("{what} used a reference that is not valid in this call"));
            return 0;
        }
        self.refs[n - 1]
    }
    fn throw(&mut self, cls: &str, msg: &str) {
        if self.pending.is_some() {
            self.problem("second-exception", format!("{cls} raised while another exception is pending"));
        }
        self.pending = Some(alloc(Obj::Exc(cls.into(), msg.into())));
        self.thrown += 1;
    }
    /// start of a JNI function; true when the injected failure strikes here
    fn enter(&mut self, name: &'static str, safe: bool, can_fail: bool) -> bool {
        rt::preempt();
        if !safe && self.pending.is_some() {
            self.problem("jni-call-with-exception-pending", format!("{name} was called while an exception was pending"));
        }
        if !can_fail {
            return false;
        }
        let n = self.calls;
        self.calls += 1;
        if n == self.fail_at {
            self.failed = Some(name);
            if self.pending.is_none() {
                let (c, m) = match (self.fail_kind % 3, name) {
                    (0, _) | (_, "NewByteArray") | (_, "NewObjectArray") => ("java/lang/OutOfMemoryError", "Java heap space"),
                    (1, "FindClass") => ("java/lang/NoClassDefFoundError", "injected"),
                    (_, "SetObjectArrayElement") => ("java/lang/ArrayStoreException", "injected"),
                    (_, "NewObject") => ("java/lang/RuntimeException", "thrown by the constructor"),
                    _ => ("java/lang/OutOfMemoryError", "unable to allocate"),
                };
                self.throw(c, m);
            }
            return true;
        }
        false
    }
}
unsafe fn e<'a>(p: *mut JNIEnv) -> &'a mut Env {
    &mut *(p as *mut Env)
}
unsafe fn cstr(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
type P = *mut JNIEnv;
unsafe extern "system" fn get_version(p: P) -> jint {
    e(p).enter("GetVersion", false, false);
    0x00010008
}
unsafe extern "system" fn find_class(p: P, n: *const c_char) -> jclass {
    let v = e(p);
    if v.enter("FindClass", false, true) {
        return std::ptr::null_mut();
    }
    let n = cstr(n);
    if CLASSES.contains(&n.as_str()) || is_exc(&n) {
        let c = class(&n);
        v.local(c)
    } else {
        v.throw("java/lang/NoClassDefFoundError", &n);
        std::ptr::null_mut()
    }
}
unsafe extern "system" fn throw(p: P, o: jthrowable) -> jint {
    let v = e(p);
    v.enter("Throw", false, false);
    let o = v.get(o, "Throw");
    if o != 0 {
        v.pending = Some(o);
        v.thrown += 1;
    }
    0
}
unsafe extern "system" fn throw_new(p: P, c: jclass, m: *const c_char) -> jint {
    let v = e(p);
    if v.enter("ThrowNew", false, true) {
        return -1;
    }
    let c = v.get(c, "ThrowNew");
    let name = match &heap().o[c] {
        Obj::Class(n) if is_exc(n) => n.clone(),
        _ => {
            v.problem("bad-argument", "ThrowNew on something that is not a throwable class".into());
            return -1;
        }
    };
    let m = if m.is_null() { String::new() } else { cstr(m) };
    v.throw(&name, &m);
    0
}
unsafe extern "system" fn exception_occurred(p: P) -> jthrowable {
    let v = e(p);
    v.enter("ExceptionOccurred", true, false);
    let x = v.pending.unwrap_or(0);
    v.local(x)
}
unsafe extern "system" fn exception_describe(p: P) {
    e(p).enter("ExceptionDescribe", true, false);
}
unsafe extern "system" fn exception_clear(p: P) {
    e(p).enter("ExceptionClear", true, false);
    e(p).pending = None;
}
unsafe extern "system" fn exception_check(p: P) -> jboolean {
    e(p).enter("ExceptionCheck", true, false);
    e(p).pending.is_some() as jboolean
}
unsafe extern "system" fn fatal_error(_p: P, _m: *const c_char) -> ! {
    libc::abort()
}
unsafe extern "system" fn push_frame(p: P, _n: jint) -> jint {
    e(p).enter("PushLocalFrame", true, false);
    0
}
unsafe extern "system" fn pop_frame(p: P, r: jobject) -> jobject {
    e(p).enter("PopLocalFrame", true, false);
    r
}
unsafe extern "system" fn new_global(p: P, r: jobject) -> jobject {
    let v = e(p);
    v.enter("NewGlobalRef", false, false);
    let o = v.get(r, "NewGlobalRef");
    if o == 0 { std::ptr::null_mut() } else { ((1u64 << 60) | (o as u64) << 4) as jobject }
}
unsafe extern "system" fn delete_ref(p: P, r: jobject) {
    let v = e(p);
    v.enter("DeleteLocalRef", true, false);
    if r.is_null() || (r as u64) >> 60 == 1 {
        return;
    }
    if v.get(r, "DeleteLocalRef") != 0 {
        let n = (r as u64 & 0xfff_ffff) as usize >> 4;
        v.refs[n - 1] = 0;
    }
}
unsafe extern "system" fn delete_global(p: P, _r: jobject) {
    e(p).enter("DeleteGlobalRef", true, false);
}
unsafe extern "system" fn is_same(p: P, a: jobject, b: jobject) -> jboolean {
    let v = e(p);
    v.enter("IsSameObject", false, false);
    (v.get(a, "IsSameObject") == v.get(b, "IsSameObject")) as jboolean
}
unsafe extern "system" fn new_local(p: P, r: jobject) -> jobject {
    let v = e(p);
    v.enter("NewLocalRef", false, false);
    let o = v.get(r, "NewLocalRef");
    v.local(o)
}
unsafe extern "system" fn ensure_capacity(p: P, _n: jint) -> jint {
    e(p).enter("EnsureLocalCapacity", false, false);
    0
}
unsafe extern "system" fn get_object_class(p: P, r: jobject) -> jclass {
    let v = e(p);
    v.enter("GetObjectClass", false, false);
    let o = v.get(r, "GetObjectClass");
    if o == 0 {
        v.problem("bad-argument", "GetObjectClass(null)".into());
        return std::ptr::null_mut();
    }
    let c = class(&class_of(o));
    v.local(c)
}
unsafe extern "system" fn is_instance(p: P, r: jobject, c: jclass) -> jboolean {
    let v = e(p);
    v.enter("IsInstanceOf", false, false);
    let (o, c) = (v.get(r, "IsInstanceOf"), v.get(c, "IsInstanceOf"));
    if o == 0 {
        return 1;
    }
    let n = class_of(o);
    match &heap().o[c] {
        Obj::Class(x) => (*x == n || x == "java/lang/Object" || (is_exc(&n) && is_exc(x) && (x == "java/lang/Throwable"))) as jboolean,
        _ => 0,
    }
}
unsafe extern "system" fn get_method_id(p: P, c: jclass, n: *const c_char, s: *const c_char) -> jmethodID {
    let v = e(p);
    if v.enter("GetMethodID", false, true) {
        return std::ptr::null_mut();
    }
    let c = v.get(c, "GetMethodID");
    let (n, s) = (cstr(n), cstr(s));
    let cn = match &heap().o[c] {
        Obj::Class(x) => x.clone(),
        _ => String::new(),
    };
    if cn == "ethereum/cryptography/CellsAndProofs" && n == "<init>" && s == "([[B[[B)V" {
        return 0x1230 as jmethodID;
    }
    v.throw("java/lang/NoSuchMethodError", &format!("{cn}.{n}{s}"));
    std::ptr::null_mut()
}
unsafe extern "system" fn new_object_a(p: P, c: jclass, m: jmethodID, a: *const jvalue) -> jobject {
    let v = e(p);
    if v.enter("NewObject", false, true) {
        return std::ptr::null_mut();
    }
    let c = v.get(c, "NewObject");
    if m as usize != 0x1230 {
        v.problem("bad-argument", "NewObject with an unknown method".into());
        return std::ptr::null_mut();
    }
    let (x, y) = ((*a).l, (*a.add(1)).l);
    let (x, y) = (v.get(x, "NewObject"), v.get(y, "NewObject"));
    let o = alloc(Obj::Inst(c, vec![x, y]));
    v.local(o)
}
unsafe extern "system" fn new_string_utf(p: P, s: *const c_char) -> jstring {
    let v = e(p);
    if v.enter("NewStringUTF", false, true) {
        return std::ptr::null_mut();
    }
    let o = alloc(Obj::Str(CStr::from_ptr(s).to_bytes().to_vec()));
    v.local(o)
}
unsafe extern "system" fn get_array_length(p: P, a: jarray) -> jsize {
    let v = e(p);
    v.enter("GetArrayLength", false, false);
    let o = v.get(a, "GetArrayLength");
    match &heap().o[o] {
        Obj::Bytes(b) => b.len() as jsize,
        Obj::Longs(b) => b.len() as jsize,
        Obj::Objs(_, b) => b.len() as jsize,
        _ => {
            v.problem("bad-argument", "GetArrayLength on something that is not an array".into());
            0
        }
    }
}
unsafe extern "system" fn new_object_array(p: P, n: jsize, c: jclass, init: jobject) -> jobjectArray {
    let v = e(p);
    if v.enter("NewObjectArray", false, true) {
        return std::ptr::null_mut();
    }
    let c = v.get(c, "NewObjectArray");
    if n < 0 || c == 0 {
        v.throw("java/lang/NegativeArraySizeException", "");
        return std::ptr::null_mut();
    }
    let i = v.get(init, "NewObjectArray");
    let o = alloc(Obj::Objs(c, vec![i; n as usize]));
    v.local(o)
}
unsafe extern "system" fn get_element(p: P, a: jobjectArray, i: jsize) -> jobject {
    let v = e(p);
    v.enter("GetObjectArrayElement", false, false);
    let o = v.get(a, "GetObjectArrayElement");
    match &heap().o[o] {
        Obj::Objs(_, b) => match b.get(i as usize) {
            Some(&x) if i >= 0 => v.local(x),
            _ => {
                v.throw("java/lang/ArrayIndexOutOfBoundsException", "GetObjectArrayElement");
                std::ptr::null_mut()
            }
        },
        _ => {
            v.problem("bad-argument", "GetObjectArrayElement on something that is not an object array".into());
            std::ptr::null_mut()
        }
    }
}
unsafe extern "system" fn set_element(p: P, a: jobjectArray, i: jsize, x: jobject) {
    let v = e(p);
    if v.enter("SetObjectArrayElement", false, true) {
        return;
    }
    let o = v.get(a, "SetObjectArrayElement");
    let x = v.get(x, "SetObjectArrayElement");
    let want = match &heap().o[o] {
        Obj::Objs(c, _) => match &heap().o[*c] {
            Obj::Class(n) => n.clone(),
            _ => String::new(),
        },
        _ => {
            v.problem("bad-argument", "SetObjectArrayElement on something that is not an object array".into());
            return;
        }
    };
    if x != 0 && want != "java/lang/Object" && class_of(x) != want {
        v.throw("java/lang/ArrayStoreException", &class_of(x));
        return;
    }
    if let Obj::Objs(_, b) = &mut heap().o[o] {
        if i >= 0 && (i as usize) < b.len() {
            b[i as usize] = x;
        } else {
            v.throw("java/lang/ArrayIndexOutOfBoundsException", "SetObjectArrayElement");
        }
    }
}
unsafe extern "system" fn new_byte_array(p: P, n: jsize) -> jbyteArray {
    let v = e(p);
    if v.enter("NewByteArray", false, true) {
        return std::ptr::null_mut();
    }
    if n < 0 {
        v.throw("java/lang/NegativeArraySizeException", "");
        return std::ptr::null_mut();
    }
    let o = alloc(Obj::Bytes(vec![0; n as usize]));
    v.local(o)
}
unsafe extern "system" fn new_long_array(p: P, n: jsize) -> jlongArray {
    let v = e(p);
    if v.enter("NewLongArray", false, true) || n < 0 {
        return std::ptr::null_mut();
    }
    let o = alloc(Obj::Longs(vec![0; n as usize]));
    v.local(o)
}
macro_rules! arr {
    ($get:ident, $set:ident, $elems:ident, $release:ident, $var:ident, $t:ty, $n:expr) => {
        unsafe extern "system" fn $get(p: P, a: jarray, s: jsize, n: jsize, buf: *mut $t) {
            let v = e(p);
            v.enter(concat!("Get", $n, "ArrayRegion"), false, false);
            let o = v.get(a, concat!("Get", $n, "ArrayRegion"));
            match &heap().o[o] {
                Obj::$var(b) if s >= 0 && n >= 0 && (s as usize + n as usize) <= b.len() => std::ptr::copy_nonoverlapping(b[s as usize..].as_ptr(), buf, n as usize),
                Obj::$var(_) => v.throw("java/lang/ArrayIndexOutOfBoundsException", "region"),
                _ => v.problem("bad-argument", concat!("Get", $n, "ArrayRegion on something else").into()),
            }
        }
        unsafe extern "system" fn $set(p: P, a: jarray, s: jsize, n: jsize, buf: *const $t) {
            let v = e(p);
            v.enter(concat!("Set", $n, "ArrayRegion"), false, false);
            let o = v.get(a, concat!("Set", $n, "ArrayRegion"));
            match &mut heap().o[o] {
                Obj::$var(b) if s >= 0 && n >= 0 && (s as usize + n as usize) <= b.len() => std::ptr::copy_nonoverlapping(buf, b[s as usize..].as_mut_ptr(), n as usize),
                Obj::$var(_) => v.throw("java/lang/ArrayIndexOutOfBoundsException", "region"),
                _ => v.problem("bad-argument", concat!("Set", $n, "ArrayRegion on something else").into()),
            }
        }
        unsafe extern "system" fn $elems(p: P, a: jarray, copy: *mut jboolean) -> *mut $t {
            let v = e(p);
            if v.enter(concat!("Get", $n, "ArrayElements"), false, true) {
                return std::ptr::null_mut();
            }
            let o = v.get(a, concat!("Get", $n, "ArrayElements"));
            let copying = v.rng.chance(2, 3);
            if !copy.is_null() {
                *copy = copying as jboolean;
            }
            match &mut heap().o[o] {
                Obj::$var(b) => {
                    if copying {
                        let mut c = vec![0u8; b.len() * std::mem::size_of::<$t>() + 8];
                        std::ptr::copy_nonoverlapping(b.as_ptr() as *const u8, c.as_mut_ptr(), b.len() * std::mem::size_of::<$t>());
                        let q = c.as_mut_ptr() as *mut $t;
                        heap().copies.push((q as usize, o, c));
                        q
                    } else {
                        let q = b.as_mut_ptr();
                        heap().copies.push((q as usize, o, vec![]));
                        q
                    }
                }
                _ => {
                    v.problem("bad-argument", concat!("Get", $n, "ArrayElements on something else").into());
                    std::ptr::null_mut()
                }
            }
        }
        unsafe extern "system" fn $release(p: P, a: jarray, q: *mut $t, mode: jint) {
            let v = e(p);
            v.enter(concat!("Release", $n, "ArrayElements"), true, false);
            let o = v.get(a, concat!("Release", $n, "ArrayElements"));
            let h = heap();
            let Some(i) = h.copies.iter().position(|c| c.0 == q as usize && c.1 == o) else {
                v.problem("bad-argument", "elements released that were not handed out".into());
                return;
            };
            if !h.copies[i].2.is_empty() && mode != 2 {
                if let Obj::$var(b) = &mut h.o[o] {
                    std::ptr::copy_nonoverlapping(h.copies[i].2.as_ptr(), b.as_mut_ptr() as *mut u8, b.len() * std::mem::size_of::<$t>());
                }
            }
            if mode != 1 {
                h.copies.swap_remove(i);
            }
        }
    };
}
arr!(get_bytes, set_bytes, byte_elems, byte_release, Bytes, jbyte, "Byte");
arr!(get_longs, set_longs, long_elems, long_release, Longs, jlong, "Long");
unsafe extern "system" fn critical(p: P, a: jarray, copy: *mut jboolean) -> *mut c_void {
    let o = e(p).get(a, "GetPrimitiveArrayCritical");
    match &heap().o[o] {
        Obj::Longs(_) => long_elems(p, a, copy) as *mut c_void,
        _ => byte_elems(p, a, copy) as *mut c_void,
    }
}
unsafe extern "system" fn critical_release(p: P, a: jarray, q: *mut c_void, mode: jint) {
    let o = e(p).get(a, "ReleasePrimitiveArrayCritical");
    match &heap().o[o] {
        Obj::Longs(_) => long_release(p, a, q as *mut jlong, mode),
        _ => byte_release(p, a, q as *mut jbyte, mode),
    }
}
fn table() -> *const JNINativeInterface_ {
    static mut T: *const JNINativeInterface_ = std::ptr::null();
    unsafe {
        if T.is_null() {
            let mut t: Box<JNINativeInterface_> = Box::new(std::mem::zeroed());
            t.GetVersion = Some(get_version);
            t.FindClass = Some(find_class);
            t.Throw = Some(throw);
            t.ThrowNew = Some(throw_new);
            t.ExceptionOccurred = Some(exception_occurred);
            t.ExceptionDescribe = Some(exception_describe);
            t.ExceptionClear = Some(exception_clear);
            t.ExceptionCheck = Some(exception_check);
            t.FatalError = Some(fatal_error);
            t.PushLocalFrame = Some(push_frame);
            t.PopLocalFrame = Some(pop_frame);
            t.NewGlobalRef = Some(new_global);
            t.DeleteGlobalRef = Some(delete_global);
            t.DeleteLocalRef = Some(delete_ref);
            t.IsSameObject = Some(is_same);
            t.NewLocalRef = Some(new_local);
            t.EnsureLocalCapacity = Some(ensure_capacity);
            t.GetObjectClass = Some(get_object_class);
            t.IsInstanceOf = Some(is_instance);
            t.GetMethodID = Some(get_method_id);
            t.NewObjectA = Some(new_object_a);
            t.NewStringUTF = Some(new_string_utf);
            t.GetArrayLength = Some(get_array_length);
            t.NewObjectArray = Some(new_object_array);
            t.GetObjectArrayElement = Some(get_element);
            t.SetObjectArrayElement = Some(set_element);
            t.NewByteArray = Some(new_byte_array);
            t.NewLongArray = Some(new_long_array);
            t.GetByteArrayElements = Some(byte_elems);
            t.ReleaseByteArrayElements = Some(byte_release);
            t.GetLongArrayElements = Some(long_elems);
            t.ReleaseLongArrayElements = Some(long_release);
            t.GetByteArrayRegion = Some(get_bytes);
            t.SetByteArrayRegion = Some(set_bytes);
            t.GetLongArrayRegion = Some(get_longs);
            t.SetLongArrayRegion = Some(set_longs);
            t.GetPrimitiveArrayCritical = Some(critical);
            t.ReleasePrimitiveArrayCritical = Some(critical_release);
            T = Box::into_raw(t);
        }
        T
    }
}

// ---------- native calls
/// part: 0 commitments, 1 indices, 2 cells, 3 proofs, 4 the blob
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "j")]
pub enum JMut {
    Size { part: u8, at: usize, len: usize },
    Null { part: u8, at: usize },
    NullOuter { part: u8 },
    Index { at: usize, v: i64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct JExtra {
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub jm: Vec<JMut>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub fail: Option<(u64, u32)>,
}
static mut CTXS: Vec<jlong> = Vec::new();
#[allow(static_mut_refs)]
fn ctxs() -> &'static mut Vec<jlong> {
    unsafe { &mut CTXS }
}
unsafe fn jenv<'a>(v: &mut Env) -> jni::JNIEnv<'a> {
    jni::JNIEnv::from_raw(v as *mut Env as *mut JNIEnv).unwrap()
}
fn jclass<'a>(v: &mut Env) -> JClass<'a> {
    let c = class("ethereum/cryptography/LibEthKZG");
    let l = v.local(c);
    unsafe { JClass::from_raw(l) }
}
fn new_ctx(v: &mut Env, s: &CtxSpec) -> jlong {
    v.enter_native(1, None);
    unsafe {
        let c = jclass(v);
        j::Java_ethereum_cryptography_LibEthKZG_DASContextNew(jenv(v), c, (s.width > 0) as jboolean, s.threads.max(0))
    }
}
fn destroy(v: &mut Env, p: jlong) {
    v.enter_native(1, None);
    unsafe {
        let c = jclass(v);
        j::Java_ethereum_cryptography_LibEthKZG_DASContextDestroy(jenv(v), c, p)
    }
}
pub fn build() {
    let w = world();
    let specs = w.tpl.ctxs.clone();
    for c in CLASSES {
        class(c);
    }
    rt::configure(&cfg_for(&w.tpl, 1, 1), &[], false);
    w.ctxs.push(Some(std::sync::Arc::new(make_ctx(&w.ts, &CtxSpec { threads: -1, width: 0, ncpu: 1 }))));
    w.trust = true;
    crate::capi::reference_arts(5);
    let mut v = Env::new(0);
    for (i, s) in specs.iter().enumerate() {
        rt::configure(&cfg_for(&world().tpl, 2 + i as u64, s.ncpu), &[], false);
        let p = new_ctx(&mut v, s);
        ctxs().push(p);
        rt::quiesce(100000);
    }
}
fn jbytes(b: &[u8]) -> usize {
    alloc(Obj::Bytes(b.iter().map(|x| *x as i8).collect()))
}
struct JArgs {
    o: [usize; 5], // heap objects, 0 null
    bad: bool,     // some size is wrong or something is null: an exception is due
    idx: Option<Vec<u64>>,
}
fn jargs(raw: &Raw, jm: &[JMut]) -> JArgs {
    let mut a = JArgs { o: [0; 5], bad: false, idx: None };
    let outer = |v: Vec<usize>| alloc(Obj::Objs(class("[B"), v));
    let mut parts: [Option<Vec<Option<Vec<u8>>>>; 5] = Default::default();
    let mut idx: Option<Vec<i64>> = None;
    match raw {
        Raw::Commit(b) | Raw::Compute(b) => parts[4] = Some(vec![Some(b.to_vec())]),
        Raw::Recover(i, c) => {
            idx = Some(i.iter().map(|x| *x as i64).collect());
            parts[2] = Some(c.iter().map(|x| Some(x.to_vec())).collect());
        }
        Raw::Verify(c, i, e, p) => {
            idx = Some(i.iter().map(|x| *x as i64).collect());
            parts[0] = Some(c.iter().map(|x| Some(x.to_vec())).collect());
            parts[2] = Some(e.iter().map(|x| Some(x.to_vec())).collect());
            parts[3] = Some(p.iter().map(|x| Some(x.to_vec())).collect());
        }
    }
    for m in jm {
        match m {
            JMut::Size { part, at, len } => {
                if let Some(v) = &mut parts[*part as usize % 5] {
                    if !v.is_empty() {
                        let n = v.len();
                        if let Some(b) = &mut v[at % n] {
                            if b.len() != *len {
                                b.resize(*len, 7);
                                a.bad = true;
                            }
                        }
                    }
                }
            }
            JMut::Null { part, at } => {
                if let Some(v) = &mut parts[*part as usize % 5] {
                    if !v.is_empty() {
                        let n = v.len();
                        v[at % n] = None;
                        a.bad = true;
                    }
                }
            }
            JMut::NullOuter { part } => {
                if *part % 5 == 1 {
                    if idx.take().is_some() {
                        a.bad = true
                    }
                } else if parts[*part as usize % 5].take().is_some() {
                    a.bad = true
                }
            }
            JMut::Index { at, v } => {
                if let Some(i) = &mut idx {
                    if !i.is_empty() {
                        let n = i.len();
                        i[at % n] = *v;
                        a.bad |= *v < 0 || *v >= 128;
                    }
                }
            }
        }
    }
    for (k, p) in parts.into_iter().enumerate() {
        let Some(v) = p else { continue };
        if k == 4 {
            a.o[4] = v[0].as_ref().map_or(0, |b| jbytes(b));
        } else {
            let e = v.iter().map(|x| x.as_ref().map_or(0, |b| jbytes(b))).collect();
            a.o[k] = outer(e);
        }
    }
    if let Some(i) = idx {
        a.idx = Some(i.iter().map(|x| *x as u64).collect());
        a.o[1] = alloc(Obj::Longs(i));
    }
    a
}
fn snapshot(a: &JArgs) -> Vec<Obj> {
    let mut v = vec![];
    for &o in &a.o {
        if o != 0 {
            v.push(heap().o[o].clone());
            if let Obj::Objs(_, e) = &heap().o[o] {
                for &x in e {
                    v.push(heap().o[x].clone());
                }
            }
        }
    }
    v
}
fn bytes_of(o: usize) -> Option<Vec<u8>> {
    match &heap().o[o] {
        Obj::Bytes(b) => Some(b.iter().map(|x| *x as u8).collect()),
        _ => None,
    }
}
/// (outcome, JNI calls that could fail, problems)
fn native(v: &mut Env, ctx: jlong, raw: &Raw, a: &JArgs, seed: u64, fail: Option<(u64, u32)>) -> (Option<Out>, Vec<(String, String)>) {
    v.enter_native(seed, fail);
    let before = snapshot(a);
    let copies = heap().copies.len();
    let c = jclass(v);
    let l: Vec<jobject> = a.o.iter().map(|o| v.local(*o)).collect();
    unsafe {
        let env = jenv(v);
        let (mut obj, mut flag) = (std::ptr::null_mut(), None);
        match raw {
            Raw::Commit(_) => obj = j::Java_ethereum_cryptography_LibEthKZG_blobToKZGCommitment(env, c, ctx, JByteArray::from_raw(l[4])).into_raw(),
            Raw::Compute(_) => obj = j::Java_ethereum_cryptography_LibEthKZG_computeCellsAndKZGProofs(env, c, ctx, JByteArray::from_raw(l[4])).into_raw(),
            Raw::Recover(..) => obj = j::Java_ethereum_cryptography_LibEthKZG_recoverCellsAndKZGProofs(env, c, ctx, JLongArray::from_raw(l[1]), JObjectArray::from_raw(l[2])).into_raw(),
            Raw::Verify(..) => {
                flag = Some(j::Java_ethereum_cryptography_LibEthKZG_verifyCellKZGProofBatch(env, c, ctx, JObjectArray::from_raw(l[0]), JLongArray::from_raw(l[1]), JObjectArray::from_raw(l[2]), JObjectArray::from_raw(l[3])))
            }
        }
        let mut out = None;
        match v.pending {
            Some(x) => {
                if !obj.is_null() || flag.unwrap_or(0) != 0 {
                    v.problem("result-and-exception", "a native method returned a result with an exception pending".into());
                }
                if v.thrown > 1 {
                    v.problem("second-exception", "more than one exception was raised".into());
                }
                let m = match &heap().o[x] {
                    Obj::Exc(c, m) => format!("{c}: {}", &m[..m.len().min(120)]),
                    _ => "?".into(),
                };
                out = Some(match raw {
                    Raw::Commit(_) => Out::Commit(Err(m)),
                    Raw::Verify(..) => Out::Verify(Verdict::InputError, m),
                    _ => Out::Arts(Err(m)),
                });
            }
            None => match raw {
                Raw::Verify(..) => match flag.unwrap() {
                    0 => out = Some(Out::Verify(Verdict::InvalidProof, String::new())),
                    1 => out = Some(Out::Verify(Verdict::Accept, String::new())),
                    x => v.problem("bad-bool", format!("jboolean {x}")),
                },
                Raw::Commit(_) => {
                    let o = v.get(obj, "return");
                    match bytes_of(o) {
                        Some(b) if b.len() == 48 => out = Some(Out::Commit(Ok(b.try_into().unwrap()))),
                        _ => v.problem("half-built", "no exception, and not an array of 48 bytes".into()),
                    }
                }
                _ => {
                    let o = v.get(obj, "return");
                    let mut got: Option<(Vec<BCell>, Vec<B48>)> = None;
                    if let Obj::Inst(c, f) = &heap().o[o] {
                        if heap().o[*c] == Obj::Class("ethereum/cryptography/CellsAndProofs".into()) {
                            let list = |o: usize| -> Option<Vec<Vec<u8>>> {
                                match &heap().o[o] {
                                    Obj::Objs(_, e) => e.iter().map(|x| bytes_of(*x)).collect(),
                                    _ => None,
                                }
                            };
                            if let (Some(c), Some(p)) = (list(f[0]), list(f[1])) {
                                if c.iter().all(|x| x.len() == CELL_BYTES) && p.iter().all(|x| x.len() == 48) && c.len() == CELLS && p.len() == CELLS {
                                    got = Some((c.into_iter().map(|x| x.into_boxed_slice().try_into().unwrap()).collect(), p.into_iter().map(|x| x.try_into().unwrap()).collect()));
                                }
                            }
                        }
                    }
                    match got {
                        Some(g) => out = Some(Out::Arts(Ok(g))),
                        None => v.problem("half-built", "no exception, and not a complete CellsAndProofs".into()),
                    }
                }
            },
        }
        if snapshot(a) != before {
            v.problem("arguments-modified", "the caller's arrays were modified".into());
        }
        if heap().copies.len() != copies {
            v.problem("elements-not-released", "array elements obtained from the JVM were not released".into());
        }
        (out, std::mem::take(&mut v.problems))
    }
}
struct Job {
    steps: Vec<(Op, JExtra, Want, JArgs, bool, bool)>,
    destroy: bool,
}
fn caller(ci: usize, j: Job, seed: u64) {
    let mut v = Env::new(ci + 1);
    for (si, (op, x, w, a, bad, changed)) in j.steps.into_iter().enumerate() {
        if rep().viol.is_some() {
            break;
        }
        let n = ctxs().len();
        let ctx = ctxs()[op.ctx() % n];
        let (out, problems) = native(&mut v, ctx, &w.raw, &a, mix2(seed, (ci * 1000 + si) as u64), x.fail);
        let injected = v.failed.is_some();
        let at = json!([ci, si]);
        let mut r = rep();
        count_want(&mut r, &op, &w);
        r.add("jni.fallible-calls", v.calls);
        if let Some(n) = v.failed {
            r.add(&format!("fault.jvm.{n}"), 1);
        }
        for m in &x.jm {
            r.add(match m { JMut::Size { .. } => "fault.array-size", JMut::Null { .. } => "fault.null-element", JMut::NullOuter { .. } => "fault.null-array", JMut::Index { .. } => "fault.java-index" }, 1);
        }
        if let Some(o) = &out {
            r.ev(&out_hash(o).to_le_bytes());
        }
        r.ev(&v.calls.to_le_bytes());
        let f = v.failed.map(|n| format!(" (with {n} failing in the JVM)")).unwrap_or_default();
        if let Some((c, d)) = problems.into_iter().next() {
            r.fail(viol(&["C12"], &c, format!("{}{f}: {d}", op.name())), at.clone());
        }
        let Some(o) = out else { continue };
        let exc = matches!(&o, Out::Commit(Err(_)) | Out::Arts(Err(_)) | Out::Verify(Verdict::InputError, _));
        if exc && injected {
            r.add("failed-visibly", 1);
            continue;
        }
        if bad {
            if !exc {
                r.fail(viol(&["C12"], "bad-arguments-accepted", format!("{}: arguments of the wrong shape gave {}", op.name(), out_name(&o))), at);
            }
        } else if changed {
            // indices replaced by valid ones: only the verdict of the library counts, nothing to compare with here
        } else if out_hash(&o) != out_hash(&w.out) {
            drop(r);
            let n = world().ctxs.len();
            let _ = n;
            let mut r = rep();
            r.fail(viol(&["C12"], "differs-from-rust", format!("{}{f} through Java: {}; through Rust: {}", op.name(), out_name(&o), out_name(&w.out))), at);
        }
    }
    if j.destroy {
        let n = ctxs().len();
        for k in 0..n {
            let p = ctxs()[k];
            destroy(&mut v, p);
        }
        rep().add("ctx.dropped", n as u64);
    }
}
pub fn run(plan: &Plan) {
    let mut t = Tables::new(&plan.blobs);
    let mut jobs = vec![];
    let nc = plan.callers.len();
    for c in &plan.callers {
        let mut steps = vec![];
        for s in &c.steps {
            if let Step::Call { op, x, .. } = s {
                let x: JExtra = serde_json::from_value(x.clone()).unwrap_or_default();
                let mut w = want(&mut t, op);
                let a = jargs(&w.raw, &x.jm);
                // a replaced index changes what the library must answer
                let mut changed = false;
                if let (Some(i), false) = (&a.idx, a.bad) {
                    match &mut w.raw {
                        Raw::Recover(k, _) | Raw::Verify(_, k, _, _) if k != i => {
                            *k = i.clone();
                            changed = true
                        }
                        _ => {}
                    }
                    if changed {
                        let c = world().ctxs[0].clone().unwrap();
                        w.out = crate::ops::run(&c, &w.raw);
                        changed = false;
                    }
                }
                let bad = a.bad;
                steps.push((op.clone(), x, w, a, bad, changed));
            }
        }
        jobs.push(Job { steps, destroy: nc == 1 && plan.extra["destroy"].as_bool().unwrap_or(false) });
    }
    if nc == 1 {
        caller(0, jobs.pop().unwrap(), plan.seed)
    } else {
        let seed = plan.seed;
        let hs: Vec<_> = jobs.into_iter().enumerate().map(|(ci, j)| std::thread::Builder::new().stack_size(8 << 20).spawn(move || caller(ci, j, seed)).unwrap()).collect();
        for h in hs {
            if h.join().is_err() {
                rep().fail(viol(&["C12"], "caller-died", "a caller panicked outside a call".into()), Value::Null);
            }
        }
    }
}
pub fn plan(r: &mut Rng, seed: u64, tier: &str) -> Plan {
    let w = world();
    let nc = ctxs().len().max(1) as u64;
    let nb = 1 + r.idx(3);
    let blobs: Vec<BlobSpec> = (0..nb)
        .map(|_| {
            let a = r.pick(&w.arts);
            BlobSpec { k: a.0, s: a.1 }
        })
        .collect();
    let n = if r.chance(1, 3) { 2 + r.idx(2) } else { 1 };
    let mut hv = 0;
    let m = if n == 1 { if tier == "thorough" { 10 } else { 7 } } else { 3 };
    let callers = (0..n)
        .map(|_| {
            let mut steps = vec![];
            for _ in 0..m {
                let mut op = crate::gen::any_op(r, nb, if hv < 4 { 45 } else { 0 }, 35);
                crate::gen::set_ctx(&mut op, r.below(nc) as usize);
                let heavy = matches!(op, Op::Compute { .. } | Op::Recover { .. });
                hv += heavy as i32;
                let mut x = JExtra::default();
                match r.below(3) {
                    0 => {
                        for _ in 0..1 + r.idx(2) {
                            let part = match &op {
                                Op::Commit { .. } | Op::Compute { .. } => 4,
                                Op::Recover { .. } => *r.pick(&[1u8, 2, 2]),
                                Op::Verify { .. } => *r.pick(&[0u8, 1, 2, 3]),
                            };
                            let full = [48usize, 0, 2048, 48, 131072][part as usize];
                            let at = if r.chance(1, 3) { 0 } else { r.idx(300) };
                            x.jm.push(match r.below(if part == 1 { 4 } else { 8 }) {
                                0 | 1 | 2 if part == 1 => JMut::Index { at, v: *r.pick(&[-1i64, i64::MIN, i64::MAX, 128, 129, 127, 0, 1 << 32, (1 << 32) + 3, -128, 256, 1 << 40]) },
                                0 => JMut::NullOuter { part },
                                1 => JMut::Null { part, at },
                                _ => JMut::Size { part, at, len: *r.pick(&[0, 1, full - 1, full + 1, full * 2, 32, full / 2, 47, 49]) },
                            });
                        }
                    }
                    1 => {
                        // where the failure strikes: early calls, the array-building loops, the last steps
                        let span = match op {
                            Op::Commit { .. } => 3,
                            Op::Verify { .. } => 4,
                            _ => *r.pick(&[6u64, 40, 300, 530]),
                        };
                        let at = if heavy && r.chance(1, 4) { 510 + r.below(16) } else { r.below(span) };
                        x.fail = Some((at, r.below(3) as u32));
                    }
                    _ => {}
                }
                let xv = serde_json::to_value(&x).unwrap();
                steps.push(Step::Call { op: op.clone(), spawn: None, alloc: None, x: xv });
                if x.fail.is_some() && r.chance(1, 3) {
                    // Java catches it and tries again
                    steps.push(call(if heavy { Op::Commit { ctx: op.ctx(), b: 0, m: vec![] } } else { op }));
                }
            }
            Caller { pool: 0, reuse: false, steps }
        })
        .collect();
    let mut p = Plan { scn: "java".into(), prop: "C12".into(), seed, blobs, callers, ..Default::default() };
    if r.chance(1, 8) {
        p.extra = json!({"destroy": true});
    }
    p.sim = crate::gen::sim_cfg(r, n as u32);
    p
}
