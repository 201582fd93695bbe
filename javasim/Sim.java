import java.io.*;
import java.lang.management.*;
import java.lang.reflect.*;
import java.net.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;

/**
 * Deterministic simulation of the Java half of the Java binding (LibEthKZG.java, CellsAndProofs.java) over a
 * stand-in native library. One thread runs at a time; a seeded scheduler decides who goes on at every step,
 * native call and library load. One line of input is one run: seed '/' picks '/' threads, where threads are
 * separated by '|', their operations by ',' and an operation's fields by ':'.
 */
public class Sim {
    static final long BASE = 0x7f3200000010L;
    // ---- state of the run
    static long rnd; static int npick; static int[] forced; static List<Integer> picks; static long hash;
    static List<String> trace; static Map<String, Integer> cnt; static String violClass, violDetail;
    static List<T> threads; static Semaphore sched; static T running;
    static Slot[] slots; static Map<Long, Ctx> ctxs; static long nextCtx; static int loads; static boolean fsGone;
    static URLClassLoader loader; static Class<?> lib, cap; static File tmp; static String classes;
    static final ThreadMXBean mx = ManagementFactory.getThreadMXBean();

    static class Ctx { boolean freed; boolean precomp; long n; int inside; }
    static class Slot { Object obj; long id; boolean closed, closing; int inflight; }
    static class Call { int kind; long ctx; long args; String out; boolean seen; Object result; boolean verdict; Throwable thrown; int natives; }
    static class T extends Thread {
        int no; String[] ops; volatile boolean parked, over; final Semaphore go = new Semaphore(0); Call cur; int at;
        long newId; int newCalls; boolean newPre; long newN; boolean inNew, sawGone;
        public void run() {
            try {
                park();
                for (at = 0; at < ops.length; at++) { point(); step(this, ops[at]); }
            } catch (Stop e) {
            } catch (Throwable e) {
                fail("harness", "operation " + at + " of thread " + no + ": " + e + " " + Arrays.toString(e.getStackTrace()));
            }
            over = true;
        }
        void park() { parked = true; go.acquireUninterruptibly(); if (stop) throw new Stop(); }
    }
    static class Stop extends Error { }
    static volatile boolean stop;

    static void inc(String k) { cnt.merge(k, 1, Integer::sum); }
    static void ev(String s) {
        for (int i = 0; i < s.length(); i++) hash = (hash ^ s.charAt(i)) * 0x100000001b3L;
        hash = (hash ^ 10) * 0x100000001b3L;
        if (trace.size() < 300) trace.add(s);
    }
    static synchronized void fail(String c, String d) { if (violClass == null) { violClass = c; violDetail = d; } }
    static int pick(int n) {
        int v;
        if (forced.length > 0) v = npick < forced.length ? forced[npick] % n : 0;
        else {
            rnd += 0x9e3779b97f4a7c15L;
            long z = rnd; z = (z ^ z >>> 30) * 0xbf58476d1ce4e5b9L; z = (z ^ z >>> 27) * 0x94d049bb133111ebL; z ^= z >>> 31;
            v = (int) Long.remainderUnsigned(z, n);
        }
        npick++; picks.add(v);
        return v;
    }
    /** the running thread stops here until the scheduler lets it go on */
    static void point() { ((T) Thread.currentThread()).park(); }

    // ---- scheduler: grants one thread at a time once every other one is parked, blocked or over
    static boolean held(T t) {
        Thread.State s = t.getState();
        if (s != Thread.State.BLOCKED && s != Thread.State.WAITING) return false;
        if (t.parked) return false;
        ThreadInfo i = mx.getThreadInfo(t.getId());
        if (i == null) return false;
        long o = i.getLockOwnerId();
        for (T x : threads) if (x.getId() == o && x != t) return x.parked || held2(x);
        return false;
    }
    static boolean held2(T x) { Thread.State s = x.getState(); return s == Thread.State.BLOCKED; }
    static void quiesce() {
        long t0 = System.nanoTime();
        for (int spin = 0; ; spin++) {
            boolean ok = true;
            for (T t : threads) if (!t.over && !t.parked && !held(t)) ok = false;
            if (ok) return;
            if (spin < 2000) Thread.onSpinWait(); else try { Thread.sleep(0, 50000); } catch (InterruptedException e) { }
            if (System.nanoTime() - t0 > 20_000_000_000L) { fail("harness", "no thread reaches a point"); stop = true; return; }
        }
    }
    static void drive() {
        for (int steps = 0; ; steps++) {
            quiesce();
            if (violClass != null) break;
            List<T> c = new ArrayList<>(); boolean left = false;
            for (T t : threads) { if (!t.over) left = true; if (!t.over && t.parked) c.add(t); }
            if (!left) break;
            if (c.isEmpty()) { fail("deadlock", "every thread waits for another one"); break; }
            if (steps > 5000) { fail("steplimit", "the run does not end"); break; }
            T t = c.get(pick(c.size()));
            if (t != running) { inc("switches"); ev("run " + t.no); running = t; }
            t.parked = false;
            t.go.release();
        }
        stop = true;
        for (T t : threads) t.go.release(100000);
        for (T t : threads) try { t.join(2000); } catch (InterruptedException e) { }
    }

    // ---- the native library
    static T me() { return (T) Thread.currentThread(); }
    public static void onLoad() {
        loads++; ev("load"); inc("loads");
        if (loads > 1) fail("loaded-twice", "the native library is loaded " + loads + " times");
        point();
    }
    public static long nNew(boolean p, long n) {
        T t = me();
        point();
        long id = BASE + (nextCtx++ << 4);
        ev("native new " + id + " " + p + " " + n);
        Ctx c = new Ctx(); c.precomp = p; c.n = n; ctxs.put(id, c);
        t.newId = id; t.newCalls++; t.newPre = p; t.newN = n;
        if (!t.inNew) fail("stray-native-call", "a context is created outside a constructor");
        point();
        return id;
    }
    static Ctx use(long id, String what) {
        Ctx c = ctxs.get(id);
        if (c == null) fail("bad-context", what + " is given the context " + Long.toHexString(id));
        else if (c.freed) fail("use-after-free", what + " is given a context that has been freed");
        return c;
    }
    public static void nDestroy(long id) {
        point();
        ev("native destroy " + id);
        Ctx c = use(id, "destroy");
        if (c != null) { if (c.inside > 0) fail("freed-in-use", "a context is freed while a call uses it"); c.freed = true; }
        inc("destroyed");
        point();
    }
    static long h(long h, byte[] b) {
        if (b == null) return h * 31 + 7;
        h = h * 31 + b.length;
        for (byte x : b) h = (h ^ x) * 0x100000001b3L;
        return h;
    }
    static long h(long h, byte[][] b) { if (b == null) return h * 31 + 5; h = h * 31 + b.length; for (byte[] x : b) h = h(h, x); return h; }
    static long h(long h, long[] b) { if (b == null) return h * 31 + 3; h = h * 31 + b.length; for (long x : b) h = (h ^ x) * 0x100000001b3L; return h; }
    static Call enter(int kind, long id, long args) {
        Call k = me().cur;
        ev("native call " + kind + " " + id + " " + args);
        if (k == null || k.kind != kind) { fail("stray-native-call", "native method " + kind + " is called unexpectedly"); throw new Stop(); }
        k.natives++;
        if (k.natives > 1) fail("called-twice", "one call enters the native library twice");
        if (k.args != args) fail("wrong-arguments", "the native library is given other arguments than the caller's");
        Ctx c = use(id, "a call");
        if (k.ctx != id && c != null) fail("wrong-context", "a call is made on another context than the caller's");
        if (c != null) c.inside++;
        point();
        if (c != null && c.freed) fail("freed-in-use", "a context is freed while a call uses it");
        if (c != null) c.inside--;
        k.seen = true;
        switch (k.out) {
            case "iae": k.thrown = new IllegalArgumentException("function has thrown an exception, with reason: x"); break;
            case "oom": k.thrown = new OutOfMemoryError("simulated"); break;
            case "npe": k.thrown = new NullPointerException("simulated"); break;
            default:
        }
        if (k.thrown != null) { inc("fault." + k.out); Sim.<RuntimeException>raise(k.thrown); }
        return k;
    }
    @SuppressWarnings("unchecked") static <E extends Throwable> void raise(Throwable t) throws E { throw (E) t; }
    public static Object nCompute(long c, byte[] b) { point(); return enter(0, c, h(0, b)).result; }
    public static byte[] nCommit(long c, byte[] b) { point(); return (byte[]) enter(1, c, h(0, b)).result; }
    public static boolean nVerify(long c, byte[][] k, long[] i, byte[][] s, byte[][] p) { point(); return enter(2, c, h(h(h(h(0, k), i), s), p)).verdict; }
    public static Object nRecover(long c, long[] i, byte[][] s) { point(); return enter(3, c, h(h(0, i), s)).result; }

    // ---- operations
    static byte[] bytes(long tag, int n) {
        byte[] b = new byte[n];
        for (int i = 0; i < n; i++) b[i] = (byte) (tag * 31 + i * 7 + (i >> 8));
        return b;
    }
    static byte[][] rows(long tag, int n, int each, int bad) {
        byte[][] r = new byte[n][];
        for (int i = 0; i < n; i++) r[i] = i == bad ? (tag % 3 == 0 ? null : bytes(tag, (int) (tag % 50))) : bytes(tag + i, each);
        return r;
    }
    static Throwable cause(InvocationTargetException e) { return e.getCause(); }
    static void step(T t, String op) throws Exception {
        String[] f = op.split(":");
        Slot s = f.length > 1 ? slots[Integer.parseInt(f[1])] : null;
        switch (f[0]) {
            case "nofs": if (!fsGone && tmp.renameTo(new File(tmp.getPath() + ".away"))) { fsGone = true; for (T x : threads) x.sawGone = true; inc("fault.no-temp-dir"); ev("nofs"); } return;
            case "fs": if (fsGone && new File(tmp.getPath() + ".away").renameTo(tmp)) { fsGone = false; ev("fs"); } return;
            case "new": {
                int loads0 = loads; t.sawGone = fsGone;
                t.inNew = true; t.newCalls = 0;
                int mode = Integer.parseInt(f[2]); boolean pre = (mode & 1) != 0; long n = Long.parseLong(f[3]);
                Object o = null; Throwable x = null;
                try {
                    o = (mode & 2) != 0 ? lib.getConstructor().newInstance() : lib.getConstructor(boolean.class, long.class).newInstance(pre, n);
                } catch (InvocationTargetException e) { x = cause(e); if (x instanceof Stop) throw (Stop) x; }
                t.inNew = false; inc("calls");
                ev("new -> " + (x == null ? "ok" : x.getClass().getName()));
                if (x != null) {
                    // only a library that cannot be unpacked excuses a constructor
                    if (!(x instanceof RuntimeException) || !(t.sawGone && loads0 == 0)) fail("constructor-failed", "the constructor throws " + x);
                    if (t.newCalls > 0) fail("constructor-failed", "the constructor throws after creating a native context: " + x);
                    return;
                }
                if (t.newCalls != 1) { fail("constructor-natives", "a constructor creates " + t.newCalls + " native contexts"); return; }
                if ((mode & 2) != 0 ? (!t.newPre || t.newN != 1) : (t.newPre != pre || t.newN != n)) fail("wrong-arguments", "the native context is created with " + t.newPre + "," + t.newN);
                Slot w = new Slot(); w.obj = o; w.id = t.newId; slots[Integer.parseInt(f[1])] = w;
                return;
            }
            case "close": {
                if (s == null || s.inflight > 0 || s.closing) return;
                boolean again = s.closed; s.closing = true;
                Ctx c = ctxs.get(s.id);
                Throwable x = null;
                try { lib.getMethod(f[2].equals("1") ? "close" : "destroy").invoke(s.obj); } catch (InvocationTargetException e) { x = cause(e); if (x instanceof Stop) throw (Stop) x; }
                s.closing = false; s.closed = true; inc("calls"); if (again) inc("closed-again");
                ev("close -> " + x);
                if (x != null) fail("close-threw", "closing a context throws " + x);
                if (!c.freed) fail("context-leaked", "closing a context does not free it");
                return;
            }
            case "call": {
                if (s == null || s.closing) return; // closing a context that others use is the caller's mistake
                Call k = new Call(); k.kind = Integer.parseInt(f[2]); k.out = f[3]; long tag = Long.parseLong(f[4]); int bad = Integer.parseInt(f[5]);
                k.ctx = s.id; k.verdict = tag % 2 == 0;
                int n = (int) (tag % 9), m = (int) ((tag >> 4) % 5);
                byte[] blob = bad == 0 ? null : bytes(tag, bad == 1 ? (int) (tag % 400) : 4096);
                byte[][] ks = rows(tag + 1, n, 48, bad == 2 ? 1 : -1), cs = rows(tag + 2, n + (bad == 3 ? 1 : 0), 2048, bad == 1 ? 0 : -1), ps = rows(tag + 3, bad == 4 ? m : n, 48, -1);
                long[] ix = new long[n]; for (int i = 0; i < n; i++) ix[i] = tag * (i + 1) * 0x9e3779b97f4a7c15L;
                Object want = null;
                byte[][] rc = rows(tag + 9, 4, 64, -1), rp = rows(tag + 8, 4, 48, -1);
                String name; Class<?>[] ty; Object[] a;
                Class<?> B = byte[].class, BB = byte[][].class, L = long[].class;
                switch (k.kind) {
                    case 0: name = "computeCellsAndKZGProofs"; ty = new Class<?>[]{B}; a = new Object[]{blob}; k.args = h(0, blob); break;
                    case 1: name = "blobToKZGCommitment"; ty = new Class<?>[]{B}; a = new Object[]{blob}; k.args = h(0, blob); break;
                    case 2: name = "verifyCellKZGProofBatch"; ty = new Class<?>[]{BB, L, BB, BB}; a = new Object[]{ks, ix, cs, ps}; k.args = h(h(h(h(0, ks), ix), cs), ps); break;
                    default: name = "recoverCellsAndKZGProofs"; ty = new Class<?>[]{L, BB}; a = new Object[]{ix, cs}; k.args = h(h(0, ix), cs);
                }
                if (k.kind == 0 || k.kind == 3) k.result = cap.getConstructor(BB, BB).newInstance(rc, rp);
                else if (k.kind == 1) k.result = bytes(tag + 5, 48);
                long before = h(h(h(h(h(0, blob), ks), ix), cs), ps);
                t.cur = k; s.inflight++;
                boolean closed0 = s.closed;
                Object r = null; Throwable x = null;
                try { r = lib.getMethod(name, ty).invoke(s.obj, a); } catch (InvocationTargetException e) { x = cause(e); if (x instanceof Stop) throw (Stop) x; }
                s.inflight--; t.cur = null; inc("calls");
                ev("call " + k.kind + " -> " + (x == null ? "ok" : x.getClass().getName()));
                if (h(h(h(h(h(0, blob), ks), ix), cs), ps) != before) fail("arguments-modified", name + " modifies its arguments");
                if (closed0) {
                    inc("fault.use-after-close");
                    if (x == null || k.natives > 0) fail("use-after-close", name + " on a closed context " + (x == null ? "returns" : "reaches the native library"));
                    return;
                }
                boolean invalid = bad <= 4 && (x instanceof RuntimeException) && k.natives == 0; // the binding may refuse it by itself
                if (invalid) return;
                if (k.thrown != null) {
                    if (x == null) fail("exception-lost", name + " returns although the native method threw " + k.thrown);
                    else if (x.getClass() != k.thrown.getClass()) fail("exception-changed", name + " throws " + x + " instead of " + k.thrown);
                    return;
                }
                if (x != null) { fail("unexpected-exception", name + " throws " + x); return; }
                if (k.natives != 1) { fail("not-called", name + " returns without calling the native library"); return; }
                if (k.kind == 2) { if (!r.equals(k.verdict)) fail("wrong-verdict", name + " returns " + r); }
                else if (k.kind == 1) { if (!Arrays.equals((byte[]) r, bytes(tag + 5, 48))) fail("wrong-result", name + " returns other bytes"); }
                else artefacts(name, r, rc, rp, tag);
                return;
            }
            default: throw new IllegalArgumentException(op);
        }
    }
    static void artefacts(String name, Object r, byte[][] rc, byte[][] rp, long tag) throws Exception {
        if (r == null) { fail("wrong-result", name + " returns null"); return; }
        Class<?> BB = byte[][].class;
        if (!Arrays.deepEquals((byte[][]) cap.getField("cells").get(r), rc) || !Arrays.deepEquals((byte[][]) cap.getField("proofs").get(r), rp)) fail("wrong-result", name + " returns other cells or proofs");
        if (!Arrays.deepEquals((byte[][]) cap.getMethod("getCells").invoke(r), rc) || !Arrays.deepEquals((byte[][]) cap.getMethod("getProofs").invoke(r), rp)) fail("wrong-result", "getCells/getProofs return something else");
        ByteArrayOutputStream o = new ByteArrayOutputStream();
        for (byte[] b : rc) o.write(b);
        for (byte[] b : rp) o.write(b);
        if (!Arrays.equals((byte[]) cap.getMethod("toBytes").invoke(r), o.toByteArray())) fail("wrong-result", "toBytes returns something else");
        Object same = cap.getMethod("of", BB, BB).invoke(null, rows(tag + 9, 4, 64, -1), rows(tag + 8, 4, 48, -1));
        if (!r.equals(same) || r.hashCode() != same.hashCode()) fail("wrong-result", "equal artefacts are not equal");
        byte[][] d = rows(tag + 8, 4, 48, -1); d[(int) (tag & 3)][(int) (tag % 48)] ^= 1;
        if (r.equals(cap.getMethod("of", BB, BB).invoke(null, rc, d)) || r.equals(null) || r.equals("x")) fail("wrong-result", "different artefacts are equal");
        byte[][] e = rows(tag + 9, 4, 64, -1); e[(int) (tag & 3)][(int) (tag % 64)] ^= 1;
        if (r.equals(cap.getMethod("of", BB, BB).invoke(null, e, rp))) fail("wrong-result", "different artefacts are equal");
    }

    static String js(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c)); else b.append(c); }
        return b.append('"').toString();
    }
    static String run(String line) throws Exception {
        String[] p = line.split("/", 3);
        rnd = Long.parseLong(p[0]); npick = 0; picks = new ArrayList<>(); hash = 0xcbf29ce484222325L;
        forced = p[1].isEmpty() ? new int[0] : Arrays.stream(p[1].split(",")).mapToInt(Integer::parseInt).toArray();
        trace = new ArrayList<>(); cnt = new TreeMap<>(); violClass = violDetail = null; threads = new ArrayList<>();
        slots = new Slot[8]; ctxs = new HashMap<>(); nextCtx = 1; loads = 0; fsGone = stop = false; running = null;
        loader = new URLClassLoader(new URL[]{new File(classes).toURI().toURL()}, Sim.class.getClassLoader());
        lib = Class.forName("ethereum.cryptography.LibEthKZG", false, loader);
        cap = Class.forName("ethereum.cryptography.CellsAndProofs", true, loader);
        for (String ops : p[2].split("\\|")) { T t = new T(); t.no = threads.size(); t.ops = ops.isEmpty() ? new String[0] : ops.split(","); t.setDaemon(true); threads.add(t); }
        for (T t : threads) t.start();
        drive();
        if (fsGone) new File(tmp.getPath() + ".away").renameTo(tmp);
        loader.close();
        StringBuilder b = new StringBuilder("{\"hash\":\"" + Long.toHexString(hash) + "\",\"cnt\":{");
        int i = 0;
        for (Map.Entry<String, Integer> e : cnt.entrySet()) b.append(i++ > 0 ? "," : "").append(js(e.getKey())).append(':').append(e.getValue());
        b.append("},\"picks\":").append(picks).append(",\"viol\":");
        if (violClass == null) b.append("null"); else b.append("{\"class\":" + js(violClass) + ",\"detail\":" + js(violDetail) + "}");
        b.append(",\"trace\":[");
        if (violClass != null) for (i = 0; i < trace.size(); i++) b.append(i > 0 ? "," : "").append(js(trace.get(i)));
        return b.append("]}").toString();
    }
    public static void main(String[] a) throws Exception {
        classes = a[0];
        tmp = new File(System.getProperty("java.io.tmpdir"));
        PrintStream out = System.out;
        System.setOut(new PrintStream(OutputStream.nullOutputStream())); // the binding reports its platform there
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
        for (String l; (l = in.readLine()) != null; ) {
            out.println(run(l)); out.flush();
            File[] left = tmp.listFiles();
            if (left != null && left.length > 200) for (File d : left) { File[] x = d.listFiles(); if (x != null) for (File y : x) y.delete(); d.delete(); }
        }
        // deleteOnExit would work through every run's files
        Runtime.getRuntime().halt(0);
    }
}
