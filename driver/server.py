"""Client side of `dassim serve`."""
import json, os, subprocess, time, select

class ServerDead(Exception):
    pass

class Server:
    def __init__(self, binary, template, timeout=600):
        self.template = template
        self.p = subprocess.Popen([binary, "serve", json.dumps(template)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
        self.buf = b""
        self.t0 = time.time()
        self.timeout = timeout
        self.ready = False

    def _more(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            raise ServerDead("timeout")
        b = os.read(self.p.stdout.fileno(), 1 << 20)
        if not b:
            self.p.wait()
            e = self.p.stderr.read().decode("utf8", "replace")[-2000:]
            raise ServerDead(f"exit {self.p.returncode}: {e}")
        self.buf += b

    def _line(self, timeout):
        while b"\n" not in self.buf:
            self._more(timeout)
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def _take(self, n, timeout):
        while len(self.buf) < n:
            self._more(timeout)
        b, self.buf = self.buf[:n], self.buf[n:]
        return b

    def wait_ready(self):
        l = self._line(self.timeout)
        if l != "READY":
            raise ServerDead("bad greeting " + l)
        self.ready = True

    def _cmd(self, s):
        if not self.ready:
            self.wait_ready()
        try:
            data = s.encode() + b"\n"
            while data:
                n = os.write(self.p.stdin.fileno(), data)
                data = data[n:]
        except BrokenPipeError:
            raise ServerDead("pipe")
        l = self._line(self.timeout)
        if not l.startswith("R "):
            raise ServerDead("protocol: " + l)
        st, af, pl, rl = (int(x) for x in l[2:].split())
        plan = self._take(pl, self.timeout)
        res = self._take(rl, self.timeout)
        return st, af, plan.decode(), (json.loads(res) if rl else None)

    def gen(self, prop, seed, tier):
        return self._cmd(f"G {prop} {seed} {tier}")

    def run(self, plan, verbose=False):
        if not isinstance(plan, str):
            plan = json.dumps(plan, separators=(",", ":"))
        return self._cmd(("V " if verbose else "P ") + plan)

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass

ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16"]

def violation(st, af, res):
    """(class, properties, detail) of an episode outcome, or None"""
    if res and res.get("viol"):
        v = res["viol"]
        return v["class"], v["props"], v["detail"]
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == 6 and af:
            return None                       # refused allocation, process aborted: allowed
        if sig == 9:
            return "killed", [], "episode killed (memory or CPU limit of the sandbox)"
        name = {6: "abort", 11: "segfault", 7: "bus-error", 4: "illegal-instruction", 24: "cpu-limit", 8: "fpe", 5: "trap"}.get(sig, f"signal-{sig}")
        return "crash-" + name, ALL, f"the process died with signal {sig}"
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) != 0:
        return "exit-%d" % os.WEXITSTATUS(st), [], "episode process exited"
    if res is None:
        return "no-result", [], "no result"
    return None
