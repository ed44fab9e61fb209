"""Shared machinery of the checks: build the driver, run TLC, generate scripts, run the driver, validate traces."""
import fcntl, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay_text):
        super().__init__(what)
        self.what = what
        self.replay_text = replay_text


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------- build
def build(kind=""):
    """Build the driver against /repo's current working tree (with the guarded re-export of private types).
    kind: "" (stable), "nightly" (with the nightly-only containers), "wide" (elements of alignment 16),
    "plain" (elements that need no drop), "tiny" (byte-aligned elements of any size, from one byte on)."""
    nightly = "nightly" in kind
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTFLAGS="--cfg eastl_verif", RUSTUP_TOOLCHAIN="nightly" if nightly else "stable")
    tgt = os.path.join(HARNESS, "target", kind or "stable")
    os.makedirs(tgt, exist_ok=True)
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tgt]
    if kind:
        cmd += ["--features", kind]
    with open(os.path.join(tgt, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=800)
    if r.returncode != 0:
        raise ToolError("driver build failed:\n" + r.stdout[-6000:])
    return os.path.join(tgt, "debug", "eastl-driver")


# --------------------------------------------------------------------------- TLC
class Tlc:
    pass


def tlc(module, cfg_text, work, env=None, workers=8, timeout=600, heap="6g", name=None, extra=()):
    name = name or module
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    out = os.path.join(work, name + ".out")
    md = os.path.join(work, name + ".md")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work, "-cp", JAR,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg, *extra,
           os.path.join(SPEC, module + ".tla")]
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timeout on %s" % name)
    r = Tlc()
    r.out = out
    r.rc = p.returncode
    r.states = r.distinct = r.depth = 0
    r.err = None
    tail = []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.states, r.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                r.depth = int(m.group(1))
            if r.err is None:
                m = re.match(r"Error: Invariant (\S+) is violated", line)
                if m:
                    r.err = "invariant " + m.group(1)
                elif line.startswith("Error: Deadlock reached"):
                    r.err = "deadlock"
                elif line.startswith("Error: Action property"):
                    r.err = line.strip()[7:]
                elif line.startswith("Error:") and "Model checking" not in line:
                    r.err = line.strip()
            tail.append(line)
            if len(tail) > 4000:
                del tail[:2000]
    r.tail = "".join(tail)
    shutil.rmtree(md, ignore_errors=True)
    return r


def edges_of(r):
    """The labelled state graph printed by a model's EmitEdge action constraint."""
    seen, edges = set(), []
    with open(r.out, errors="replace") as f:
        for line in f:
            if line.startswith('"['):
                if line in seen:
                    continue
                seen.add(line)
                s, op, a, t = json.loads(json.loads(line))
                edges.append((json.dumps(s), op, tuple(a) if isinstance(a, list) else a, json.dumps(t)))
    edges.sort(key=lambda e: (e[0], e[1], str(e[2]), e[3]))   # TLC's workers print in any order
    return edges


def tour(edges, init, maxlen, rng, limit=None):
    """Cover every transition of the graph at least once by walks from the initial state."""
    adj = {}
    key = {}
    for s, op, a, t in edges:
        k = (s, op, json.dumps(a), t)
        if k in key:
            continue
        key[k] = 1
        adj.setdefault(s, []).append((op, a, t, k))
    for s in adj:
        rng.shuffle(adj[s])
    unc = {s: list(v) for s, v in adj.items()}
    left = sum(len(v) for v in unc.values())
    total = left
    done = set()
    walks = []
    # distance to the nearest uncovered edge is found by BFS on demand
    from collections import deque
    while left > 0 and (limit is None or sum(map(len, walks)) < limit):
        cur, walk = init, []
        while len(walk) < maxlen:
            u = unc.get(cur)
            if u:
                op, a, t, k = u.pop()
                if k in done:
                    continue
                done.add(k)
                left -= 1
                walk.append((op, a))
                cur = t
                continue
            # BFS
            par = {cur: None}
            dq = deque([cur])
            hit = None
            while dq:
                x = dq.popleft()
                if unc.get(x):
                    hit = x
                    break
                for op, a, t, k in adj.get(x, ()):
                    if t not in par:
                        par[t] = (x, op, a)
                        dq.append(t)
            if hit is None:
                break
            path = []
            x = hit
            while par[x] is not None:
                px, op, a = par[x]
                path.append((op, a))
                x = px
            path.reverse()
            if len(walk) and len(walk) + len(path) + 1 > maxlen:
                break
            walk += path
            cur = hit
        if not walk:
            break
        walks.append(walk)
    return walks, total, total - left


# --------------------------------------------------------------------------- driver
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))


class Script:
    """A set of operation histories for the driver."""

    def __init__(self):
        self.traces = []  # (kind, cfg dict, [op strings])

    def add(self, kind, cfg, ops):
        if ops:
            self.traces.append((kind, cfg, ops))

    def text(self, i):
        kind, cfg, ops = self.traces[i]
        return "T %d %s %s\n%s\n" % (i + 1, kind, " ".join("%s=%s" % kv for kv in sorted(cfg.items())), "\n".join(ops))

    def write(self, path, idx=None):
        with open(path, "w") as f:
            for i in (range(len(self.traces)) if idx is None else idx):
                f.write(self.text(i))

    def steps(self):
        return sum(len(t[2]) for t in self.traces)


def run_driver(drv, script, work, name, timeout=600, jobs=6):
    """Execute all histories; a history that kills or hangs the process ends with a CRASH event."""
    n = len(script.traces)
    if n == 0:
        return []
    jobs = max(1, min(jobs, n // 20 + 1))
    procs = []
    for j in range(jobs):
        sp = os.path.join(work, "%s.%d.script" % (name, j))
        script.write(sp, [i for i in range(n) if i % jobs == j])
        procs.append([sp, os.path.join(work, "%s.%d.ndjson" % (name, j)), 0])
    deadline = time.time() + timeout
    lines = {}
    crashes = {}
    hung = 0

    def start(p):
        return subprocess.Popen([drv, p[0], p[1], str(p[2])], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, preexec_fn=_limits)

    def collect(p):
        last = p[2] - 1
        if os.path.exists(p[1]):
            with open(p[1], errors="replace") as f:
                for ln in f:
                    if ln.endswith("]}\n"):
                        m = re.match(r'\{"tid":(\d+),', ln)
                        if m:
                            lines[int(m.group(1))] = ln
                            last = max(last, int(m.group(1)))
        return last

    running = [(p, start(p)) for p in procs]
    while running:
        p, h = running.pop(0)
        try:
            h.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            h.kill()
            for _, x in running:
                x.kill()
            if crashes:
                collect(p)
                break
            raise ToolError("driver timeout")
        last = collect(p)
        if h.returncode == 0 and os.path.exists(p[1] + ".done"):
            continue
        if h.returncode > 0 and h.returncode not in (3, 101, 134):   # 3: asked for more memory than there is
            raise ToolError("driver exit %d" % h.returncode)
        # died inside a history: find which
        mine = [i + 1 for i in range(n) if i % jobs == procs.index(p)]
        todo = [t for t in mine if t not in lines and t not in crashes and t >= p[2]]
        if not todo:
            raise ToolError("driver died after its last history (rc %d)" % h.returncode)
        t = todo[0]
        # repeat just this one with an unbuffered log
        sp1 = os.path.join(work, "%s.crash%d.script" % (name, t))
        o1 = os.path.join(work, "%s.crash%d.ndjson" % (name, t))
        script.write(sp1, [t - 1])
        c = subprocess.run([drv, sp1, o1, str(t), "only"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, preexec_fn=_limits, timeout=120)
        part = open(o1, errors="replace").read() if os.path.exists(o1) else ""
        if c.returncode == 0:
            lines[t] = part if part.endswith("\n") else part + "\n"
        else:
            err = c.stderr.decode(errors="replace").strip().splitlines()
            ops = [x for x in err if x.startswith("#")]
            what = ("panic while being read after %s" if c.returncode == 101 else "no memory left in %s" if c.returncode == 3 else "signal %d during %%s" % -c.returncode) % (
                ops[-1][1:] if ops else "?")
            if not part:
                part = '{"tid":%d,"kind":"?","cfg":{"x":0},"ev":[' % t
            sep = "" if part.endswith("[") else ","
            lines[t] = part + sep + '{"op":"CRASH","a":[],"r":[],"p":1,"x":0,"what":%s}]}\n' % json.dumps(what)
            crashes[t] = what
            hung += c.returncode == -signal.SIGPROF
            deadline = min(deadline, time.time() + 60)   # a verdict is near: do not spend much more on it
        if len(crashes) > 40 or hung > 1:
            for _, x in running:
                x.kill()
            break
        p[2] = t + 1
        p[1] = p[1] + "+"
        if any(q > t for q in mine):
            running.append((p, start(p)))
    out = os.path.join(work, name + ".ndjson")
    order = sorted(lines)
    with open(out, "w") as f:
        for t in order:
            f.write(lines[t])
    ev = sum(lines[t].count('"op":') for t in order)
    return [out, order, ev, crashes]


def last_var(tail, var):
    m = re.findall(r"(?:^|/\\ )\s*%s = (-?\d+)" % var, tail, re.M)
    return int(m[-1]) if m else None


def validate(module, invs, res, script, work, name, props=(), consts="", timeout=600, heap="8g", workers=8, spec="TSpec"):
    """Check recorded executions against a trace specification.  Raises Violation on the first rejected one."""
    out, order, nev, crashes = res
    cfg = "SPECIFICATION %s\n%s\nCHECK_DEADLOCK TRUE\n" % (spec, consts)
    if invs:
        cfg += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        cfg += "PROPERTIES " + " ".join(props) + "\n"
    r = tlc(module, cfg, work, env={"TRACE_FILE": out}, name=name, timeout=timeout, heap=heap, workers=workers)
    if r.err is None and r.rc == 0:
        return r
    if r.err is None:
        raise ToolError("TLC failed (%d) on %s:\n%s" % (r.rc, name, r.tail[-3000:]))
    tid, l = last_var(r.tail, "tid"), last_var(r.tail, "l")
    if tid is None or "OutOfMemory" in r.tail or "Parsing or semantic" in r.tail:
        raise ToolError("TLC error on %s: %s\n%s" % (name, r.err, r.tail[-3000:]))
    real = order[tid - 1]
    with open(out) as f:
        for i, ln in enumerate(f):
            if i == tid - 1:
                tr = json.loads(ln)
                break
    # an invariant judges event l-1; a deadlock/evaluation error concerns event l
    k = (l - 1) if r.err.startswith("invariant") else l
    ev = tr["ev"][k - 1] if 1 <= k <= len(tr["ev"]) else {}
    what = "%s: history %d step %d: %s; event %s" % (module, real, k, r.err, json.dumps(ev)[:600])
    raise Violation(what, "# %s\n# module %s, judged: %s\n# step %d rejected: %s\n%s\n# event: %s\n# TLC:\n%s\n" % (
        name, module, " ".join(invs), k, r.err, script.text(real - 1), json.dumps(ev)[:4000], r.tail[-2500:]))
