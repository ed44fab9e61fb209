"""C03, C04: the deque; C05: the queue; C21: double-ended and consuming iterators."""
import itertools
from core import *
import p_vector

VALS = {"pushb": [0], "pushf": [0], "push": [0], "setf": [0], "setb": [0], "set": [1], "inextset": [0], "inbackset": [0]}
MCCFG = """SPECIFICATION MSpec
CONSTANTS BL = 4
 InitP = 8
 MaxP = %d
 Emit = TRUE
 Removes = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS InArray BlocksLive Count Refines NoStray
CHECK_DEADLOCK FALSE
"""
INIT = "[8, 3, 0, 3, 0]"
BLK = {1: 64, 2: 64, 3: 64, 4: 64, 5: 32, 6: 32, 8: 32, 12: 16, 16: 16, 20: 8, 24: 8, 32: 8, 40: 4, 64: 4, 300: 4}
ALL = [4, 8, 12, 16, 20, 32, 40]


def tour_script(c, maxp, obs, es=40, every=1, limit=None):
    r = c.model("MCDeque", MCCFG % maxp, name="MCDeque%d" % maxp)
    walks, tot, got = tour(edges_of(r), INIT, 400, c.rng, limit)
    s = Script()
    for wk in walks:
        s.add("deq", dict(es=es, obs=obs, every=every), subst(wk, VALS) + ["fin"])
    return s, dict(model_transitions=tot, transitions_covered=got)


class H:
    """A random deque or queue history; only the length is tracked."""

    def __init__(self, rng, queue=False):
        self.rng, self.ops, self.ln, self.v, self.queue = rng, [], 0, 0, queue

    def f(self, k=1):
        self.v += k
        return " ".join(str(self.v - k + i + 1) for i in range(k))

    def idx(self):
        n = self.ln
        return max(0, self.rng.choice([0, n - 1, n, n + 1, n // 2, n // 2 - 1, self.rng.randrange(n + 1),
                                       self.rng.randrange(n + 1)]))

    def ctor(self, sizes=(0, 1, 2, 3, 5, 9)):
        k = self.rng.choice(["default", "new", "newin", "fromiter", "fromiter"])
        if k == "fromiter":
            q = self.rng.choice(sizes)
            self.ops.append(("fromiter %d %s" % (self.rng.randrange(2), self.f(q))).strip())
            self.ln = q
        else:
            self.ops.append(k)
            self.ln = 0

    def pushb(self):
        self.ops.append(("push " if self.queue else "pushb ") + self.f())
        self.ln += 1

    def pushf(self):
        if self.queue:
            return self.pushb()
        self.ops.append("pushf " + self.f())
        self.ln += 1

    def popf(self):
        self.ops.append("pop" if self.queue else "popf")
        self.ln = max(0, self.ln - 1)

    def popb(self):
        if self.queue:
            return self.popf()
        self.ops.append("popb")
        self.ln = max(0, self.ln - 1)

    def remove(self):
        if self.queue:
            return self.popf()
        i = self.idx()
        self.ops.append("remove %d" % i)
        self.ln -= i < self.ln

    def write(self):
        k = self.rng.randrange(3)
        if k == 0 and not self.queue:
            self.ops.append("setf " + self.f())
        elif k == 1 and not self.queue:
            self.ops.append("setb " + self.f())
        else:
            self.ops.append("set %d %s" % (self.idx(), self.f()))

    def iterate(self, kind=None, steps=None):
        r = self.rng
        k = r.randrange(3) if kind is None else kind
        self.ops.append("itnew %d" % k)
        left = self.ln
        if k == 2:
            self.ln = 0
        bias = r.choice([.2, .5, .8])
        for _ in range(r.randrange(min(left, 40) + 3) if steps is None else steps):
            back = r.random() < bias
            if k == 1 and r.random() < .4:
                self.ops.append(("inbackset " if back else "inextset ") + self.f())
            elif r.random() < .12:
                self.ops.append(("inthb %d" if back else "inth %d") % r.choice([0, 1, 2, r.randrange(left + 2), r.randrange(40)]))
            else:
                self.ops.append("inback" if back else "inext")
            if k < 2 and r.random() < .15:
                m = r.randrange(3) if k == 1 else 0
                self.ops.append("icompat %d" % m)
                if m:
                    k = 0
        self.ops.append(r.choice(["irest", "irestb", "idrop", "icount", "ilast"]))

    def convert(self):
        """queue: to the inner deque, drain some of it"""
        self.ops.append("inner")
        for _ in range(self.rng.randrange(self.ln + 2)):
            self.ops.append(self.rng.choice(["wpopf", "wpopb"]))
        if self.rng.random() < .5:
            self.ops.append("dropw")
        self.ln = 0

    def done(self):
        self.ops.append("fin")
        return self.ops


def rand_history(rng, n, queue=False, burst=40, cap=600, iters=True, start=0):
    h = H(rng, queue)
    if start and rng.random() < .5:
        h.ops.append("fromiter %d %s" % (rng.randrange(2), h.f(start)))
        h.ln = start
    else:
        h.ctor((0, 1, 2, 5, 9, 33, 70))
    while h.ln < start:
        q = rng.randrange(1, start - h.ln + 1)
        h.ops.append("%s %d %d" % ("pushn" if queue else rng.choice(["pushbn", "pushfn"]), h.v + 1, q))
        h.ln, h.v = h.ln + q, h.v + q
    while len(h.ops) < n:
        x = rng.random()
        if x < .5:  # a burst at one place
            fn = rng.choice([h.pushb, h.pushf, h.popb, h.popf, h.pushb, h.pushf] if not queue else [h.pushb, h.popf])
            if start and rng.random() < .3:
                q = rng.randrange(1, h.ln + 2)
                if rng.random() < .5:
                    h.ops.append("%s %d %d" % ("pushn" if queue else rng.choice(["pushbn", "pushfn"]), h.v + 1, q))
                    h.ln, h.v = h.ln + q, h.v + q
                else:
                    q = min(q, h.ln) // 2
                    h.ops.append("%s %d" % ("popn" if queue else rng.choice(["popbn", "popfn"]), q))
                    h.ln -= q
            for _ in range(rng.randrange(1, burst)):
                if fn in (h.pushb, h.pushf) and h.ln >= cap or fn in (h.popb, h.popf) and h.ln == 0 and rng.random() < .8:
                    break
                fn()
        elif x < .8:
            for _ in range(rng.randrange(1, 12)):
                rng.choice([h.pushb, h.pushf, h.popb, h.popf, h.remove, h.remove])()
        elif x < .9:
            h.write()
        elif x < (.98 if start and not queue else .95) and iters:
            h.iterate()
        elif x < .97 and queue:
            h.convert()
        elif x < .99:
            h.ops.append("drop")
            h.ln = 0
    return h.done()


def random_script(rng, k, n, obs, queue=False, every=1, **kw):
    s = Script()
    for i in range(k):
        es = ALL[i % len(ALL)]
        s.add("que" if queue else "deq", dict(es=es, obs=obs, every=every),
              rand_history(rng, n, queue, burst=min(2 * BLK[es], 60), **kw))
    return s


def sized_script(rng, k, top, obs, n=40, queue=False):
    """Every operation on deques of any length up to top."""
    s = Script()
    for i in range(k):
        b = big_size(rng, top)
        s.add("que" if queue else "deq", dict(es=ALL[i % len(ALL)], obs=obs, every=1 + b // 40),
              rand_history(rng, n, queue, burst=6, cap=3 * b, start=b))
    return s


def push_runs(rng, obs, queue=False, scale=1):
    """Long one-sided and sliding runs: recentring and regrowing the pointer array at every block size."""
    s = Script()
    for es in ALL:
        b = BLK[es]
        for shape in (["bb", "ff", "slideb", "slidef", "bf", "saw"] if not queue else ["bb", "slideb", "saw"]):
            h = H(rng, queue)
            h.ctor((0, 1, b - 1, b, b + 1))
            m = int(b * 12 * scale)
            if shape == "bb":
                for _ in range(m):
                    h.pushb()
                for _ in range(m + 2):
                    h.popf()
            elif shape == "ff":
                for _ in range(m):
                    h.pushf()
                for _ in range(m + 2):
                    h.popb()
            elif shape == "slideb":
                for _ in range(m):
                    h.pushb()
                    if rng.random() < .9:
                        h.popf()
            elif shape == "slidef":
                for _ in range(m):
                    h.pushf()
                    if rng.random() < .9:
                        h.popb()
            elif shape == "bf":
                for _ in range(m):
                    rng.choice([h.pushb, h.pushf])()
                for _ in range(m):
                    rng.choice([h.popb, h.popf, h.remove])()
            else:
                up = [h.pushb, h.popf]
                for k in range(8):
                    for _ in range(rng.randrange(1, 2 * b)):
                        up[k % 2]()
            if not queue and rng.random() < .7:
                h.iterate(0)
            s.add("que" if queue else "deq", dict(es=es, obs=obs, every=max(1, b // 2)), h.done())
    return s


def scale_script(rng, k, top, obs, queue=False):
    """Stretches of many single operations at one end, observed at their ends: hundreds of blocks."""
    s = Script()
    for i in range(k):
        es = ALL[i % len(ALL)]
        b = BLK[es]
        ops, ln, v = ["default"], 0, 1
        blocks = 1
        while ln < top:
            n = rng.choice([1, b - 1, b, b + 1, b * blocks, b * blocks + rng.randrange(b)])
            blocks = min(blocks * 2, top // b + 1)
            x = rng.random()
            if ln == 0 or x < .6:
                op = "pushn" if queue else rng.choice(["pushbn", "pushfn"])
                ops.append("%s %d %d" % (op, v, n))
                v += n
                ln += n
            else:
                n = min(n, ln // 2)
                op = rng.choice(["popn"] if queue else ["popbn", "popfn", "remn"])
                if op == "remn":
                    n = min(n, 200)
                    ops.append("remn %d %d" % (rng.choice([0, ln - n, (ln - n) // 2, rng.randrange(ln - n + 1)]), n))
                else:
                    ops.append("%s %d" % (op, n))
                ln -= n
        if i % 3 == 0:
            ops += ["itnew %d" % rng.randrange(3), "inext", "inback", "inext"]
            for _ in range(4):
                ops.append("%s %d" % (rng.choice(["inth", "inthb"]), rng.randrange(ln // 4 + 2)))
                ops.append(rng.choice(["inext", "inback"]))
            ops.append(rng.choice(["irest", "irestb", "icount", "ilast"]))
        else:
            ops.append(("popn %d" if queue else rng.choice(["popbn %d", "popfn %d"])) % ln)
            ops += ["pop" if queue else "popb", ("push" if queue else "pushf") + " %d" % v]
        s.add("que" if queue else "deq", dict(es=es, obs=obs), ops + ["fin"])
    return s


def iter_grid(rng, obs, queue=False, maxn=5, sizes=(40,)):
    """Every interleaving of front/back steps, for every begin offset in a block, with a drop at every point."""
    s = Script()
    for es in sizes:
        b = BLK[es]
        for off in range(b + 1):
            for n in range(maxn + 1):
                for k in (0, 1, 2):
                    for steps in range(n + 3):
                        combos = list(itertools.product([0, 1], repeat=steps))
                        if len(combos) > 12:
                            combos = rng.sample(combos, 12)
                        for cb in combos:
                            h = H(rng, queue)
                            for _ in range(off):
                                h.pushb()
                            for _ in range(n):
                                h.pushb()
                            for _ in range(off):
                                h.popf()
                            h.ops.append("itnew %d" % k)
                            for x in cb:
                                if k == 1 and rng.random() < .3:
                                    h.ops.append(("inbackset " if x else "inextset ") + h.f())
                                else:
                                    h.ops.append("inback" if x else "inext")
                                if k < 2 and rng.random() < .1:
                                    h.ops.append("icompat 0")
                            if rng.random() < .3:
                                h.ops.append("%s %d" % (rng.choice(["inth", "inthb"]), rng.randrange(n + 2)))
                            h.ops.append(rng.choice(["idrop", "irest", "irestb", "icount", "ilast"]))
                            s.add("que" if queue else "deq", dict(es=es, obs=obs), h.done())
    return s


ITERCFG = """SPECIFICATION MSpec
CONSTANTS BL = 4
 MaxN = %d
 MaxJump = %d
 Kinds = {0, 1, 2}
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS Faithful Cursors Inside
CHECK_DEADLOCK FALSE
"""


def iter_tour(c, obs, queues=(False, True)):
    """Every transition of the iterator model, on deques and queues of blocks of four."""
    r = c.model("MCDequeIter", ITERCFG % (c.q(5, 8), c.q(2, 5)))
    walks, tot, got = tour(edges_of(r), "[0, 0, 0, 0, [], 1]", 60, c.rng)
    res = []
    for q in queues:
        s = Script()
        ns = ("push", "pushn", "popn") if q else ("pushb", "pushbn", "popfn")
        for wk in walks:
            o, n, k = wk[0][1]
            ops = ["%s 1 %d" % (ns[1], o)] if o else []
            ops += ["%s 100 %d" % (ns[1], n)] if n else []
            ops += ["%s %d" % (ns[2], o)] if o else []
            ops += ["itnew %d" % k] + subst(wk[1:], VALS, 1000)
            if not ops[-1].split()[0] in ("icount", "ilast", "irest", "irestb", "idrop"):
                ops.append("irest")
            s.add("que" if q else "deq", dict(es=40, obs=obs), ops + ["fin"])
        res.append(("iter tour " + ("queue" if q else "deque"), s, dict(transitions_covered=got)))
    return res


SEQ = ["Result", "Contents", "Backward", "Lengths", "FrontElem", "BackElem", "Printed", "IterHint"]
IMG = ["ImgSlots", "ImgPlaces", "ImgBlocks", "ImgCount", "ImgWalk"]


def deq_sets(c, obs):
    s, cov = tour_script(c, 18, obs, every=c.q(3, 1))
    yield "tour", s, cov
    yield "random", random_script(c.rng, c.q(140, 1400), c.q(120, 250), obs, every=c.q(5, 3)), None
    yield "runs", push_runs(c.rng, obs, scale=c.q(1, 3)), None
    s = scale_script(c.rng, c.q(21, 140), c.q(3000, 12000), obs)
    s.traces += sized_script(c.rng, c.q(42, 420), c.q(2100, 9000), obs).traces
    yield "scale", s, None


@prop("C03")
def c03(c):
    c.prepare("", "wide", "plain", "tiny")
    done = []
    for label, s, cov in deq_sets(c, "c"):
        c.conform(s, "TraceDeque", SEQ, label, cover=cov)
        done.append(s)
    c.variants(done, c.q(100, 1000), "TraceDeque", SEQ)


@prop("C04")
def c04(c):
    c.prepare("", "wide", "plain", "tiny")
    done = []
    for label, s, cov in deq_sets(c, "l"):
        c.conform(s, "TraceDeque", IMG, label, cover=cov)
        done.append(s)
    c.variants(done, c.q(150, 1500), "TraceDeque", IMG)


def que_sets(c, obs):
    # the queue over a deque of blocks of four: the model's push-back / pop-front transitions
    r = c.model("MCDeque", MCCFG % 18, name="MCDeque18")
    ed = [(a, {"pushb": "push", "popf": "pop"}[o], x, b) for a, o, x, b in edges_of(r) if o in ("pushb", "popf")]
    walks, tot, got = tour(ed, INIT, 400, c.rng)
    s = Script()
    for wk in walks:
        s.add("que", dict(es=40, obs=obs, every=3), subst(wk, VALS) + ["fin"])
    yield "tour", s, dict(transitions_covered=got)
    yield "random", random_script(c.rng, c.q(280, 2000), c.q(100, 250), obs, queue=True, every=c.q(3, 1)), None
    yield "runs", push_runs(c.rng, obs, queue=True, scale=c.q(1.5, 4)), None
    s = scale_script(c.rng, c.q(21, 140), c.q(3000, 12000), obs, queue=True)
    s.traces += sized_script(c.rng, c.q(42, 420), c.q(2100, 9000), obs, queue=True).traces
    yield "scale", s, None


QUE = ["Result", "Contents", "Backward", "Lengths", "FrontElem", "Printed", "InnerContents", "IterHint"]


@prop("C05")
def c05(c):
    c.prepare("", "wide", "plain", "tiny")
    done = []
    for label, s, cov in que_sets(c, "c"):
        c.conform(s, "TraceDeque", QUE, label, cover=cov)
        done.append(s)
    c.variants(done, c.q(100, 1000), "TraceDeque", QUE)
    c.conform(iter_grid(c.rng, "c", queue=True, maxn=c.q(2, 5)), "TraceDeque", QUE, "iter")


@prop("C21")
def c21(c):
    rng = c.rng
    own = ["Own", "OwnErrs"]
    for label, s, cov in iter_tour(c, "co"):
        res = c.run(s, label)
        c.judges([("TraceDeque", SEQ, res, s, label, dict(cover=cov)), ("TraceOwnership", own, res, s, label + " own", {})])
    for q in (False, True):
        label = "queue" if q else "deque"
        s = iter_grid(rng, "co", queue=q, maxn=c.q(2 - q, 6), sizes=(40,))
        for _ in range(c.q(60, 600)):
            h = H(rng, q)
            es = rng.choice(ALL)
            h.ctor((0, 1, BLK[es] - 1, BLK[es], 2 * BLK[es] + 1))
            for _ in range(rng.randrange(2 * BLK[es])):
                rng.choice([h.pushb, h.pushf])()
            for _ in range(6):
                h.iterate(rng.choice([0, 1, 0, 1, None]), steps=rng.randrange(min(h.ln, 60) + 4))
                for _ in range(rng.randrange(10)):
                    rng.choice([h.pushb, h.pushf, h.popf, h.popb])()
            s.add("que" if q else "deq", dict(es=es, obs="co", every=3), h.done())
        res = c.run(s, label)
        c.judge("TraceDeque", SEQ, res, s, label)
        c.judge("TraceOwnership", own, res, s, label + "-own")
    s = p_vector.iter_script(rng, p_vector.SIZES, c.q(5, 7), obs="co")
    res = c.run(s, "vector")
    c.judge("TraceVector", ["Result", "Contents", "Lengths", "IterRemaining", "IterHint"], res, s, "vector")
    c.judge("TraceOwnership", own, res, s, "vector-own")
