"""C01, C02: the vector."""
from core import *

VALS = {"push": [0], "insert": [1], "set": [1], "append": "all", "assign": "all", "iset": [1], "fromslice": "all",
        "frommut": "all", "fromin": "all", "fromarr": "all", "fromarrref": "all"}
MCCFG = """SPECIFICATION MSpec
CONSTANTS MaxLen = %d
 MaxCap = %d
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS CapCoversLen Refines Owned
PROPERTIES CapMonotone PanicChangesNothing CloneIndependent
CHECK_DEADLOCK FALSE
"""
INIT = "[0, 0, [], []]"


def model(c, n=5, m=8):
    r = c.model("MCVector", MCCFG % (n, m))
    return edges_of(r)


def rand_history(rng, n, grow=0.5, cap=60, iters=True, ctor=True, start=0):
    """A random history of vector operations; the length is tracked so that indices are interesting."""
    ops, ln, w, it, v = [], 0, None, None, [0]

    def f(k=1):
        r = [str(v[0] + i + 1) for i in range(k)]
        v[0] += k
        return " ".join(r)
    ctors = ["new", "default", "newin", "withcap", "fromslice", "frommut", "fromin", "fromarr", "fromarrref", "fromiter"]
    if start:
        k = rng.choice(["append", "assign", "fromslice", "frommut", "fromin", "fromiter 0", "fromiter 1"])
        if k in ("append", "assign"):
            ops.append(rng.choice(["new", "withcap %d" % rng.choice([1, start - 1, start, start + 1])]))
        ops.append(k + " " + f(start))
        ln = start
    elif ctor:
        k = rng.choice(ctors)
        q = rng.choice([0, 1, 2, 3, 4, 5, 7, 8])
        if k in ("new", "default", "newin"):
            ops.append(k)
        elif k == "withcap":
            ops.append("withcap %d" % q)
        elif k == "fromiter":
            ops.append(("fromiter %d %s" % (rng.randrange(2), f(q))).strip())
            ln = q
        else:
            ops.append((k + " " + f(q)).strip())
            ln = q
    idx = lambda: rng.choice([0, max(0, ln - 1), ln, ln + 1, rng.randrange(ln + 1), rng.randrange(ln + 1)])
    while len(ops) < n:
        x = rng.random()
        if ln >= cap and x < grow:
            x = grow + 0.01
        if x < grow:
            y = rng.random()
            if y < .5:
                ops.append("push " + f())
                ln += 1
            elif y < .8:
                i = idx()
                ops.append("insert %d %s" % (i, f()))
                ln += i <= ln
            elif y < .9:
                q = rng.choice([0, 1, 1, 2, 3, 6, start, start // 2])
                ops.append(("append " + f(q)).strip())
                ln += q
            else:
                ops.append("reserve %d" % rng.choice([0, 1, 2, 5, start, start // 3]))
        elif x < grow + 0.33:
            y = rng.random()
            if start and y < .85 and rng.random() < .2:
                q = rng.randrange(ln // 2 + 1)
                ops.append("popn %d" % q)
                ln -= q
            elif y < .35:
                ops.append("pop")
                ln = max(0, ln - 1)
            elif y < .9:
                i = idx()
                ops.append("remove %d" % i)
                ln -= i < ln
            elif y < .93:
                ops.append("clear")
                ln = 0
            else:
                q = rng.choice([0, 1, 2, 3, 5, ln, ln + 1, max(0, ln - 1)])
                ops.append(("assign " + f(q)).strip())
                ln = q
        else:
            y = rng.random()
            if y < .3:
                ops.append("set %d %s" % (idx(), f()))
            elif y < .5:
                ops.append("swap %d %d" % (idx(), idx()))
            elif y < .65:
                ops.append("get %d" % idx())
            elif y < .75:
                ops.append("clone")
                w = ln
            elif y < .85:
                if w is not None:
                    ops.append("swapw")
                    ln, w = w, ln
            elif y < .9:
                ops.append("dropw")
                w = None
            elif iters and y < .97:
                ops.append("intoiter")
                r = ln
                ln = 0
                for _ in range(rng.randrange(r + 3)):
                    z = rng.random()
                    if z < .45:
                        ops.append("inext")
                        r = max(0, r - 1)
                    elif z < .8:
                        ops.append("inback")
                        r = max(0, r - 1)
                    elif z < .9:
                        j = rng.randrange(r + 2) if rng.random() < .3 else rng.randrange(3)
                        ops.append("%s %d" % (rng.choice(["inth", "inthb"]), j))
                        r = max(0, r - j - 1)
                    else:
                        ops.append("iset %d %s" % (rng.randrange(r + 1), f()))
                ops.append(rng.choice(["idrop", "icollect", "icount", "ilast"]))
            else:
                ops.append("drop")
                ln = 0
    ops.append("fin")
    return ops


def iter_script(rng, sizes, maxn, obs="c"):
    """Consuming iteration: every interleaving of front and back steps, with an early drop at every point."""
    import itertools
    s = Script()
    for n in range(maxn + 1):
        for steps in range(n + 3):
            combos = list(itertools.product(["inext", "inback"], repeat=steps))
            if len(combos) > 64:
                combos = rng.sample(combos, 64)
            for cb in combos:
                ops = ["fromslice " + " ".join(str(i + 1) for i in range(n)) if n else "new", "intoiter", *cb]
                if n and rng.random() < .5:
                    ops.insert(1, "reserve 3")
                if rng.random() < .3:
                    ops.append("%s %d" % (rng.choice(["inth", "inthb"]), rng.randrange(n + 2)))
                ops.append(rng.choice(["idrop", "icollect", "icount", "ilast", "fin"]))
                if ops[-1] != "fin":
                    ops.append("fin")
                s.add("vec", dict(es=rng.choice(sizes), obs=obs), ops)
    return s


def tour_script(c, edges, cfgs, maxlen=150, limit=None):
    walks, tot, got = tour(edges, INIT, maxlen, c.rng, limit)
    s = Script()
    for i, wk in enumerate(walks):
        s.add("vec", cfgs[i % len(cfgs)], subst(wk, VALS) + ["fin"])
    return s, dict(model_transitions=tot, transitions_covered=got)


def random_script(rng, k, n, sizes, obs, **kw):
    s = Script()
    for i in range(k):
        s.add("vec", dict(es=sizes[i % len(sizes)], obs=obs), rand_history(rng, n, grow=rng.choice([.35, .45, .55]), **kw))
    return s


def long_script(rng, k, n, sizes, obs):
    s = Script()
    for i in range(k):
        s.add("vec", dict(es=sizes[i % len(sizes)], obs=obs, every=16),
              rand_history(rng, n, grow=.56, cap=400, iters=False))
    return s


def sized_script(rng, k, top, sizes, obs, n=30):
    """Every operation on vectors of any length up to top."""
    s = Script()
    for i in range(k):
        b = big_size(rng, top)
        s.add("vec", dict(es=sizes[i % len(sizes)], obs=obs, every=1 + b // 50),
              rand_history(rng, n, grow=rng.choice([.35, .5]), cap=3 * b, start=b))
    return s


def scale_script(rng, k, top, sizes, obs):
    """Histories of many single operations, observed at the ends of each stretch: sizes around every power of two."""
    s = Script()
    for i in range(k):
        ops, ln, v = [], 0, 1
        ctor = rng.choice(["new", "withcap 3", "withcap 100", "new"])
        ops.append(ctor)
        while ln < top:
            p = 1
            while p <= ln:
                p *= 2
            # to just below, at and above the next power of two
            for to in sorted({p - 1, p, p + 1, p + rng.randrange(p)}):
                n = to - ln
                if n <= 0:
                    continue
                if rng.random() < .75 or ln == 0:
                    ops.append("pushn %d %d" % (v, n))
                else:
                    ops.append("insn %d %d %d" % (rng.choice([0, ln, ln // 2]), v, n))
                v += n
                ln = to
            if ln > 8:
                n = rng.randrange(1, ln // 4 + 1)
                y = rng.random()
                if y < .4:
                    ops.append("remn %d %d" % (rng.choice([0, ln - n, rng.randrange(ln - n + 1)]), n))
                    ln -= n
                elif y < .6:
                    ops.append("popn %d" % n)
                    ln -= n
                elif y < .7:
                    ops += ["remove %d" % rng.randrange(ln), "insert %d %d" % (rng.randrange(ln), v)]
                    v += 1
                elif y < .8:
                    ops += ["clone", "swapw", "dropw"]
                elif y < .9:
                    ops.append("swap %d %d" % (rng.randrange(ln), rng.randrange(ln)))
        q = rng.randrange(300, 700)
        ops.append("append " + " ".join(str(v + i) for i in range(q)))
        ln, v = ln + q, v + q
        ops += ["remn %d %d" % (ln // 3, ln // 2), "popn %d" % (ln // 4)]
        if i % 2:
            ops.append("assign " + " ".join(str(v + i) for i in range(q)))
        ops += ["intoiter", "inext", "inback", "inth %d" % rng.randrange(40), "inback", "inthb %d" % rng.randrange(40), "inext", "icollect"] if i % 3 == 0 else []
        s.add("vec", dict(es=sizes[i % len(sizes)], obs=obs), ops + ["fin"])
    return s


SIZES = [4, 8, 12, 40]


def vec_scripts(c, obs):
    edges = model(c, *c.q((4, 8), (6, 8)))
    s, cov = tour_script(c, edges, [dict(es=e, obs=obs) for e in SIZES], limit=c.q(60000, 600000))
    yield "tour", s, cov
    yield "random", random_script(c.rng, c.q(250, 3000), c.q(60, 120), SIZES + [16, 20, 32], obs), None
    yield "long", long_script(c.rng, c.q(8, 60), c.q(600, 1500), SIZES, obs), None
    s = scale_script(c.rng, c.q(6, 40), c.q(2500, 20000), SIZES, obs)
    s.traces += sized_script(c.rng, c.q(40, 400), c.q(3000, 20000), SIZES, obs).traces
    yield "scale", s, None


@prop("C01")
def c01(c):
    c.prepare("", "wide", "plain", "tiny")
    invs = ["Result", "Contents", "Lengths", "Printed", "CloneContents", "IterRemaining"]
    done = []
    for label, s, cov in vec_scripts(c, "c"):
        c.conform(s, "TraceVector", invs, label, cover=cov)
        done.append(s)
    c.variants(done, c.q(150, 1500), "TraceVector", invs)


@prop("C02")
def c02(c):
    c.prepare("", "wide", "plain", "tiny")
    done = []
    for label, s, cov in vec_scripts(c, "cl"):
        c.conform(s, "TraceVector", ["Result", "Lengths", "Capacity", "CloneCapacity", "Full", "Image", "Stable"], label, cover=cov)
        done.append(s)
    c.variants(done, c.q(150, 1500), "TraceVector", ["Result", "Lengths", "Capacity", "CloneCapacity", "Full", "Image", "Stable"])
