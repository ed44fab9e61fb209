"""C06: the list; C17: the fixed lists."""
from core import *

VALS = {"pushb": [0], "pushf": [0], "setf": [0], "setb": [0], "set": [1]}
MCCFG = """SPECIFICATION MSpec
CONSTANTS N = %d
 MaxLen = %d
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS OwnFirst Ring Where PoolSound
PROPERTIES AskOnlyWhenFull
CHECK_DEADLOCK FALSE
"""
INIT = "[[], [], 1]"
SIZES = [4, 8, 12, 16, 20, 32, 40]
CONF_SIZES = [4, 8, 12, 40]


def tour_script(c, n, maxlen, kind, cfgs, limit=None):
    r = c.model("MCList", MCCFG % (n, maxlen), name="MCList%d_%d" % (n, maxlen))
    walks, tot, got = tour(edges_of(r), INIT, 150, c.rng, limit)
    s = Script()
    for i, wk in enumerate(walks):
        s.add(kind, cfgs[i % len(cfgs)], subst(wk, VALS) + ["fin"])
    return s, dict(model_transitions=tot, transitions_covered=got)


def rand_history(rng, n, cap=30, mid=None, start=0):
    ops, ln, v = [], 0, [0]

    def f(k=1):
        v[0] += k
        return " ".join(str(v[0] - k + i + 1) for i in range(k))
    up = .5
    ops.append(rng.choice(["new", "newin"]))
    while ln < start:
        q = rng.randrange(1, start - ln + 1)
        x = rng.random()
        ops.append("extend %d %s" % (rng.randrange(2), f(q)) if x < .6 else "extref " + f(q) if x < .8 else
                   "%s %d %d" % (rng.choice(["pushbn", "pushfn"]), v[0] + 1, q))
        v[0] += q if x >= .8 else 0
        ln += q
    while len(ops) < n:
        x = rng.random()
        if rng.random() < .05:
            up = rng.choice([.25, .5, .5, .75])
        if mid is not None:  # hover around the number of own nodes
            up = .75 if ln < mid else .3 if ln > mid + 2 else .5
        if x < .72:
            if rng.random() < up and ln < cap:
                if rng.random() < .85:
                    ops.append(rng.choice(["pushb ", "pushf "]) + f())
                    ln += 1
                else:
                    k = rng.choice([0, 1, 2, 3, 5])
                    ops.append(("extend %d %s" % (rng.randrange(2), f(k))).strip())
                    ln += k
            else:
                ops.append(rng.choice(["popb", "popf"]))
                ln = max(0, ln - 1)
        elif x < (.74 if start else .76):
            ops.append("clear")
            ln = 0
        elif x < .90:
            k = rng.randrange(3)
            i = rng.choice([0, max(0, ln - 1), ln, ln + 2, rng.randrange(ln + 1)])
            ops.append(["setf " + f(), "setb " + f(), "set %d %s" % (i, f())][k])
        elif x < .97:
            if rng.random() < .25:
                ops.append("nth %d %d" % (rng.randrange(2), rng.choice([0, ln, rng.randrange(ln + 1)])))
            elif rng.random() < .2:
                ops.append("last %d" % rng.randrange(2))
            else:
                ops.append("iter %d %d" % (rng.randrange(2), rng.choice([0, 1, ln, ln + 1, ln + 3, rng.randrange(ln + 1)])))
        elif x < .985:
            ops.append(("extref " + f(rng.randrange(6))).strip())
        else:
            ops.append(rng.choice(["drop", "newin"]))
            ln = 0
    return ops + ["fin"]


def random_script(rng, k, n, obs):
    s = Script()
    for i in range(k):
        s.add("lst", dict(es=SIZES[i % len(SIZES)], obs=obs), rand_history(rng, n, cap=rng.choice([4, 12, 60])))
    return s


def sized_script(rng, k, top, obs, n=40, kind="lst", **cfg):
    """Every operation on lists of any length up to top."""
    s = Script()
    for i in range(k):
        b = big_size(rng, top)
        sz = CONF_SIZES if cfg.get("conf") else SIZES
        s.add(kind, dict(cfg, es=sz[i % len(sz)], obs=obs, every=1 + b // 40), rand_history(rng, n, cap=3 * b, start=b))
    return s


def fixed_random(rng, k, n, obs, conf=0):
    s = Script()
    for i in range(k):
        sz = CONF_SIZES if conf else SIZES
        nodes = rng.choice([1, 2, 3, 4, 8])
        s.add("fls", dict(es=sz[i % len(sz)], obs=obs, nodes=nodes, conf=conf),
              rand_history(rng, n, cap=nodes * 2 + 4, mid=rng.choice([None, nodes, nodes])))
    return s


def scale_script(rng, k, top, obs, nodes=None, conf=0):
    """Stretches of many single operations at one end, observed at their ends."""
    s = Script()
    for i in range(k):
        ops, ln, v = ["new"], 0, 1
        while ln < top:
            n = rng.choice([1, 2, rng.randrange(1, 40), rng.randrange(1, ln + 3)])
            x = rng.random()
            if ln == 0 or x < .6:
                ops.append("%s %d %d" % (rng.choice(["pushbn", "pushfn"]), v, n))
                v, ln = v + n, ln + n
            elif x < .64:
                ops.append("extend %d %s" % (rng.randrange(2), " ".join(str(v + j) for j in range(n))))
                v, ln = v + n, ln + n
            elif x < .9:
                n = min(n, ln)
                ops.append("%s %d" % (rng.choice(["popbn", "popfn"]), n))
                ln -= n
            elif x < .95:
                ops.append("set %d %d" % (rng.randrange(ln), v))
                v += 1
            elif x < .96:
                ops.append("clear")
                ln = 0
            else:
                ops.append("iter %d %d" % (rng.randrange(2), ln + 1))
        ops.append(rng.choice(["popbn %d" % ln, "popfn %d" % ln, "clear"]))
        ops += ["popb", "pushf %d" % v]
        cfg = dict(es=(CONF_SIZES if conf else SIZES)[i % (4 if conf else 7)], obs=obs)
        if nodes is None:
            s.add("lst", cfg, ops + ["fin"])
        else:
            s.add("fls", dict(cfg, nodes=nodes, conf=conf), ops + ["fin"])
    return s


SEQ = ["Result", "Contents", "Lengths", "Ends", "Printed", "IterHint"]
RING = ["RingForward", "RingBackward", "RingCount"]


@prop("C06")
def c06(c):
    c.prepare("", "wide", "plain", "tiny")
    s, cov = tour_script(c, 0, c.q(5, 7), "lst", [dict(es=e, obs="cl") for e in SIZES])
    c.conform(s, "TraceList", SEQ + RING, "tour", cover=cov)
    c.conform(random_script(c.rng, c.q(300, 4000), c.q(80, 200), "cl"), "TraceList", SEQ + RING, "random")
    s = scale_script(c.rng, c.q(14, 140), c.q(1500, 5000), "cl")
    s.traces += sized_script(c.rng, c.q(40, 400), c.q(2100, 9000), "cl").traces
    c.conform(s, "TraceList", SEQ + RING, "scale")
    c.variants([random_script(c.rng, c.q(60, 600), c.q(80, 200), "cl")], c.q(60, 600), "TraceList", SEQ + RING)


def fixed_sets(c, obs):
    for conf in (0, 1):
        for n, m in c.q([(1, 3), (2, 4), (3, 5)], [(1, 4), (2, 5), (3, 6)]):
            sz = CONF_SIZES if conf else SIZES
            s, cov = tour_script(c, n, m, "fls", [dict(es=e, obs=obs, nodes=n, conf=conf) for e in sz],
                                 limit=c.q(8000, 80000))
            yield "tour%d%s" % (n, "c" if conf else ""), s, cov, conf
        yield "random" + ("c" if conf else ""), fixed_random(c.rng, c.q(200, 1500), c.q(80, 200), obs, conf), None, conf
        s = scale_script(c.rng, c.q(14, 140), c.q(60, 80), obs, 33, conf)
        s.traces += scale_script(c.rng, c.q(5, 50), 700, obs, 300, conf).traces
        s.traces += sized_script(c.rng, c.q(10, 100), 600, obs, kind="fls", nodes=300, conf=conf).traces
        yield "scale" + ("c" if conf else ""), s, None, conf


@prop("C17")
def c17(c):
    invs = SEQ + RING + ["Nodes", "Apart", "Place", "Asked", "GivenBack", "MemErrs"]
    c.prepare("", "nightly", "wide", "plain", "tiny")
    done, jobs = [], []
    for label, s, cov, conf in fixed_sets(c, "clm"):
        jobs.append(("TraceList", invs, c.run(s, label, conf and "nightly" or ""), s, label, dict(cover=cov)))
        if not conf:
            done.append(s)
    c.judges(jobs)
    c.variants(done, c.q(100, 1000), "TraceList", invs)
