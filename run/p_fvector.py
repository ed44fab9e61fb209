"""C15: the fixed vector."""
from core import *
import p_vector

VALS = {"push": [0], "insert": [1], "set": [1], "append": "all", "assign": "all"}
MCCFG = """SPECIFICATION MSpec
CONSTANTS N = %d
 MaxLen = %d
 MaxCap = %d
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS InlineIsN NeverBelowN Refines OverIsElsewhere PoolIsMine Freed
PROPERTIES SpillsOnlyForRoom
CHECK_DEADLOCK FALSE
"""
INVS = ["Result", "Contents", "Lengths", "Printed", "CloneContents", "MaxSize", "Overflow", "Placed", "Capacity",
        "Blocks", "NoRequest", "Guard"]
SIZES = [4, 8, 12, 16, 20, 32, 40]


def tours(c, obs="c", sizes=None):
    s, cov = Script(), dict(model_transitions=0, transitions_covered=0)
    ns = [1, 2, 3] if not THOROUGH else [1, 2, 3, 4, 7]
    rs = c.models([("MCFVector", MCCFG % (n, min(2 * n + 2, 9), 4 * n + 1), "MCFVector%d" % n) for n in ns])
    k = 0
    for n, r in zip(ns, rs):
        walks, tot, got = tour(edges_of(r), "[0, %d, 0, 1]" % n, 150, c.rng, c.q(15000, 200000))
        cov["model_transitions"] += tot
        cov["transitions_covered"] += got
        for wk in walks:
            k += 1
            s.add("fv", dict(cap=n, es=SIZES[k % 7], obs=obs), ["new" if k % 2 else "newin"] + subst(wk, VALS) + ["fin"])
    return s, cov


def history(rng, n, steps, start=0):
    """Vector operations with moves, clears and new objects in between; lengths stay around N."""
    ops, ln, cap, w, v = [rng.choice(["new", "newin"])], 0, n, False, [0]

    def f(k=1):
        r = [str(v[0] + i + 1) for i in range(k)]
        v[0] += k
        return " ".join(r)
    idx = lambda: rng.choice([0, max(0, ln - 1), ln, ln + 1, rng.randrange(ln + 1)])
    if start:
        q = rng.randrange(start + 1)
        ops += [("append " + f(q)).strip(), "append " + f(start - q)]
        ln = start
    up = .6
    while len(ops) < steps:
        if rng.random() < .05:
            up = rng.choice([.3, .6, .8])
        y = rng.random()
        if y < .12:
            ops.append("move")
        elif y < .16:
            ops.append("clear")
            ln = 0
        elif y < .18:
            ops.append(rng.choice(["new", "newin", "drop"]))
            ln = 0
        elif y < .22:
            ops.append(rng.choice(["clone", "dropw"]))
        elif y < .3:
            ops.append(rng.choice(["get %d" % idx(), "swap %d %d" % (idx(), idx()), "set %d %s" % (idx(), f())]))
        elif y < .33:
            ops.append("reserve %d" % rng.choice([0, 0, 1, 2, max(0, n - ln), max(0, n - ln) + 1]))
        elif y < .4:
            q = rng.choice([0, 1, n, n, n + 1, max(0, n - 1), ln])
            ops.append(("assign " + f(q)).strip())
            ln = q
        elif rng.random() < up and ln < 5 * n + 3:
            z = rng.random()
            if z < .5:
                ops.append("push " + f())
                ln += 1
            elif z < .8:
                i = idx()
                ops.append("insert %d %s" % (i, f()))
                ln += i <= ln
            else:
                q = rng.choice([0, 1, 2, max(0, n - ln), max(0, n - ln), max(0, n - ln) + 1])
                ops.append(("append " + f(q)).strip())
                ln += q
        else:
            if rng.random() < .5:
                ops.append("pop")
                ln = max(0, ln - 1)
            else:
                i = idx()
                ops.append("remove %d" % i)
                ln -= i < ln
    ops.append("fin")
    return ops


def random_script(rng, k, steps, obs="c"):
    s = Script()
    for i in range(k):
        n = [1, 2, 3, 4, 7][i % 5] if i % 11 else 33
        s.add("fv", dict(cap=n, es=SIZES[(i // 5) % 7], obs=obs), history(rng, n, steps))
    for i in range(k // 20):
        n = [33, 300][i % 2]
        s.add("fv", dict(cap=n, es=SIZES[(i // 2) % 7], obs=obs, every=1 + n // 50),
              history(rng, n, steps, rng.choice([n - 1, n, n, n + 1, 2 * n, rng.randrange(3 * n)])))
    return s


@prop("C15")
def c15(c):
    c.prepare("", "wide", "plain", "tiny")
    s, cov = tours(c)
    c.conform(s, "TraceFVector", INVS, "tour", cover=cov)
    r = random_script(c.rng, c.q(600, 8000), c.q(60, 120))
    c.conform(r, "TraceFVector", INVS, "random")
    c.variants([s, r], c.q(200, 2000), "TraceFVector", INVS)
