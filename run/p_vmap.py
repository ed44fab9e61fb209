"""C12: the vector map; its part of C11."""
from core import *
import p_hash

VALS = {"insert": [1], "getset": [1], "entocc": [1], "entvin": [1], "entvinset": [1, 2]}
p_hash.KEYED |= {"entq", "entocc", "entvin", "entvinset"}
MCCFG = """SPECIFICATION MSpec
CONSTANTS U = %d
 Ord = %d
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS Refine TotalOrder Ordered
CHECK_DEADLOCK FALSE
"""
SIZES = [4, 8, 12, 16, 20, 40]


def tours(c, u, obs, limit=None, maxlen=200):
    rs = c.models([("MCVMap", MCCFG % (u, o), "MCVMap%d_%d" % (u, o)) for o in (0, 1, 2)])
    s, cov = Script(), dict(model_transitions=0, transitions_covered=0)
    for o, r in enumerate(rs):
        walks, tot, got = tour(edges_of(r), "[]", maxlen, c.rng, limit)
        cov["model_transitions"] += tot
        cov["transitions_covered"] += got
        for i, wk in enumerate(walks):
            s.add("vm", dict(es=SIZES[i % len(SIZES)], obs=obs, cmp=o, u=u + 2),
                  [p_hash.alias(x, c.rng) for x in subst(wk, VALS)] + ["fin"])
    return s, cov


def random_history(rng, n, u, entries=True, fill=None):
    v = [0]

    def val():
        v[0] += 1
        return str(v[0])

    def key():
        return str(rng.randrange(u) + (1000 * rng.randrange(4) if rng.random() < .4 else 0))

    def ps(k):
        return " ".join(key() + " " + val() for _ in range(k))

    def ctor():
        o = rng.choice(["new", "default", "newin", "withcap", "fromslice", "frommut", "fromarr", "fromarrref", "fromiter"])
        if o == "withcap":
            return "withcap %d" % rng.randrange(9)
        if o in ("fromslice", "frommut"):
            return (o + " " + ps(rng.randrange(2 * u))).strip()
        if o.startswith("fromarr"):
            return (o + " " + ps(rng.choice([0, 1, 2, 3, 4, 5, 8]))).strip()
        if o == "fromiter":
            return ("fromiter %d " % rng.randrange(2) + ps(rng.randrange(2 * u))).strip()
        return o
    ops = [ctor()]
    if fill:
        ks = rng.sample(range(u), fill)
        o = rng.choice(["fromslice", "frommut", "fromiter 0", "fromiter 1"])
        ops = [o + " " + " ".join("%d %s" % (k, val()) for k in ks)]
    up = .6
    while len(ops) < n:
        x = rng.random()
        if rng.random() < .04:
            up = rng.choice([.2, .5, .7, .9])
        if x < .5:
            if rng.random() < up:
                ops.append("insert " + key() + " " + val())
            else:
                ops.append(rng.choice(["remove ", "removeent "]) + key())
        elif x < .65:
            o = rng.choice(["get", "getmut", "getset", "has"])
            ops.append(o + " " + key() + (" " + val() if o == "getset" else ""))
        elif x < .66:
            ops.append("clear")
        elif x < .69:
            ops.append(rng.choice(["drop", ctor(), ctor()]))
        elif entries:
            o, k = rng.choice([("entq", 0), ("entocc", 1), ("entvin", 1), ("entvinset", 2)])
            ops.append(" ".join([o, key()] + [val() for _ in range(k)]))
    return ops + ["fin"]


def random_script(rng, k, n, obs):
    s = Script()
    for i in range(k):
        u = rng.choice([3, 6, 12, 24, 40])
        s.add("vm", dict(es=SIZES[i % len(SIZES)], obs=obs, cmp=rng.randrange(3), u=u, every=1 if u < 20 else 3),
              random_history(rng, n, u))
    return s


def big_script(rng, k, n, obs):
    s = Script()
    for i in range(k):
        u = [90, 260, 430, 900, big_size(rng, 2100) + 5, big_size(rng, 2100) + 5][i % 6]
        s.add("vm", dict(es=SIZES[i % len(SIZES)], obs=obs, cmp=rng.randrange(3), u=u, every=10),
              random_history(rng, n, u, fill=rng.randrange(u // 2, u)))
    return s


def dup_grid(limit, rng):
    """Every construction from up to four pairs over three keys, in each way there is."""
    import itertools
    s = Script()
    ops = []
    for n in range(5):
        for ks in itertools.product(range(3), repeat=n):
            for how in ("fromslice", "frommut", "fromarr", "fromarrref", "fromiter 0", "fromiter 1"):
                ops.append((how + " " + " ".join("%d %d" % (k + 1000 * (i % 3), i + 1) for i, k in enumerate(ks))).strip())
    if limit and len(ops) > limit:
        ops = rng.sample(ops, limit)
    for i in range(0, len(ops), 40):
        s.add("vm", dict(es=8, obs="c", cmp=0, u=5), ops[i:i + 40])
    return s


VM = ["Result", "Lengths", "Room", "Lookup", "Member", "Slice", "Printed"]


@prop("C12")
def c12(c):
    c.prepare("", "wide", "plain", "tiny")
    s, cov = tours(c, c.q(6, 8), "c", limit=c.q(6000, 60000))
    s.traces += random_script(c.rng, c.q(300, 3000), c.q(80, 200), "c").traces
    s.traces += big_script(c.rng, c.q(24, 120), c.q(60, 200), "c").traces
    s.traces += dup_grid(None, c.rng).traces
    c.conform(s, "TraceVMap", VM, "histories", cover=cov)
    c.variants([s], c.q(150, 1500), "TraceVMap", VM)


@prop("C11")
def c11(c):
    p_hash.merged(c, p_hash.sets(c, "hm", "c", 0, c.q(5, 6), c.q(4, 5)), "TraceHash", p_hash.MAP, "hash-maps")
    s, cov = tours(c, c.q(5, 7), "c", limit=c.q(4000, 60000))
    s.traces += random_script(c.rng, c.q(200, 2000), c.q(80, 200), "c").traces
    s.traces += big_script(c.rng, c.q(12, 120), c.q(60, 200), "c").traces
    c.conform(s, "TraceVMap", VM, "vector-maps", cover=cov)
