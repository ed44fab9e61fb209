"""C07: the hash map; C08: the hash set; C09: the table image; C10: iteration; C11: entries (of the hash map)."""
from core import *

VALS = {"insert": [1], "entins": [1], "entinsset": [1, 2], "entwith": [1], "entmod": [1], "entmodins": [1, 2],
        "getset": [1], "inextset": [0]}
KEYED = {"insert", "get", "getmut", "getset", "has", "remove", "removeent", "entdrop", "entins", "entinsset", "entwith",
         "entmod", "entmodins"}
MCCFG = """SPECIFICATION MSpec
CONSTANTS U = %d
 Mode = %d
 Iters = %s
 Clones = %s
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS LoadBounded Refine Cursors
CHECK_DEADLOCK FALSE
"""
INIT = "[[[]], [], []]"
SIZES = [4, 8, 12, 16, 20, 40]
MODES = [0, 1, 2, 3, 5, 7]


def alias(op, rng):
    """Use an equal but distinguishable key now and then."""
    t = op.split()
    if t[0] in KEYED and rng.random() < .5:
        t[1] = str(int(t[1]) + 1000 * rng.randrange(1, 5))
    return " ".join(t)


def as_set(ops):
    m = {"insert": lambda t: "insert " + t[1], "entins": lambda t: "insert " + t[1], "getset": lambda t: "get " + t[1],
         "entdrop": lambda t: "has " + t[1], "entinsset": lambda t: "insert " + t[1], "entwith": lambda t: "insert " + t[1],
         "entmodins": lambda t: "insert " + t[1], "entmod": lambda t: "get " + t[1], "removeent": lambda t: "remove " + t[1],
         "itnew": lambda t: "itnew 0", "inextset": lambda t: "inext"}
    return [m.get(o.split()[0], lambda t: " ".join(t))(o.split()) for o in ops]


def mut_iter(ops, rng):
    """Where the iterator is a mutable one, write through it now and then."""
    out, mut, v = [], False, 70000
    for o in ops:
        if o.startswith("itnew"):
            mut = o.endswith("1")
        if o.startswith("icompat"):
            mut = mut and o.endswith("0")
        if o == "inext" and mut and rng.random() < .6:
            v += 1
            o = "inextset %d" % v
        out.append(o)
    return out


def tours(c, uses, iters, kind, obs, limit=None, maxlen=200):
    """One set of histories per (hash function, key universe), covering every transition of each model."""
    clones = iters and kind == "hm"
    rs = c.models([("MCHash", MCCFG % (u, mode, str(bool(iters)).upper(), str(bool(clones)).upper()),
                    "MCHash%d_%d_%d%s" % (u, mode, iters, kind)) for mode, u in uses])
    for (mode, u), r in zip(uses, rs):
        walks, tot, got = tour(edges_of(r), INIT, maxlen, c.rng, limit)
        s = Script()
        for i, wk in enumerate(walks):
            ops = [alias(o, c.rng) for o in subst(wk, VALS)]
            ops = mut_iter(ops, c.rng) if kind == "hm" else as_set(ops)
            s.add(kind, dict(es=SIZES[i % len(SIZES)], obs=obs, h=mode, u=u + 2, custom=i % 2), ops + ["fin"])
        yield "tour%d" % mode, s, dict(model_transitions=tot, transitions_covered=got)


def random_history(rng, kind, n, u, iters=True, entries=True, fill=None):
    v = [0]
    keys = list(range(u))

    def val():
        v[0] += 1
        return str(v[0])

    def key():
        k = rng.choice(keys) if rng.random() < .8 else rng.choice(keys[:max(1, u // 4)])
        return str(k + (1000 * rng.randrange(4) if rng.random() < .4 else 0))
    mp = kind == "hm"
    ops = [rng.choice(["new", "default", "newin"])]
    if rng.random() < .4:
        k = rng.randrange(u + 2)
        ops = [("fromiter %d %s" % (rng.randrange(2), " ".join(key() + (" " + val() if mp else "") for _ in range(k)))).strip()]
    if fill:  # a large table from the start: the keys in some order
        rng.shuffle(keys)
        ops = ["fromiter %d %s" % (rng.randrange(2), " ".join("%d%s" % (k, " " + val() if mp else "") for k in keys[:fill]))]
    up = .6
    while len(ops) < n:
        x = rng.random()
        if rng.random() < .04:
            up = rng.choice([.2, .5, .7, .9])
        if x < .5:
            if rng.random() < up:
                ops.append("insert " + key() + (" " + val() if mp else ""))
            else:
                ops.append(rng.choice(["remove ", "removeent "] if mp else ["remove "]) + key())
        elif x < .62:
            o = rng.choice(["get", "getmut", "getset", "has"] if mp else ["get", "has"])
            ops.append(o + " " + key() + (" " + val() if o == "getset" else ""))
        elif x < .63:
            ops.append("clear")
        elif x < .64:
            ops.append(rng.choice(["drop", "newin", "new", "default"]))
        elif x < .82 and mp and entries:
            o, k = rng.choice([("entdrop", 0), ("entins", 1), ("entinsset", 2), ("entwith", 1), ("entmod", 1), ("entmodins", 2)])
            ops.append(" ".join([o, key()] + [val() for _ in range(k)]))
        elif x < .88 and iters:
            ops.append("itnew %d" % (rng.randrange(2) if mp else 0))
            mut = mp and ops[-1].endswith("1")
            two = False
            for _ in range(rng.randrange(min(u, 40) + 2)):
                y = rng.random()
                if y < .7:
                    ops.append("inextset " + val() if mut and rng.random() < .5 else "inext")
                elif y < .8:
                    k = rng.randrange(3) if mp else 0
                    ops.append("icompat %d" % k)
                    mut = mut and k == 0
                elif y < .9 and mp:
                    if two and rng.random() < .6:
                        ops.append("iswap")
                    else:
                        ops.append("iclone")
                        two = True
                    mut = False
                elif mp:
                    ops.append("inth %d" % rng.choice([0, 1, 2, rng.randrange(u + 1)]))
            if two:
                ops += ["irest", "iswap", rng.choice(["irest", "idrop"]), "idrop2"]
            else:
                ops.append(rng.choice(["irest", "irest", "idrop", "icount", "ilast"]))
    return ops + ["fin"]


def random_script(rng, k, n, kind, obs, **kw):
    s = Script()
    for i in range(k):
        u = rng.choice([3, 6, 12, 24, 40])
        s.add(kind, dict(es=SIZES[i % len(SIZES)], obs=obs, h=rng.randrange(8), u=u, custom=rng.randrange(2),
                         every=1 if u < 20 else 3), random_history(rng, kind, n, u, **kw))
    return s


def big_script(rng, k, n, kind, obs, top=600, **kw):
    """Tables of hundreds of entries, with short and with very long chains."""
    s = Script()
    for i in range(k):
        u = [90, 260, 430, 700, big_size(rng, top) + 5, big_size(rng, 600) + 5][i % 6]
        s.add(kind, dict(es=SIZES[i % len(SIZES)], obs=obs, h=[0, 1, 4, 2, 6, 3, 5, 7][(i // 2) % 8], u=u, custom=rng.randrange(2), every=25),
              random_history(rng, kind, n, u, fill=rng.randrange(u // 2, u), **kw))
    return s


def sets(c, kind, obs, iters, u_id, u_col):
    """Tours of the model under several hash functions, then random histories."""
    yield from tours(c, [(0, u_id), (1, u_col), (2, u_col), (3, u_col), (5, u_col), (7, u_id)], iters, kind, obs,
                     limit=c.q(4000, 60000))
    yield "random", random_script(c.rng, c.q(200, 2500), c.q(80, 200), kind, obs), None
    yield "big", big_script(c.rng, c.q(24, 120), c.q(100, 300), kind, obs, 600 if iters else c.q(2100, 5000)), None


def merged(c, gen, module, invs, label="histories"):
    s, cov = Script(), {}
    for label, sc, cv in gen:
        s.traces += sc.traces
        if cv:
            for k in cv:
                cov[k] = cov.get(k, 0) + cv[k]
    c.conform(s, module, invs, label, cover=cov)
    return s


MAP = ["Result", "Lengths", "Lookup", "Member", "Whole", "Printed"]
IMAGE = ["Count", "Buckets", "ArrayFits", "Marker", "Placed"]


@prop("C07")
def c07(c):
    c.prepare("", "wide", "plain", "tiny")
    s = merged(c, sets(c, "hm", "c", 0, c.q(6, 7), c.q(5, 6)), "TraceHash", MAP)
    c.variants([s], c.q(100, 1000), "TraceHash", MAP)


@prop("C08")
def c08(c):
    c.prepare("", "wide", "plain", "tiny")
    s = merged(c, sets(c, "hs", "c", 0, c.q(6, 7), c.q(5, 6)), "TraceHash", MAP)
    c.variants([s], c.q(100, 1000), "TraceHash", MAP)


@prop("C09")
def c09(c):
    c.prepare("", "wide", "plain", "tiny")
    merged(c, sets(c, "hm", "cl", 0, c.q(6, 7), c.q(5, 6)), "TraceHash", ["Result", "Lengths"] + IMAGE)
    merged2 = random_script(c.rng, c.q(150, 1500), c.q(80, 200), "hs", "cl")
    c.conform(merged2, "TraceHash", ["Result", "Lengths"] + IMAGE, "sets")
    w = random_script(c.rng, c.q(60, 600), c.q(80, 200), "hm", "cl")
    w.traces += c.rng.sample(merged2.traces, c.q(30, 300))
    c.variants([w], c.q(90, 900), "TraceHash", ["Result", "Lengths"] + IMAGE)
    s = Script()
    for step in (1, 3, 1000003):
        s.add("hg", dict(step=step, cpu=600), c.q(["fill 3000", "drain 2500", "entfill 9000", "clear", "fill 60000", "drain 500",
                                             "entfill 1000"],
                                            ["fill 3000", "drain 2500", "entfill 9000", "clear", "fill 100000",
                                             "entfill 3000000"]))
    for k in range(1, 60):
        s.add("hg", dict(step=k), ["fill 1", "entfill %d" % k, "fill %d" % (k * 7), "drain %d" % (k * 5), "fill %d" % (k * 9),
                                   "clear", "entfill %d" % (k * 30)])
    import p_cxx
    s.traces += p_cxx.growth(c, c.q(1 << 21, 1 << 26)).traces
    c.conform(s, "TraceGrow", ["Growth", "Asked", "Count", "Marker", "Entries"], "growth")


@prop("C10")
def c10(c):
    merged(c, sets(c, "hm", "c", 1, c.q(5, 5), c.q(4, 5)), "TraceHash", MAP + ["IterHint"], "maps")
    merged(c, sets(c, "hs", "c", 1, c.q(5, 6), c.q(4, 5)), "TraceHash", MAP + ["IterHint"], "sets")
