"""C22: code supplied by the user panics at any of its calls."""
from core import *
import p_vector, p_deque, p_list, p_hash, p_vmap, p_fvector, p_tree

# user code that a container can run into
CALLS = {"vec": ["clone", "drop", "iter"], "fv": ["clone", "drop"], "deq": ["drop", "iter"], "que": ["drop", "iter"],
         "lst": ["drop", "iter"], "fls": ["drop", "iter"], "hm": ["hash", "eq", "drop", "closure", "iter"],
         "hs": ["hash", "eq", "drop", "iter"], "vm": ["cmp", "drop", "clone", "iter"], "tree": ["cmp", "drop"]}
MORE = {"entwith": ["closure"] * 2, "entmod": ["closure"] * 2, "entmodins": ["closure"] * 2, "clear": ["drop"] * 6,
        "drop": ["drop"] * 6, "append": ["clone"] * 3, "assign": ["clone", "drop"] * 2, "clone": ["clone"] * 3,
        "fromslice": ["clone"] * 3, "frommut": ["clone"] * 3, "fromarr": ["clone"] * 3, "fromarrref": ["clone"] * 3,
        "fromin": ["clone"] * 3, "fromiter": ["iter"] * 3, "extend": ["iter"] * 3}
NEVER = {"fin", "inextset", "build", "room", "extref", "itermut"}
TREE_OK = {"has", "get", "set", "iter", "itermut", "clear", "fin"}


def strike(rng, kind, op, k=None):
    o = op.split()[0]
    if o in NEVER and not (o == "inextset" and kind == "deq"):
        return op
    f = rng.choice(CALLS[kind] + MORE.get(o, []))
    if f not in CALLS[kind]:
        f = CALLS[kind][0]
    return "!%s:%d %s" % (f, k or rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8, 12]), op)


def struck(rng, s, density=(.1, .3, .6)):
    """The same histories, with panics."""
    out = Script()
    for kind, cfg, ops in s.traces:
        p = rng.choice(density)
        cfg = dict(cfg, every=1)
        r, spent = [], False
        for o in ops:
            if kind == "tree":
                # an interrupted clear may leave part of the tree; nothing can be linked into it any more
                if spent and o.split()[0] not in TREE_OK:
                    continue
            x = strike(rng, kind, o) if rng.random() < p else o
            if kind == "tree" and x.startswith("!drop") and o == "clear":
                spent = True
            r.append(x)
        out.add(kind, cfg, r)
    return out


def grid(kind, states, ops, after, cfgs, kmax, rng, limit):
    """Every state, every operation, every kind of call, every position of the panic."""
    s = Script()
    cells = [(st, o, f, k) for st in states for o in ops for f in CALLS[kind] for k in range(1, kmax + 1)]
    if limit and len(cells) > limit:
        cells = rng.sample(cells, limit)
    for i, (st, o, f, k) in enumerate(cells):
        s.add(kind, dict(cfgs[i % len(cfgs)], every=1), [*st, "!%s:%d %s" % (f, k, o), *rng.choice(after), "fin"])
    return s


def nums(a, b):
    return " ".join(map(str, range(a, b + 1)))


def grids(c, obs):
    rng = c.rng
    lim = c.q(1500, None)
    # vectors: lengths 0..4, with and without spare room
    sv = [["new"] + ["fromslice " + nums(1, n)] * (n > 0) + extra for n in range(5) for extra in ([], ["reserve 3"], ["clone"])]
    ov = ["append " + nums(50, 50 + k) for k in range(4)] + ["assign " + nums(60, 60 + k) for k in range(6)] + \
        ["append", "assign", "clear", "clone", "drop", "dropw", "fromslice 70 71 72", "frommut 70 71 72", "fromin 70 71",
         "fromarr 70 71 72", "fromarrref 70 71 72", "fromiter 0 70 71 72 73", "fromiter 1 70 71 72 73", "set 0 80", "set 2 80",
         "new", "withcap 2"]
    av = [["push 90", "push 91", "insert 0 92", "pop"], ["clone", "push 90", "dropw"], ["append 90 91", "remove 0"],
          ["assign 90 91 92"], ["clear", "push 90"], ["reserve 2", "insert 0 90"], ["intoiter", "inext", "idrop"]]
    yield "vec", grid("vec", sv, ov, av, [dict(es=e, obs=obs) for e in p_vector.SIZES], 6, rng, lim)
    # consuming iterators: those that go on afterwards, those that end
    si = [["fromslice " + nums(1, n), "intoiter"] + extra for n in (1, 2, 3, 5) for extra in ([], ["inext"], ["inback"])]
    si += [["fromslice 1 2 3", "clone", "reserve 2", "intoiter"]]
    oi = ["%s %d" % (o, n) for o in ("inth", "inthb") for n in range(6)] + ["inext", "inback"]
    ei = ["icount", "ilast", "icollect", "idrop"]
    ai = [["inext", "inback", "inth 0", "idrop"], ["inthb 0", "inext", "icollect"], ["!drop:1 inth 1", "inext"], ["!drop:2 idrop", "push 90"]]
    yield "vec", grid("vec", si, oi, ai, [dict(es=e, obs=obs) for e in p_vector.SIZES], 6, rng, lim and lim // 2)
    yield "vec", grid("vec", si, ei, [["push 90", "pop"], ["append 90 91", "clear"]], [dict(es=e, obs=obs) for e in p_vector.SIZES],
                      6, rng, lim and lim // 5)
    s = Script()
    for cap in (1, 2, 3, 4):
        sf = [["new"] + ["append " + nums(1, n)] * (n > 0) + extra for n in range(6) for extra in ([], ["move"], ["clone"])]
        of = [o for o in ov if not o.startswith("from") and not o.startswith("withcap")]
        af = [x + y for x in av if "intoiter" not in x for y in ([], ["move", "push 95"])]
        s.traces += grid("fv", sf, of, af, [dict(es=e, obs=obs, cap=cap) for e in (4, 12, 40)], 6, rng,
                         lim and lim // 3).traces
    yield "fv", s
    # lists
    sl = [["new"] + ["extend 0 " + nums(1, n)] * (n > 0) for n in range(5)]
    ol = ["clear", "drop", "extend 0 50 51 52 53", "extend 1 50 51 52 53", "setf 60", "setb 60", "set 1 60", "popb", "popf"]
    al = [["pushb 90", "pushf 91", "popb"], ["clear", "pushb 90"], ["extend 0 90 91", "popf"], ["popf", "popb"]]
    yield "lst", grid("lst", sl, ol, al, [dict(es=e, obs=obs) for e in (4, 12, 40)], 6, rng, lim)
    yield "fls", grid("fls", sl, ol, al, [dict(es=e, obs=obs, nodes=n, conf=0) for e in (4, 40) for n in (1, 2, 4)], 6, rng, lim)
    # deques: few elements in one block, elements across a block boundary
    sd = [["new"] + ["pushb %d" % i for i in range(1, n + 1)] + ["popf"] * d for n, d in
          ((0, 0), (1, 0), (3, 0), (4, 1), (5, 2), (9, 0), (9, 3))]
    sd += [x + ["pushf 40", "pushf 41", "pushf 42", "pushf 43", "pushf 44"] for x in sd[:4]]
    od = ["drop", "new", "fromiter 0 " + nums(50, 59), "fromiter 1 " + nums(50, 59), "setf 60", "setb 60", "set 2 60", "popf",
          "popb", "remove 1"]
    ad = [["pushb 90", "pushf 91", "popb"], ["popf", "popb", "pushf 90"], ["itnew 2", "inext", "!drop:2 idrop"],
          ["itnew 2", "inback", "!drop:1 idrop", "pushb 90"]]
    yield "deq", grid("deq", sd, od, ad, [dict(es=e, obs=obs) for e in (40, 40, 12)], 12, rng, lim)
    sq = [x + ["itnew 2"] + y for x in sd for y in ([], ["inext"], ["inback"])]
    aq = [["inext", "inback", "inth 0", "idrop"], ["inthb 0", "inext", "irest"], ["!drop:1 inth 1", "inext"], ["!drop:2 idrop", "pushb 90"]]
    cq = [dict(es=e, obs=obs) for e in (40, 40, 12)]
    yield "deq", grid("deq", sq, oi, aq, cq, 12, rng, lim and lim // 2)
    yield "deq", grid("deq", sq, ["icount", "ilast", "irest", "irestb", "idrop"], [["pushb 90", "popf"], ["pushf 90"]], cq, 12, rng,
                      lim and lim // 5)
    # hash tables: around the first growth steps
    sh = [["new"] + ["insert %d %d" % (k, 10 + k) for k in range(n)] for n in (0, 1, 2, 3, 5, 6, 11, 12)]
    oh = ["insert %d 50" % k for k in (0, 1, 3, 6, 12, 13, 1001)] + \
        ["remove 1", "remove 13", "removeent 1", "get 1", "get 13", "has 1", "getset 1 60", "clear", "drop", "entdrop 1",
         "entdrop 13", "entins 1 61", "entins 13 61", "entwith 1 62", "entwith 13 62", "entmod 1 63", "entmodins 1 64 65",
         "entmodins 13 64 65", "entinsset 1 66 67", "entinsset 13 66 67", "fromiter 0 1 70 2 71 14 72", "fromiter 1 1 70 2 71 1 72"]
    ah = [["insert 14 90", "get 1", "remove 0"], ["clear", "insert 1 90"], ["insert 15 91", "insert 16 92", "insert 17 93"],
          ["entins 13 94", "remove 13"]]
    cf = [dict(es=e, obs=obs + "l", h=h, u=18, custom=k) for e, h, k in ((4, 0, 0), (12, 1, 1), (40, 7, 0), (8, 2, 1), (20, 5, 0))]
    yield "hm", grid("hm", sh, oh, ah, cf, 14, rng, c.q(1800, None))
    s2 = Script()
    t = grid("hm", sh, [o for o in oh if "13" not in o or o.startswith("ins")], ah, cf, 14, rng, c.q(1200, None))
    for kind, cfg, ops in t.traces:
        s2.add("hs", cfg, set_ops(ops))
    yield "hs", s2
    # vector maps
    sm = [["new"] + ["insert %d %d" % (k, 10 + k) for k in range(1, 2 * n, 2)] for n in range(6)]
    om = ["insert %d 50" % k for k in range(0, 8)] + ["remove 1", "remove 2", "removeent 3", "get 1", "get 4", "has 3",
          "getset 1 60", "clear", "drop", "entq 1", "entq 2", "entocc 1 61", "entocc 2 61", "entvin 1 62", "entvin 4 62",
          "entvinset 4 63 64", "fromslice 3 70 1 71 2 72 1 73", "frommut 3 70 1 71 2 72 1 73", "fromarr 3 70 1 71 2 72",
          "fromarrref 3 70 1 71 2 72", "fromiter 0 3 70 1 71 2 72 1 73", "fromiter 1 3 70 1 71 2 72 1 73"]
    am = [["insert 4 90", "get 1", "remove 3"], ["clear", "insert 1 90"], ["insert 0 91", "insert 9 92"], ["entvin 6 94", "remove 6"]]
    yield "vm", grid("vm", sm, om, am, [dict(es=e, obs=obs, cmp=o, u=11) for e in (4, 12, 40) for o in (0, 1, 2)], 10, rng,
                     c.q(1800, None))


def set_ops(ops):
    """Map operations as those of a set."""
    out = []
    for o in ops:
        f = ""
        if o.startswith("!"):
            f, o = o.split(" ", 1)
            if f.startswith("!closure"):
                f = "!drop:1"
            f += " "
        t = o.split()
        if t[0] == "fromiter":
            o = " ".join(t[:2] + t[2::2])
        else:
            o = p_hash.as_set([o])[0]
        out.append(f + o)
    return out


def randoms(c, obs):
    rng, n, m = c.rng, c.q(120, 2500), c.q(50, 120)
    yield "vec", p_vector.random_script(rng, n, m, p_vector.SIZES, obs)
    yield "fv", p_fvector.random_script(rng, n, m, obs)
    yield "deq", p_deque.random_script(rng, c.q(60, 800), m, obs)
    yield "que", p_deque.random_script(rng, c.q(60, 800), m, obs, queue=True)
    yield "lst", p_list.random_script(rng, n, m, obs + "l")
    yield "fls", p_list.fixed_random(rng, n, m, obs + "l")
    yield "hm", p_hash.random_script(rng, n, m, "hm", obs + "l")
    yield "hs", p_hash.random_script(rng, n, m, "hs", obs + "l")
    yield "vm", p_vmap.random_script(rng, n, m, obs)
    imgs = p_tree.images(c)
    s = p_tree.randoms(rng, imgs, c.q(250, 4000), obs)
    s.traces += p_tree.grids(rng, rng.sample(imgs, min(c.q(30, 300), len(imgs))), obs).traces
    yield "tree", s


OWN = ["Own", "OwnErrs", "Reported", "Kept", "AllGone"]
FUN = {
    "PanicVector": (("vec",), ["Contents", "Lengths", "Printed", "CloneContents", "IterRemaining", "Capacity", "CloneCapacity",
                               "Full"]),
    "PanicFVector": (("fv",), ["Contents", "Lengths", "Printed", "CloneContents", "MaxSize", "Overflow", "Capacity",
                               "Guard"]),
    "PanicDeque": (("deq", "que"), ["Contents", "Backward", "Lengths", "FrontElem", "BackElem", "Printed", "InnerContents"]),
    "PanicList": (("lst", "fls"), p_list.SEQ[1:] + p_list.RING),
    "PanicHash": (("hm", "hs"), p_hash.MAP[1:] + ["Count", "PArrayFits", "Marker", "Placed"]),
    "PanicVMap": (("vm",), p_vmap.VM[1:]),
    "PanicTree": (("tree",), ["Lengths", "Entries", "Printed"]),
}


@prop("C22")
def c22(c):
    by = {}
    for kind, s in grids(c, "com"):
        by.setdefault(kind, Script()).traces += s.traces
    for kind, s in randoms(c, "com"):
        by.setdefault(kind, Script()).traces += struck(c.rng, s).traces
    jobs = []
    for mod, (kinds, invs) in FUN.items():
        s = Script()
        for k in kinds:
            s.traces += by[k].traces
        label = "+".join(kinds)
        res = c.run(s, label)
        jobs += [(mod, ["PResult"] + invs, res, s, label, dict(spec="PSpec")),
                 ("TracePanic", OWN, res, s, label + " ownership", {}),
                 ("TraceMemory", ["MemErrs"], res, s, label + " memory", {})]
    c.judges(jobs)
