"""C20, C24: maps, sets and fixed maps over red-black trees built by C++ code."""
from core import *

MCCFG = """SPECIFICATION MSpec
CONSTANTS MaxN = %d
 Emit = TRUE
 First = %s
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS Right Moves Depth
CHECK_DEADLOCK TRUE
"""
INVS = ["Result", "Lengths", "Entries", "Printed"]


def images(c):
    """Every red-black tree shape of the model: (root, [(left, right, color)]), in key order."""
    n = c.q(7, 9)
    a, b = c.models([("MCTree", MCCFG % (n, "TRUE"), "MCTree1"), ("MCTree", MCCFG % (c.q(6, 8), "FALSE"), "MCTree2")])
    res = []
    for _, op, args, _ in edges_of(a):
        res.append((args[0], [tuple(args[i + 2:i + 5]) for i in range(1, len(args), 5)]))
    return res


class RB:
    """Red-black insertion, for trees larger than the model's."""

    def __init__(self):
        self.l, self.r, self.p, self.c, self.root, self.key = {0: 0}, {0: 0}, {0: 0}, {0: 1}, 0, {}

    def rot(self, x, a, b):
        y = b[x]
        b[x] = a[y]
        if a[y]:
            self.p[a[y]] = x
        self.p[y] = self.p[x]
        if not self.p[x]:
            self.root = y
        elif self.l[self.p[x]] == x:
            self.l[self.p[x]] = y
        else:
            self.r[self.p[x]] = y
        a[y] = x
        self.p[x] = y

    def insert(self, k):
        z = len(self.key) + 1
        self.key[z] = k
        y, x = 0, self.root
        while x:
            y, x = x, (self.l if k < self.key[x] else self.r)[x]
        self.l[z] = self.r[z] = 0
        self.p[z], self.c[z] = y, 0
        if not y:
            self.root = z
        else:
            (self.l if k < self.key[y] else self.r)[y] = z
        while self.c[self.p[z]] == 0:
            g = self.p[self.p[z]]
            a, b = (self.l, self.r) if self.p[z] == self.l[g] else (self.r, self.l)
            u = b[g]
            if self.c[u] == 0:
                self.c[self.p[z]] = self.c[u] = 1
                self.c[g] = 0
                z = g
            else:
                if z == b[self.p[z]]:
                    z = self.p[z]
                    self.rot(z, a, b)
                self.c[self.p[z]] = 1
                self.c[g] = 0
                self.rot(g, b, a)
        self.c[self.root] = 1


def random_image(rng, n):
    t = RB()
    mode = rng.randrange(3)
    ks = list(range(n))
    if mode == 0:
        rng.shuffle(ks)
    elif mode == 1:
        ks.reverse()
    for k in ks:
        t.insert(k)
    rank = {z: t.key[z] + 1 for z in t.key}
    rank[0] = 0
    nodes = [None] * n
    for z in t.key:
        nodes[rank[z] - 1] = (rank[t.l[z]], rank[t.r[z]], t.c[z])
    return rank[t.root], nodes


def image_args(rng, img, keys, val):
    """Keys in comparator order for an image; the nodes are laid out in memory in a random order."""
    root, nodes = img
    n = len(nodes)
    at = list(range(1, n + 1))
    if rng.random() < .8:
        rng.shuffle(at)          # at[i]: position of the node of rank i + 1
    new = {0: 0}
    for i in range(n):
        new[i + 1] = at[i]
    out = [None] * n
    for i, (l, r, col) in enumerate(nodes):
        out[at[i] - 1] = [keys[i], val(), new[l], new[r], col]
    return [new[root]] + [x for nd in out for x in nd]


def ordered(rng, cmp, n):
    """n keys that are different under the comparator, in its order, with gaps."""
    cl = sorted(rng.sample(range(1, min(490, 2 * n + 3)), n)) if n else []
    if cmp == 2:
        return [2 * x + rng.randrange(2) for x in cl]
    if cmp == 1:
        cl.reverse()
    return cl


def history(rng, imgs, tk, cmp, cap, steps, bigs=()):
    ops, v = [], [0]

    def val():
        v[0] += 1
        return v[0]
    for _ in range(steps):
        ok = [im for im in imgs if tk != 2 or len(im[1]) <= cap]
        im = rng.choice(bigs) if bigs and rng.random() < .5 else rng.choice(ok)
        keys = ordered(rng, cmp, len(im[1]))
        ops.append("build " + " ".join(map(str, image_args(rng, im, keys, val))))
        ops += around(rng, keys, tk, val, rng.choice([2, 6, 12]))
        ops.append(rng.choice(["clear", "clear", "new %d" % rng.randrange(3)]))
        if rng.random() < .3:
            ops += around(rng, [], tk, val, 2)
        if tk == 2 and rng.random() < .4:
            ops.append("room")
    if rng.random() < .6 and ops:
        ops.pop()                # end with a full container
        if ops and ops[-1].split()[0] in ("clear", "new"):
            ops.pop()
    return ops + ["fin"]


def around(rng, keys, tk, val, k):
    """Lookups of every kind of key, writes and iterations."""
    n, r = len(keys), []
    top = (max(keys) if keys else 3) + 2
    for _ in range(k):
        key = rng.choice(keys) if keys and rng.random() < .6 else rng.randrange(top + 1)
        key += 1000 * rng.choice([0, 0, 1])
        m = rng.choice([n + 2, n, n + 1, rng.randrange(n + 2)])
        y = rng.random()
        if tk == 1:
            r.append("has %d" % key if y < .7 else "iter %d" % m)
        elif y < .2:
            r.append("has %d" % key)
        elif y < .45:
            r.append("get %d" % key)
        elif y < .7:
            r.append("set %d %d" % (key, val()))
        elif y < .85:
            r.append("iter %d" % m)
        else:
            r.append("itermut %d %d" % (m, val()))
            for _ in range(m):
                val()
    return r


def every_lookup(rng, img, tk, cmp):
    """Everything that can be asked of one image."""
    v = [0]

    def val():
        v[0] += 1
        return v[0]
    n = len(img[1])
    cl = [2 * i + 2 for i in range(n)]
    keys = [2 * x for x in cl] if cmp == 2 else (cl[::-1] if cmp == 1 else cl)
    ops = ["build " + " ".join(map(str, image_args(rng, img, keys, val)))]
    for k in range(0, (max(keys) if keys else 2) + 3):
        ops.append(("has %d" if tk == 1 or k % 3 == 0 else "get %d") % k)
        if tk != 1 and k in keys:
            ops.append("set %d %d" % (k + rng.choice([0, 1000]), val()))
    if tk != 1:
        ops.append("itermut %d 500" % (n + 1))
        for k in keys:
            ops.append("get %d" % k)
        ops.append("itermut %d 600" % (n // 2))
    ops.append("iter %d" % (n + 3))
    return ops + [rng.choice(["clear", "new 0", "new 1", "fin"])] + ["fin"]


def grids(rng, imgs, obs, tks=(0, 1, 2, 3)):
    s = Script()
    for i, im in enumerate(imgs):
        for tk in tks:
            cap = 5 if len(im[1]) > 2 else rng.choice([2, 5])
            if tk == 2 and len(im[1]) > cap:
                continue
            ops = every_lookup(rng, im, tk, (i + tk) % 3)
            if ops[-2] == "fin":
                ops.pop()
            s.add("tree", dict(tk=tk, cap=cap, cmp=(i + tk) % 3, es=[4, 12, 40][i % 3], ctor=i % 3, obs=obs), ops)
    return s


def randoms(rng, imgs, k, obs, tks=(0, 1, 2, 3), big=40):
    s = Script()
    for i in range(k):
        tk = tks[i % len(tks)]
        cmp, cap = rng.randrange(3), rng.choice([2, 5])
        bigs = [random_image(rng, rng.randrange(8, big)) for _ in range(2)] if tk != 2 and rng.random() < .4 else ()
        s.add("tree", dict(tk=tk, cap=cap, cmp=cmp, es=rng.choice([4, 12, 40]), ctor=rng.randrange(3), obs=obs),
              history(rng, imgs, tk, cmp, cap, rng.randrange(1, 6), bigs))
    return s


def larges(rng, k, obs, tks=(0, 1, 2, 3)):
    """Trees of hundreds of nodes."""
    s = Script()
    for i in range(k):
        tk = tks[i % len(tks)]
        cmp, cap = rng.randrange(3), 40 if tk == 2 else rng.choice([5, 40])
        n = rng.choice([38, 39, 40, rng.randrange(8, 40)]) if tk == 2 or cap == 40 and rng.random() < .3 else rng.randrange(41, 240)
        s.add("tree", dict(tk=tk, cap=cap, cmp=cmp, es=rng.choice([4, 12, 40]), ctor=rng.randrange(3), obs=obs),
              history(rng, [random_image(rng, n)], tk, cmp, cap, 2))
    return s


def sets(c, obs, tks=(0, 1, 2, 3)):
    imgs = images(c)
    few = imgs if THOROUGH else [im for im in imgs if len(im[1]) <= 6] + c.rng.sample(imgs, min(30, len(imgs)))
    yield "every image", grids(c.rng, few, obs, tks)
    s = randoms(c.rng, imgs, c.q(400, 6000), obs, tks)
    s.traces += larges(c.rng, c.q(16, 100), obs, tks).traces
    yield "random", s


@prop("C20")
def c20(c):
    c.prepare("", "wide", "tiny")
    all_ = [(label, s, "") for label, s in sets(c, "com")]
    for kind in ("wide", "tiny"):
        all_.append((kind, c.sample([s for _, s, k in all_ if k == ""], c.q(150, 1500), kind), kind))
    for label, s, kind in all_:
        res = c.run(s, label, kind)
        c.judges([("TraceTree", INVS, res, s, label, {}),
                  ("TraceOwnership", ["Own", "OwnErrs", "AllGone"], res, s, label + " ownership", {}),
                  ("TraceMemory", ["MemErrs", "Returned"], res, s, label + " memory", {})])


@prop("C24")
def c24(c):
    c.prepare("", "wide", "plain", "tiny")
    done = []
    for label, s in sets(c, "cl", (2, 3)):
        c.conform(s, "TraceTree", INVS + ["Placed"], label)
        done.append(s)
    c.variants(done, c.q(150, 1500), "TraceTree", INVS + ["Placed"])
