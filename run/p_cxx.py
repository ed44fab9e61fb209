"""C25: containers that C++ built are continued correctly; growth of C++'s hash tables (for C09)."""
import itertools
from core import *
import p_vector, p_deque, p_list, p_hash, p_vmap, p_fvector, p_pool

# EASTL's primes, from the specification
PRIMES = [int(x) for x in re.findall(r"\d+", re.search(r"Primes == <<(.*?)>>", open(os.path.join(SPEC, "PrimePolicy.tla")).read(), re.S)[1])]
LARGE = [tuple(map(int, x)) for x in re.findall(r"<<(\d+), (\d+)>>", open(os.path.join(SPEC, "PrimePolicy.tla")).read())]
FRESH = {"new", "default", "newin", "withcap", "fromslice", "frommut", "fromin", "fromarr", "fromarrref", "fromiter", "drop"}


def vals(rng, n):
    v = rng.randrange(1000) * 100 + 100000
    return [v + i for i in range(n)]


def line(op, *a):
    return " ".join([op] + [str(x) for y in a for x in (y if isinstance(y, (list, tuple)) else [y])])


def vector(rng, cfg, n=None):
    n = rng.choice([0, 0, 1, 2, 3, 4, 7, 20]) if n is None else n
    return line("adopt", n + rng.choice([0, 0, 1, 2, 3, 8, 31]), vals(rng, n))


def deque(rng, cfg, n=None, off=None, front=None):
    b = p_deque.BLK[cfg["es"]]
    n = rng.choice([0, 0, 1, 2, b - 1, b, b + 1, 3 * b, rng.randrange(4 * b)]) if n is None else n
    off = rng.choice([0, 0, 1, b - 1, b - 2, rng.randrange(b)]) % b if off is None else off
    used = (off + n) // b + 1
    front = rng.choice([0, 0, 1, 2, 3, 6, 7]) if front is None else front
    back = max(rng.choice([0, 0, 1, 2, 3, 6]), 8 - used - front)
    return line("adopt", used + front + back, front, off, vals(rng, n))


def lst(rng, cfg, n=None):
    """Own nodes in use and free in any places; other nodes only once the own ones had all been handed out."""
    own = cfg.get("nodes", 0)
    n = rng.choice([0, 0, 1, 2, 3, 5, own, own + 1]) if n is None else n
    used = rng.choice([own, own, rng.randrange(own + 1)])
    mine = rng.randrange(min(used, n) + 1)
    if n - mine > 0 and own and used < own:
        if n <= used:
            mine = n
        else:
            used = own
            mine = min(n, rng.choice([own, rng.randrange(own + 1)]))
    where = [1] * mine + [0] * (n - mine)
    rng.shuffle(where)
    return line("adopt", used, rng.randrange(1 << 20), [x for p in zip(vals(rng, n), where) for x in p])


def table(rng, cfg, kind, n=None, bc=None):
    u = cfg["u"]
    n = min(u, rng.choice([0, 1, 2, 3, u // 2, u])) if n is None else n
    if bc is None:
        bc = rng.choice([b for b in PRIMES if b >= max(2, n)][:12] + [max(2, n), max(2, n) + 1, 4, 10] * 2 + [1])
        if bc < n or (bc == 1 and n):
            bc = max(2, n)
    keys = [k + 1000 * rng.choice([0, 0, 1, 3]) for k in rng.sample(range(u), n)]
    nr = 0 if bc == 1 else rng.choice([0, bc, bc, rng.randrange(bc + 1)])
    return line("adopt", bc, nr, rng.randrange(2), [x for k, v in zip(keys, vals(rng, n)) for x in ([k, v] if kind == "hm" else [k])])


def vmap(rng, cfg, n=None):
    u = cfg["u"]
    n = min(u, rng.choice([0, 1, 2, 3, u // 2, u])) if n is None else n
    o = {0: lambda k: k, 1: lambda k: -k, 2: lambda k: (k % 3, k)}[cfg["cmp"]]
    keys = [k + 1000 * rng.choice([0, 0, 1, 3]) for k in sorted(rng.sample(range(u), n), key=o)]
    return line("adopt", n + rng.choice([0, 0, 1, 2, 8]), [x for p in zip(keys, vals(rng, n)) for x in p])


def fvector(rng, cfg, n=None):
    c = cfg["cap"]
    n = rng.choice([0, 0, 1, c - 1, c, c, c + 1, 2 * c, 3 * c]) if n is None else n
    return line("adopt", rng.choice([c, c, c + 1, 2 * c, 2 * c + 3]) if n <= c else n + rng.choice([0, 0, 1, c, 8]), vals(rng, n))


MAKE = {"vec": vector, "deq": deque, "que": deque, "lst": lst, "fls": lst, "fv": fvector, "vm": vmap,
        "hm": lambda r, c, n=None: table(r, c, "hm", n), "hs": lambda r, c, n=None: table(r, c, "hs", n)}


def adopted(s, rng, p=.5):
    """The same histories, on objects that C++ built instead of fresh ones."""
    r = Script()
    for kind, cfg, ops in s.traces:
        if kind not in MAKE:
            continue
        make, out = MAKE[kind], []
        for i, o in enumerate(ops):
            t = o.split()
            if i == 0:
                # as many elements as the history expects, more often than not
                k = 0
                if t[0].startswith("from"):
                    k = len(t) - 1 - (t[0] == "fromiter")
                    k = len({int(x) % 1000 for x in t[1 + (t[0] == "fromiter")::2 if kind in ("vm", "hm") else 1]}) if kind in ("vm", "hm", "hs") else k
                    k = min(k, cfg["u"]) if "u" in cfg else k
                out.append(make(rng, cfg, k if t[0] in FRESH and rng.random() < .6 else None))
                if t[0] in FRESH:
                    continue
            elif t[0] in FRESH and rng.random() < p:
                o = make(rng, cfg)
            out.append(o)
        r.traces.append((kind, cfg, out))
    return r


def deque_grid(rng, obs, sizes=(40,)):
    """Every first position, every place in the pointer array, several lengths; then a few steps in each direction."""
    s = Script()
    for es in sizes:
        b = p_deque.BLK[es]
        for front in range(9):
            for off in range(b):
                for n in (0, 1, b - 1, b, b + 1, 2 * b):
                    for q in (0, 1):
                        cfg = dict(es=es, obs=obs)
                        h = p_deque.H(rng, bool(q))
                        h.ops.append(deque(rng, cfg, n, off, front))
                        h.ln = n
                        steps = [h.pushb, h.pushf, h.popf, h.popb, h.remove, h.iterate, h.write]
                        w = rng.choice([[8, 1, 1, 1, 1, 1, 1], [1, 8, 1, 1, 1, 1, 1], [1, 1, 6, 1, 1, 1, 0], [1, 1, 1, 6, 1, 1, 0], [1] * 7])
                        for f in rng.choices(steps, w, k=rng.choice([2, 8, 14])):
                            f()
                        s.add("que" if q else "deq", cfg, h.done())
    return s


def list_grid(rng, obs, conf, top):
    """Every choice of own nodes used, of where each element lives; then drain, refill and overflow."""
    s = Script()
    for own in range(1, top + 1):
        for used in range(own + 1):
            for n in range(own + 2):
                for wh in itertools.product((0, 1), repeat=n):
                    if sum(wh) > used or (used < own and 0 in wh):
                        continue
                    ops = [line("adopt", used, rng.randrange(1 << 20), [x for p in zip(vals(rng, n), wh) for x in p])]
                    for _ in range(rng.randrange(n + 2)):
                        ops.append(rng.choice(["popb", "popf"]))
                    ops += ["%s %d" % (rng.choice(["pushb", "pushf"]), 50 + i) for i in range(own + 2)]
                    ops += rng.choice([["popb", "popf"], ["clear"], ["popf"] * (own + 2), []])
                    ops += ["%s %d" % (rng.choice(["pushb", "pushf"]), 90 + i) for i in range(rng.randrange(own + 2))]
                    sz = p_list.CONF_SIZES if conf else p_list.SIZES
                    s.add("fls", dict(es=rng.choice(sz), obs=obs, nodes=own, conf=conf), ops + ["fin"])
    return s


def hash_grid(rng, obs, kind, counts):
    """Every bucket count, empty to full, under every hash function."""
    s = Script()
    for bc in counts:
        for mode in range(8):
            for n in sorted({0, 1, bc // 2, bc - 1, bc} & set(range(0, 60))):
                if bc == 1 and n:
                    continue
                u = max(6, n + 4)
                cfg = dict(es=rng.choice(p_hash.SIZES), obs=obs, h=mode, u=u, custom=rng.randrange(2), every=1 if u < 20 else 3)
                ops = p_hash.random_history(rng, kind, 14 + bc // 4, u)
                s.add(kind, cfg, [table(rng, cfg, kind, n, bc)] + ops[1:])
    return s


def pools(rng, k, steps):
    s = Script()
    for _ in range(k):
        sz, al, off, ln = p_pool.geometry(rng)
        mode = rng.choice([0, 1, 2, 3])
        fit = max(0, (ln - (-off) % al) // sz)
        ops = []
        held, up = 0, .7
        for _ in range(steps if fit < 10 else 2 * fit):
            if not ops or rng.random() < .03:
                used = rng.randrange(fit + 1)
                keep = rng.sample(range(used), rng.randrange(used + 1))
                if ops:         # everything goes back before the pool is set up anew
                    ops += ["free 0"] * held
                ops.append(line("adopt", used, rng.randrange(1 << 20), keep))
                held = len(keep)
            if rng.random() < .1:
                up = rng.choice([.3, .5, .8])
            if held == 0 or rng.random() < up:
                ops.append("alloc")
                held += 1 if mode or held < fit else 0
                if held > fit + 6:
                    up = .3
            else:
                ops.append("free %d" % rng.choice([0, held - 1, rng.randrange(held)]))
                held -= 1
        s.add("pool", dict(ov=mode, sz=sz, al=al, off=off, len=ln), ops)
    return s


def growth(c, top):
    """Tables that C++ set up: every prime up to `top` as the next bucket count; other load and growth factors."""
    rng, s = c.rng, Script()
    ps = [p for p in PRIMES if p <= top]
    ops = []
    for q, p in zip([1] + ps, ps):
        for t in sorted({q + 1, p, rng.randrange(q + 1, p + 1)}):
            if t > 2:
                # f32 has the half of an even number, or of a small one
                t += t & 1 and t > 1 << 23 and t != p
                if t > 1 << 23 and t & 1:
                    continue
                ops += ["adopt 2 1 1 %d 2 0" % t, rng.choice(["fill 3", "entfill 3"])]
    for i in range(0, len(ops), 40):
        s.add("hg", dict(step=rng.choice([1, 7]), cpu=600), ops[i:i + 40])
    # the larger ones are only asked for
    big = PRIMES + [(h << 16) + l for h, l in LARGE]
    ops = []
    for q, p in zip(big, big[1:]):
        if p > 140000:
            g = 1 << max(0, p.bit_length() - 24)      # what an f32 can tell apart
            for t in {-(-(q + 1) // g) * g, p // g * g, -(-rng.randrange(q + 1, p + 1) // g) * g}:
                if q < t <= p:
                    ops.append("probe %d %d" % (t >> 16, t & 65535))
    for i in range(0, len(ops), 40):
        s.add("hg", dict(step=1), ops[i:i + 40])
    facs = [(1, 1), (1, 2), (3, 4), (2, 1), (5, 4), (1, 16), (3, 1), (7, 8)]
    grow = [(2, 1), (3, 2), (5, 4), (3, 1), (1, 1), (9, 8), (4, 1)]
    for ln, ld in facs:
        for gn, gd in grow:
            ops = []
            for bc in (1, 2, 5, rng.choice(PRIMES[:40]), rng.choice([4, 6, 10, 50, 100])):
                full = -(-bc * ln // ld)
                for nr in ({0} if bc == 1 else {0, full, rng.randrange(full + 1), full + rng.randrange(9)}):
                    ops.append("adopt %d %d %d %d %d %d" % (bc, ln, ld, gn, gd, nr))
                    k = 3 * full + 12
                    for _ in range(rng.randrange(1, 5)):
                        ops.append(rng.choice(["fill %d", "entfill %d"]) % rng.randrange(1, k))
                    if rng.random() < .4:
                        ops += ["clear", "fill %d" % rng.randrange(1, k)]
            s.add("hg", dict(step=rng.choice([1, 7, 1000003])), ops)
    return s


INV = {
    "vec": ("TraceVector", ["Result", "Contents", "Lengths", "Printed", "CloneContents", "IterRemaining", "IterHint", "Capacity",
                            "CloneCapacity", "Full", "Image", "Stable"]),
    "deq": ("TraceDeque", p_deque.SEQ + p_deque.IMG),
    "que": ("TraceDeque", p_deque.QUE + p_deque.IMG),
    "lst": ("TraceList", p_list.SEQ + p_list.RING),
    "fls": ("TraceList", p_list.SEQ + p_list.RING + ["Nodes", "Apart", "Place", "Asked", "GivenBack", "MemErrs"]),
    "hash": ("TraceHash", ["IterHint"] + p_hash.MAP + p_hash.IMAGE),
    "vm": ("TraceVMap", p_vmap.VM),
    "fv": ("TraceFVector", p_fvector.INVS),
    "pool": ("TracePool", ["Result", "Truthful", "Overflow", "Intact", "Contained", "Disjoint", "Capacity"]),
}


def histories(c):
    """(group, script): for each container, histories on objects of C++ and on what became of them."""
    rng = c.rng
    o = "clmo"

    def cut(s, k):
        s.traces = rng.sample(s.traces, min(k, len(s.traces)))
        return s
    s = p_vector.random_script(rng, c.q(250, 3000), c.q(50, 120), p_vector.SIZES + [16, 20, 32], o)
    s.traces += cut(p_vector.iter_script(rng, p_vector.SIZES, c.q(4, 6), o), c.q(150, 2000)).traces
    s.traces += p_vector.scale_script(rng, c.q(3, 30), c.q(600, 5000), p_vector.SIZES, o).traces
    yield "vec", adopted(s, rng)
    s = cut(deque_grid(rng, o, c.q((40,), (40, 32, 20))), c.q(400, 4000))
    s.traces += adopted(p_deque.random_script(rng, c.q(70, 1000), c.q(100, 250), o, every=3), rng).traces
    s.traces += adopted(p_deque.scale_script(rng, c.q(7, 70), c.q(800, 5000), o), rng).traces
    q = Script()
    q.traces = [t for t in s.traces if t[0] == "que"] + adopted(
        p_deque.random_script(rng, c.q(50, 600), c.q(80, 200), o, queue=True, every=3), rng).traces
    s.traces = [t for t in s.traces if t[0] == "deq"]
    yield "deq", s
    yield "que", q
    s = p_list.random_script(rng, c.q(150, 2000), c.q(60, 150), o)
    s.traces += p_list.scale_script(rng, c.q(4, 40), c.q(300, 2000), o).traces
    yield "lst", adopted(s, rng)
    for conf in (0, 1):
        s = cut(list_grid(rng, o, conf, c.q(4, 5)), c.q(350, 4000))
        s.traces += adopted(p_list.fixed_random(rng, c.q(120, 1500), c.q(60, 150), o, conf), rng).traces
        s.traces += adopted(p_list.scale_script(rng, c.q(4, 40), 60, o, 33, conf), rng).traces
        yield "fls" + "c" * conf, s
    s = Script()
    for kind in ("hm", "hs"):
        s.traces += hash_grid(rng, o, kind, c.q([1, 2, 3, 4, 5, 7, 10, 11, 13], [1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 17, 29, 37, 50, 59])).traces
        s.traces += adopted(p_hash.random_script(rng, c.q(100, 1500), c.q(60, 150), kind, o), rng).traces
        s.traces += adopted(p_hash.big_script(rng, c.q(8, 60), c.q(50, 200), kind, o), rng).traces
    yield "hash", s
    s = p_vmap.random_script(rng, c.q(200, 2500), c.q(60, 150), o)
    s.traces += p_vmap.big_script(rng, c.q(4, 40), c.q(40, 150), o).traces
    yield "vm", adopted(s, rng)
    yield "fv", adopted(p_fvector.random_script(rng, c.q(350, 5000), c.q(50, 120), o), rng)
    yield "pool", pools(rng, c.q(300, 4000), c.q(50, 120))


def refit(s):
    """Block positions for the element sizes that the histories now have."""
    for i, (kind, cfg, ops) in enumerate(s.traces):
        if kind in ("deq", "que"):
            b, out = p_deque.BLK[cfg["es"]], []
            for o in ops:
                t = o.split()
                if t[0] == "adopt":
                    n, back, off = len(t) - 4, int(t[1]) - int(t[2]), int(t[3]) % b
                    t[1:4] = [str(int(t[2]) + max(back, (off + n) // b + 1)), t[2], str(off)]
                out.append(" ".join(t))
            s.traces[i] = (kind, cfg, out)
    return s


ACFG = "SPECIFICATION ASpec\nCONSTANTS %s\n Emit = FALSE\nVIEW Shape\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"


def images(c):
    """The structures stay legal from every legal image, not only from those that the code builds."""
    def k(**kw):
        return "\n ".join("%s = %s" % x for x in kw.items())
    jobs = [("MCDeque", ACFG % (k(BL=4, InitP=8, MaxP=c.q(18, 38), Removes="TRUE"), "InArray BlocksLive Count Refines NoStray"), "AnyDeque")]
    for n, m in c.q([(0, 4), (2, 4), (3, 4)], [(0, 5), (3, 5), (4, 5)]):
        jobs.append(("MCList", ACFG % (k(N=n, MaxLen=m), "OwnFirst Ring Where PoolSound"), "AnyList%d" % n))
    jobs.append(("MCVector", ACFG % (k(MaxLen=c.q(4, 6), MaxCap=c.q(8, 10)), "CapCoversLen Refines Owned"), "AnyVector"))
    for i, (ov, ln) in enumerate(c.q([(0, 30), (1, 52)], [(0, 52), (1, 80), (1, 110)])):
        jobs.append(("MCPool", ACFG % (k(Size=24, Align=8, Off=3, Length=ln, Ov=ov, MaxOut=ln // 24 + 2), "Disjoint Capacity Conserved"),
                     "AnyPool%d" % i))
    for mode, u in c.q([(0, 4), (1, 4), (2, 4)], [(0, 5), (1, 5), (2, 5), (5, 5)]):
        jobs.append(("MCHash", ACFG % (k(U=u, Mode=mode, Iters="FALSE", Clones="FALSE"), "Loaded Refine Cursors"), "AnyHash%d" % mode))
    c.models(jobs)


@prop("C25")
def c25(c):
    c.prepare("", "nightly", "wide", "plain", "tiny")
    images(c)
    jobs, groups, every = [], {}, {}
    mem, own = ("TraceMemory", ["MemErrs", "Returned"]), ("TraceOwnership", ["Own", "OwnErrs", "AllGone"])

    def add(g, s, kind, label):
        mod, invs = INV[g]
        jobs.append((mod, invs, c.run(s, label, kind), s, label, {}))
        if g != "pool":
            every.setdefault(kind, Script()).traces.extend(s.traces)
    for g, s in histories(c):
        add(g.rstrip("c") if g == "flsc" else g, s, "nightly" if g == "flsc" else "", g)
        if g not in ("pool", "flsc"):
            groups[g] = s
    for g, s in groups.items():
        runs = []
        for kind in ("wide", "plain", "tiny"):
            v = refit(c.sample([s], c.q(40, 400), kind))
            runs.append((c.run(v, g + " " + kind, kind), v))
            every.setdefault(kind, Script()).traces.extend(v.traces)
        jobs.append((*INV[g], *c.together(runs, g + " variants"), g + " variants", {}))
    runs = [(c.run(s, "all " + kind, kind), s, kind) for kind, s in every.items()]
    jobs.append((*mem, *c.together([r[:2] for r in runs], "memory"), "memory", {}))
    jobs.append((*own, *c.together([r[:2] for r in runs if r[2] != "plain"], "elements"), "elements", {}))
    c.judges(jobs)
