"""C16: the fixed pools."""
from core import *

MCCFG = """SPECIFICATION MSpec
CONSTANTS Size = %d
 Align = %d
 Off = %d
 Length = %d
 Ov = %d
 MaxOut = %d
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS Disjoint Capacity Conserved
CHECK_DEADLOCK FALSE
"""
NODES = [(8, 8), (16, 8), (24, 8), (40, 8), (32, 16), (32, 32)]


def geometry(rng):
    sz, al = rng.choice(NODES)
    off = rng.choice([0, 0, al, 1, 7, 8, al - 1, al + 1, rng.randrange(64)])
    n = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < .95 else rng.choice([31, 32, 70, 70, 300])
    ln = max(0, n * sz + rng.choice([0, 0, (-off) % al, (-off) % al, 1, -1, sz - 1, rng.randrange(sz)]))
    return sz, al, off, ln


@prop("C16")
def c16(c):
    s, cov = Script(), dict(model_transitions=0, transitions_covered=0)
    jobs = []
    for ov in (0, 1):
        for k in c.q([0, 1, 2, 3], [0, 1, 2, 3, 4]):
            sz, al, off = NODES[(k + ov) % len(NODES)][0], NODES[(k + ov) % len(NODES)][1], [0, 3, 17, 8, 1][k]
            ln = k * sz + (-off) % al + [0, 5, 0, 7, 1][k]
            jobs.append(("MCPool", MCCFG % (sz, al, off, ln, ov, k + 2), "MCPool%d_%d" % (ov, k), (sz, al, off, ln, ov)))
    for r, j in zip(c.models([j[:3] for j in jobs]), jobs):
        sz, al, off, ln, ov = j[3]
        walks, tot, got = tour(edges_of(r), json.dumps([[], [], (-off) % al]), 200, c.rng, c.q(6000, 40000))
        cov["model_transitions"] += tot
        cov["transitions_covered"] += got
        for i, wk in enumerate(walks):
            for mode in ([1, 2, 3] if ov else [0]):
                # the same walk over any region in which as many blocks fit
                fit = (ln - (-off) % al) // sz
                for g in range(2):
                    if g:
                        s2, a2 = c.rng.choice(NODES)
                        o2 = c.rng.randrange(64)
                        geo = dict(sz=s2, al=a2, off=o2, len=(-o2) % a2 + fit * s2 + c.rng.choice([0, 0, 1, s2 - 1]))
                    else:
                        geo = dict(sz=sz, al=al, off=off, len=ln)
                    s.add("pool", dict(ov=mode, **geo), ["build %d" % c.rng.randrange(4)] + subst(wk, {}))
    for i in range(c.q(600, 8000)):
        sz, al, off, ln = geometry(c.rng)
        mode = c.rng.choice([0, 1, 2, 3])
        fit = max(0, (ln - (-off) % al) // sz)
        ops, held, up = ["build %d" % c.rng.randrange(4)], 0, .7
        for _ in range(c.q(60, 120) if fit < 10 else 3 * fit):
            if c.rng.random() < .1:
                up = c.rng.choice([.3, .5, .8])
            if held == 0 or c.rng.random() < up:
                ops.append("alloc")
                if mode or held < fit:
                    held += 1
                if held > fit + 6:
                    up = .3
            else:
                ops.append("free %d" % c.rng.choice([0, held - 1, c.rng.randrange(held)]))
                held -= 1
        s.add("pool", dict(ov=mode, sz=sz, al=al, off=off, len=ln), ops)
    # every small region: offset and length
    for sz, al in c.q(NODES[:2] + NODES[4:5], NODES):
        for off in range(0, 2 * al, 1):
            for ln in sorted({0, 1, al - 1, al, sz - 1, sz, sz + 1, sz + al - 1, 2 * sz - 1, 2 * sz, 2 * sz + al}):
                for mode in (0, 2):
                    fit = max(0, (ln - (-off) % al) // sz)
                    k = fit + 2
                    n = k if mode else fit
                    s.add("pool", dict(ov=mode, sz=sz, al=al, off=off, len=ln),
                          ["build %d" % (off % 4)] + ["alloc"] * k + ["free 0"] * n + ["alloc"] * k)
    c.conform(s, "TracePool", ["Result", "Truthful", "Overflow", "Intact", "Contained", "Disjoint", "Capacity"], "histories",
              cover=cov)
