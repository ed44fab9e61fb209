"""C18 and C19: the allocator's ledger and the elements' ledger, over every container."""
from core import *
import p_vector, p_deque, p_list, p_hash, p_vmap, p_string, p_fvector, p_tree




def put(dst, src):
    dst.traces += src.traces
    return dst


def containers(c, obs, text=True):
    """(label, script, build): histories of every container; the growth boundaries are crossed in each."""
    rng = c.rng
    s = Script()
    edges = p_vector.model(c, *c.q((4, 8), (6, 8)))
    t, _ = p_vector.tour_script(c, edges, [dict(es=e, obs=obs) for e in p_vector.SIZES], limit=c.q(20000, 600000))
    put(s, t)
    put(s, p_vector.random_script(rng, c.q(150, 3000), c.q(60, 120), p_vector.SIZES + [16, 20, 32], obs))
    put(s, p_vector.long_script(rng, c.q(4, 60), c.q(400, 1500), p_vector.SIZES, obs))
    put(s, p_vector.scale_script(rng, c.q(4, 40), c.q(500, 3000), p_vector.SIZES, obs))
    put(s, p_vector.iter_script(rng, p_vector.SIZES, c.q(4, 6), obs))
    yield "vectors", s, ""

    s = Script()
    t, _ = p_fvector.tours(c, obs)
    if not THOROUGH:
        t.traces = rng.sample(t.traces, min(150, len(t.traces)))
    put(s, t)
    put(s, p_fvector.random_script(rng, c.q(300, 6000), c.q(60, 120), obs))
    yield "fixed-vectors", s, ""

    s = Script()
    t, _ = p_deque.tour_script(c, 18, obs, every=c.q(4, 1))
    put(s, t)
    put(s, p_deque.random_script(rng, c.q(80, 1000), c.q(120, 250), obs, every=4))
    put(s, p_deque.push_runs(rng, obs, scale=c.q(1, 3)))
    put(s, p_deque.scale_script(rng, c.q(7, 70), c.q(600, 3000), obs))
    put(s, p_deque.scale_script(rng, c.q(7, 70), c.q(600, 3000), obs, queue=True))
    put(s, p_deque.iter_grid(rng, obs, maxn=c.q(2, 4)))
    put(s, p_deque.random_script(rng, c.q(60, 800), c.q(100, 250), obs, queue=True, every=3))
    yield "deques", s, ""

    s = Script()
    t, _ = p_list.tour_script(c, 0, c.q(5, 6), "lst", [dict(es=e, obs=obs) for e in p_list.SIZES])
    put(s, t)
    put(s, p_list.random_script(rng, c.q(200, 3000), c.q(80, 200), obs))
    put(s, p_list.scale_script(rng, c.q(7, 70), c.q(300, 2000), obs))
    put(s, p_list.scale_script(rng, c.q(7, 70), 60, obs, nodes=33))
    put(s, p_list.fixed_random(rng, c.q(150, 1500), c.q(80, 200), obs))
    yield "lists", s, ""
    yield "fixed-lists", p_list.fixed_random(rng, c.q(150, 1500), c.q(80, 200), obs, 1), "nightly"

    for kind in ("hm", "hs"):
        s = Script()
        for _, t, _ in p_hash.tours(c, [(0, c.q(4, 6)), (1, c.q(4, 5)), (7, c.q(4, 6))], 0, kind, obs, limit=c.q(3000, 60000)):
            put(s, t)
        put(s, p_hash.random_script(rng, c.q(150, 2500), c.q(80, 200), kind, obs))
        put(s, p_hash.big_script(rng, c.q(8, 80), c.q(60, 200), kind, obs))
        yield {"hm": "hash-maps", "hs": "hash-sets"}[kind], s, ""

    s = Script()
    t, _ = p_vmap.tours(c, c.q(4, 6), obs, limit=c.q(3000, 60000))
    put(s, t)
    put(s, p_vmap.random_script(rng, c.q(150, 2500), c.q(80, 200), obs))
    put(s, p_vmap.big_script(rng, c.q(8, 80), c.q(60, 200), obs))
    yield "vector-maps", s, ""

    if text:
        s = Script()
        t, _ = p_string.tour_script(c, [97, 0x20ac, 0x1f600], c.q(7, 8), c.q(12, 16), obs, c.q(4000, 60000))
        put(s, t)
        put(s, p_string.random_script(rng, c.q(150, 2500), c.q(80, 200), obs))
        put(s, p_string.scale_script(rng, c.q(4, 40), c.q(400, 2000), obs))
        yield "strings", s, ""

    imgs = p_tree.images(c)
    s = p_tree.grids(rng, rng.sample(imgs, min(c.q(20, 200), len(imgs))), obs)
    put(s, p_tree.randoms(rng, imgs, c.q(120, 3000), obs))
    put(s, p_tree.larges(rng, c.q(6, 60), obs))
    yield "trees", s, ""


def judged(c, obs, module, invs, kinds, **kw):
    """All containers' histories, and a part of them again with other kinds of elements."""
    jobs, some = [], []
    c.prepare("", "nightly", *kinds)
    for label, s, kind in containers(c, obs, **kw):
        jobs.append((module, invs, c.run(s, label, kind), s, label, {}))
        if kind == "" and label != "strings":
            some.append(s)
    for kind in kinds:
        s = Script()
        for w in some:
            put(s, c.sample([w], c.q(40, 400), kind))
        jobs.append((module, invs, c.run(s, kind, kind), s, kind, {}))
    return jobs


@prop("C18")
def c18(c):
    jobs = judged(c, "m", "TraceMemory", ["MemErrs", "Returned"], ("wide", "plain", "tiny"))
    s = default_allocator(c.rng, c.q(60, 800))
    jobs.append(("TraceAlloc", ["MemErrs", "Returned", "Calm", "Passed", "Given", "Gone"], c.run(s, "default-allocator"), s,
                 "default-allocator", {}))
    c.judges(jobs)


@prop("C19")
def c19(c):
    c.judges(judged(c, "o", "TraceOwnership", ["Own", "OwnErrs", "AllGone"], ("wide", "tiny"), text=False))


def default_allocator(rng, k):
    s = Script()
    for _ in range(k):
        ops, held = [], 0
        for _ in range(rng.randrange(5, 40)):
            x = rng.random()
            if held and x < .4:
                ops.append("ret %d" % rng.randrange(held))
                held -= 1
            else:
                held += 1
                n = rng.choice([1, 2, 3, 7, 8, 16, 20, 100, 4096])
                if x < .6:
                    ops.append("raw %d %d" % (n, 2 ** rng.randrange(9)))
                elif x < .75:
                    ops.append("word %d" % n)
                else:
                    ops.append("typed %d %d" % (n, rng.choice([1, 2, 4, 8, 16])))
        s.add("glob", {}, ops + ["fin"])
        s.add("glob", {}, ["%s %d %d" % (kind, rng.randrange(1 << 30), rng.choice([0, 1, 2, 5, 20, 60, 150]))
                           for kind in ("vec", "fvec", "deq", "que", "lst", "fls", "hm", "hs", "vm", "str")] + ["fin"])
    return s
