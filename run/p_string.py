"""C13: string text; C14: the terminator."""
from core import *

MCCFG = """SPECIFICATION MSpec
CONSTANTS Chars = {%s}
 MaxBytes = %d
 MaxCap = %d
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS Text Fits Terminated
PROPERTIES PanicChangesNothing
CHECK_DEADLOCK FALSE
"""
# characters of every width, with the boundaries between widths and bytes that look like other things
WIDE = [0x61, 0x7a, 0x41, 0x7f, 1, 0, 0x80, 0xe9, 0x7ff, 0x100, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x141, 0x2100,
        0x10000, 0x1f600, 0x10ffff, 0x1f4a9, 0x10061]


def tour_script(c, chars, mb, mc, obs, limit):
    r = c.model("MCString", MCCFG % (",".join(map(str, chars)), mb, mc), name="MCString%d_%d" % (mb, mc))
    walks, tot, got = tour(edges_of(r), "[[], 0]", 200, c.rng, limit)
    s = Script()
    for i, wk in enumerate(walks):
        s.add("str", dict(obs=obs), subst(wk, {}) + ["fin"])
    return s, dict(model_transitions=tot, transitions_covered=got)


def random_history(rng, n, cap, alpha, start=0):
    cur, w = [], None
    width = lambda ch: len(chr(ch).encode())
    def ch():
        return rng.choice(alpha)
    def text():
        return [ch() for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))]
    def pos():
        i = sum(width(x) for x in cur[:rng.randrange(len(cur) + 1)])
        x = rng.random()
        if x < .06:
            i = sum(map(width, cur)) + rng.randrange(1, 4)
        elif x < .12:
            i += 1
        return i
    def at(i):
        k = 0
        for j, x in enumerate(cur + [0]):
            if k == i:
                return j
            k += width(x)
        return None
    ops = []
    if start:
        cur = [ch() for _ in range(start)]
        o = rng.choice(["fromstr", "fromin", "parse", "assign"])
        ops = ["new"] * (o == "assign") + [" ".join([o] + list(map(str, cur)))]
    up = .65
    while len(ops) < n:
        x = rng.random()
        if rng.random() < .04:
            up = rng.choice([.3, .5, .7, .9])
        if not ops or x < (.005 if start else .05):
            o = rng.choice(["new", "default", "newin", "drop", "withcap", "fromstr", "fromin", "parse"])
            cur = []
            if o == "withcap":
                o += " %d" % rng.choice([0, 1, 2, 5, 17])
            elif o in ("fromstr", "fromin", "parse"):
                cur = text()
                o = " ".join([o] + list(map(str, cur)))
            ops.append(o)
        elif x < .62:
            if rng.random() < up and len(cur) < cap:
                if rng.random() < .5:
                    cur.append(ch())
                    ops.append("push %d" % cur[-1])
                else:
                    i, k = pos(), ch()
                    j = at(i)
                    if j is not None:
                        cur.insert(j, k)
                    ops.append("insert %d %d" % (i, k))
            elif rng.random() < .5:
                ops.append("pop")
                cur = cur[:-1]
            else:
                i = pos()
                j = at(i)
                if j is not None and j < len(cur):
                    cur.pop(j)
                ops.append("remove %d" % i)
        elif x < .74:
            cur = text() if rng.random() < .5 or not start else [ch() for _ in range(start + rng.randrange(-9, 9))]
            ops.append(" ".join(["assign"] + list(map(str, cur))))
        elif x < .82:
            ops.append("reserve %d" % rng.choice([0, 0, 1, 2, 7, 20, start, start // 3]))
        elif x < .86:
            ops.append("upper")
            cur = [k - 32 if 97 <= k <= 122 else k for k in cur]
        elif x < .91:
            ops.append("clone")
            w = list(cur)
        elif x < .95:
            ops.append("swapw")
            if w is not None:
                cur, w = w, cur
        elif x < .97 and w is not None:
            ops.append(rng.choice(["assignw", "assignw 1"]))
            cur = list(w)
        elif x < .98:
            ops.append("dropw")
            w = None
    return ops + ["fin"]


def random_script(rng, k, n, obs):
    s = Script()
    for i in range(k):
        alpha = rng.choice([WIDE, WIDE, [97, 98], [0x61, 0xe9, 0x20ac, 0x1f600], [0x20ac], [0x10ffff, 0x61]])
        s.add("str", dict(obs=obs), random_history(rng, n, rng.choice([3, 8, 30]), alpha))
    return s


def sized_script(rng, k, top, obs, n=30):
    """Every operation on texts of any length up to top characters."""
    s = Script()
    for i in range(k):
        alpha = rng.choice([WIDE, WIDE, [97, 98], [0x61, 0xe9, 0x20ac, 0x1f600], [0x20ac], [0x10ffff, 0x61]])
        b = big_size(rng, top)
        s.add("str", dict(obs=obs), random_history(rng, n, 3 * b, alpha, start=b))
    return s


def every_width(limit, rng):
    """Each character of the list pushed, inserted before and after a multi-byte one, removed and popped."""
    s = Script()
    for a in WIDE:
        ops = []
        for b in WIDE:
            wa = len(chr(a).encode())
            ops += ["new", "push %d" % a, "push %d" % b, "insert 0 %d" % b, "clone", "insert %d %d" % (len(chr(b).encode()), a),
                    "remove 0", "remove %d" % wa, "pop", "pop", "assign %d %d %d" % (b, a, b), "swapw", "pop"]
        s.add("str", dict(obs="clm"), ops + ["fin"])
    return s


def scale_script(rng, k, top, obs):
    """Long texts."""
    s = Script()
    for i in range(k):
        alpha = rng.choice([WIDE, WIDE, [97, 98], [0x61, 0xe9, 0x20ac, 0x1f600], [0x20ac], [0x10ffff, 0x61]])
        txt = lambda n: " ".join(str(rng.choice(alpha)) for _ in range(n))
        ops, ln = [rng.choice(["new", "withcap 40", "fromstr " + txt(rng.randrange(200))])], 0
        cs = [int(x) for x in ops[0].split()[1:]] if ops[0].startswith("from") else []
        while len(cs) < top:
            x = rng.random()
            n = rng.choice([1, 2, rng.randrange(1, 30), rng.randrange(len(cs) + 2)])
            if x < .5 or not cs:
                ch = rng.choice(alpha)
                ops.append("pushn %d %d" % (ch, n))
                cs += [ch] * n
            elif x < .6:
                n = min(n, len(cs))
                ops.append("popn %d" % n)
                cs = cs[:len(cs) - n]
            elif x < .8:
                j = rng.randrange(len(cs) + 1)
                ch = rng.choice(alpha)
                ops.append("insert %d %d" % (sum(len(chr(c).encode()) for c in cs[:j]), ch))
                cs.insert(j, ch)
            elif x < .9:
                j = rng.randrange(len(cs))
                ops.append("remove %d" % sum(len(chr(c).encode()) for c in cs[:j]))
                cs.pop(j)
            elif x < .93:
                ops += ["clone", "upper", "swapw", "assignw", "dropw"]
                cs = [k - 32 if 97 <= k <= 122 else k for k in cs]
            elif x < .96:
                q = txt(len(cs) + rng.randrange(-len(cs) // 2, 50))
                ops.append(("assign " + q).strip())
                cs = list(map(int, q.split()))
            else:
                ops.append("reserve %d" % rng.randrange(100))
        s.add("str", dict(obs=obs), ops + ["fin"])
    return s


TEXT = ["Result", "Contents", "Characters", "Lengths", "Room", "Printed", "Quoted", "Equality", "CloneText"]
NUL = ["Terminated", "CloneTerminated", "MemErrs", "Contents"]


def histories(c, obs):
    s, cov = tour_script(c, [97, 233], c.q(5, 6), c.q(12, 16), obs, c.q(8000, 60000))
    s2, cov2 = tour_script(c, [97, 0x20ac, 0x1f600], c.q(8, 10), c.q(12, 16), obs, c.q(6000, 60000))
    s.traces += s2.traces
    for k in cov:
        cov[k] += cov2[k]
    s.traces += every_width(None, c.rng).traces
    s.traces += random_script(c.rng, c.q(300, 3000), c.q(80, 200), obs).traces
    s.traces += scale_script(c.rng, c.q(10, 100), c.q(700, 2000), obs).traces
    s.traces += sized_script(c.rng, c.q(24, 240), c.q(2100, 5000), obs).traces
    return s, cov


@prop("C13")
def c13(c):
    s, cov = histories(c, "c")
    c.conform(s, "TraceString", TEXT, "histories", cover=cov)


@prop("C14")
def c14(c):
    s, cov = histories(c, "clm")
    c.conform(s, "TraceString", NUL, "histories", cover=cov)
