"""C23: default hash values and buckets are those of EASTL."""
import struct
from core import *

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxLen = %d
 Alphabet = {%s}
INVARIANTS Same Function Checked
CHECK_DEADLOCK FALSE
"""
INVS = ["Value", "Total", "Place"]
WIDTH = [8, 8, 16, 16, 32, 32, 64, 64, 64, 64, 1]
CHARS = ["a", "b", "A", "z", " ", "0", "~", "\x7f", "\x01", "\u0080", "é", "ÿ", "\u07ff", "\u0800", "€", "\ud7ff",
         "\ue000", "\uffff", "\U00010000", "😀", "\U0010ffff"]


def limbs(x, w):
    x &= (1 << w) - 1
    return [(x >> s) & 65535 for s in range(0, max(w, 1), 16)]


def int_ops(rng, k):
    ops = []
    for t, w in enumerate(WIDTH):
        vs = {0, 1}
        for b in range(w):
            vs |= {1 << b, (1 << b) - 1, -(1 << b), ~(1 << b)}
        vs |= {rng.getrandbits(w) for _ in range(k)}
        for v in sorted({v & ((1 << w) - 1) for v in vs}):
            ops.append("int %d %s" % (t, " ".join(map(str, limbs(v, w)))))
    return ops


def float_ops(rng, k):
    vs = [0.0, -0.0, 0.5, -0.5, .999999, 1.0, 1.5, 1.999, 2.0, 2.5, 46.0, 46.25, 3.99, 100.75, -1.0, -1.5, -46.25, 1e9, 1e10, 1e18,
          9.3e18, 1.8e19, 2.0 ** 63, 2.0 ** 64, 1e30, -1e30, float("inf"), -float("inf"), float("nan"), 5e-324, 1e-40]
    for b in range(64):
        vs += [2.0 ** b, 2.0 ** b + .5, 1.75 * 2.0 ** b, -(2.0 ** b)]
    vs += [rng.random() * 2.0 ** rng.randrange(-3, 64) for _ in range(k)]
    ops = []
    for v in vs:
        ops.append("f64 " + " ".join(map(str, limbs(struct.unpack("<Q", struct.pack("<d", v))[0], 64))))
        try:
            ops.append("f32 " + " ".join(map(str, limbs(struct.unpack("<I", struct.pack("<f", v))[0], 32))))
        except OverflowError:
            pass
    for _ in range(k):
        ops.append("f32 " + " ".join(map(str, limbs(rng.getrandbits(32), 32))))
        ops.append("f64 " + " ".join(map(str, limbs(rng.getrandbits(64), 64))))
    return ops


def text_ops(rng, ts):
    ops = []
    for t in ts:
        b = t.encode("utf-8")
        for form in range(8):
            if 0 in b and form in (2, 7):
                continue
            ops.append("txt %d %s" % (form, " ".join(map(str, b))))
    return ops


def texts(rng, k):
    ts = ["", "a", "Test", "foobar", "a\0b", "\0", "\0\0a", "x" * 200, "é" * 77]
    ts += CHARS
    for i in range(k):
        n = rng.choice([2, 3, 4, 5, 8, 16, 31, 64]) if i % 25 else 300
        ts.append("".join(rng.choice(CHARS) if rng.random() < .5 else chr(rng.randrange(32, 127)) for _ in range(n)))
    return ts


def cstr_ops(rng, k):
    ops = ["cstr"]
    for b in range(1, 256):
        ops.append("cstr %d" % b)
        ops.append("cstr %d %d" % (rng.randrange(1, 256), b))
    for _ in range(k):
        ops.append("cstr " + " ".join(str(rng.randrange(1, 256)) for _ in range(rng.randrange(2, 40))))
    return ops


def histories(c):
    rng, s = c.rng, Script()
    for ops in (int_ops(rng, c.q(20, 400)), float_ops(rng, c.q(150, 4000)),
                text_ops(rng, texts(rng, c.q(150, 3000))), cstr_ops(rng, c.q(150, 3000))):
        for i in range(0, len(ops), 12):
            s.add("hf", {}, ops[i:i + 12])
    # the same keys in tables that have grown
    for big in range(c.q(4, 40)):
        ops = int_ops(rng, 30) + float_ops(rng, 30) + text_ops(rng, texts(rng, 40))
        s.add("hf", {}, rng.sample(ops, min(len(ops), c.q(250, 500))))
    return s


@prop("C23")
def c23(c):
    c.model("MCHashFn", CFG % (c.q(4, 6), "0, 1, 97, 128, 255"))
    c.conform(histories(c), "TraceHashFn", INVS, "values")
