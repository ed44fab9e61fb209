"""What every check is made of: model checking of a specification, histories, execution, validation, evidence."""
import json, os, random, re, shutil, sys, tempfile, time
import lib
from concurrent.futures import ThreadPoolExecutor
from lib import *

REG = {}


def prop(pid, level="model_checking"):
    def d(f):
        REG[pid] = (f, level)
        return f
    return d


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.work = tempfile.mkdtemp(prefix="eastl-%s-" % pid)
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, models=[],
                        conformance=[], samples=[])
        self._drv, self._pool = {}, ThreadPoolExecutor(4)
        self.n = 0

    # deep() for thorough runs
    def q(self, quick, thorough):
        return thorough if THOROUGH else quick

    def driver(self, kind=""):
        self.prepare(kind)
        return self._drv[kind].result()

    def prepare(self, *kinds):
        """Start building these drivers."""
        for k in kinds:
            if k not in self._drv:
                self._drv[k] = self._pool.submit(build, k)

    def model(self, module, cfg, name=None, timeout=700, heap="6g", workers=8):
        """Model check a specification.  An error here is an error of the specification, not of the code."""
        name = name or module
        r = tlc(module, cfg, self.work, name=name, timeout=timeout, heap=heap, workers=workers)
        if r.err is not None or r.rc != 0:
            raise ToolError("model %s: %s\n%s" % (name, r.err, r.tail[-4000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["models"].append(dict(model=name, distinct_states=r.distinct, states_generated=r.states, depth=r.depth))
        log("model %s: %d distinct states, %d generated" % (name, r.distinct, r.states))
        return r

    def models(self, jobs):
        """Several models at once: jobs are (module, cfg, name)."""
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda j: self.model(*j, workers=3), jobs))

    def run(self, script, label, kind="", timeout=600):
        res = run_driver(self.driver(kind), script, self.work, label, timeout=timeout)
        log("%s: %d histories, %d events executed%s" % (label, len(res[1]), res[2],
                                                        ", %d killed the process" % len(res[3]) if res[3] else ""))
        return res

    def judge(self, module, invs, res, script, label, timeout=700, consts="", cover=None, heap="10g", spec="TSpec", workers=8):
        r = validate(module, invs, res, script, self.work, label.replace(" ", "-"), timeout=timeout, consts=consts, heap=heap,
                     spec=spec, workers=workers)
        n = len(res[1])
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["traces_validated_against_impl"] += n
        self.cov["events_validated"] += res[2]
        e = dict(module=module, invariants=list(invs), set=label, histories=n, events=res[2], distinct_states=r.distinct)
        if cover:
            e.update(cover)
        self.cov["conformance"].append(e)
        log("%s: accepted by %s" % (label, module))
        if len(self.cov["samples"]) < 4 and script.traces:
            i = self.rng.randrange(len(script.traces))
            self.cov["samples"].append(script.text(i)[:1500])
        return r

    def judges(self, jobs):
        """Several judgements at once: jobs are (module, invariants, result, script, label, options)."""
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(self.judge, *j[:5], workers=3, heap="6g", **j[5]) for j in jobs]
            bad = [f.exception() for f in fs if f.exception() is not None]
        if bad:
            raise next((b for b in bad if isinstance(b, Violation)), bad[0])

    def conform(self, script, module, invs, label, kind="", **kw):
        res = self.run(script, label, kind)
        return self.judge(module, invs, res, script, label, **kw)

    def sample(self, scripts, n, kind, most=200):
        """Some of the histories for another kind of elements: "wide" (aligned to 16 bytes), "plain" (nothing to drop) or
        "tiny" (aligned to bytes, from one byte to hundreds of them)."""
        short = [t for s in scripts for t in s.traces if len(t[2]) < most and (kind != "tiny" or t[0] in BYTES)]
        w = Script()
        w.traces = [(k, dict(cfg, build=kind), ops) for k, cfg, ops in self.rng.sample(short, min(n, len(short)))]
        return {"wide": widen, "tiny": narrow}.get(kind, lambda s, r: s)(w, self.rng)

    def together(self, runs, label):
        """The recorded executions of several drivers as one: (result, script)."""
        s, out = Script(), os.path.join(self.work, label.replace(" ", "-") + ".ndjson")
        order, nev, crashes = [], 0, {}
        with open(out, "w") as f:
            for res, sc in runs:
                if not sc.traces:
                    continue
                n = len(s.traces)
                s.traces += sc.traces
                with open(res[0]) as g:
                    shutil.copyfileobj(g, f)
                order += [t + n for t in res[1]]
                nev += res[2]
                crashes.update({t + n: w for t, w in res[3].items()})
        return [out, order, nev, crashes], s

    def variants(self, scripts, n, module, invs, kinds=("wide", "plain", "tiny"), **kw):
        """A part of the histories again, with over-aligned, undroppable and odd-sized elements."""
        self.prepare(*kinds)
        runs = []
        for kind in kinds:
            s = self.sample(scripts, n, kind)
            runs.append((self.run(s, kind, kind), s))
        res, s = self.together(runs, "variants")
        self.judge(module, invs, res, s, "variants", **kw)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def evidence(self, outcome):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level,
                  coverage=dict(self.cov, outcome=outcome), wall_s=round(time.time() - lib.T0, 2))
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            ev["coverage"]["samples"] = [x[:300] for x in ev["coverage"]["samples"][:2]]
            ev["coverage"]["conformance"] = ev["coverage"]["conformance"][:60]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            f.write(s + "\n")


def big_size(rng, top, low=40):
    """A size between low and top, on a logarithmic scale, with a liking for powers of two and their neighbours."""
    p = 1 << rng.randrange(low.bit_length(), top.bit_length())
    return max(low, min(top, rng.choice([p - 1, p, p, p + 1, p + rng.randrange(p), p - rng.randrange(p // 2)])))


def subst(walk, valpos, start=1, xf=None):
    """Operations of a walk as driver lines, with a fresh value at every value position."""
    n = start
    out = []
    for op, a in walk:
        a = list(a)
        vp = valpos.get(op, ())
        for i in (range(len(a)) if vp == "all" else vp):
            if i < len(a):
                a[i] = n
                n += 1
        o = [op] + [str(x) for x in a]
        out.append(" ".join(o))
    return out


BYTES = ("vec", "deq", "que", "lst", "fls", "fv", "hm", "hs", "vm", "tree")


def narrow(script, rng, one=True):
    """The same histories for the driver whose elements are byte-aligned: of odd sizes, large ones, and of a single byte
    where there are few enough values (those elements have no identity)."""
    r = Script()
    for kind, cfg, ops in script.traces:
        t = [o.lstrip("!").split() for o in ops]
        vals = {x for o in t for x in o[1:]}
        sizes = [2, 5, 64] if kind == "tree" else [2, 3, 5, 6, 24, 64, 300]
        if one and kind != "tree" and "o" not in cfg.get("obs", "") and len(vals) <= 60 and not any(re.match("push.*n|insn|ext|adopt", o[0]) for o in t):
            sizes += [1] * 4
        r.traces.append((kind, dict(cfg, es=rng.choice(sizes)), ops))
    return r


def widen(script, rng, sizes=(16, 32)):
    """The same histories for the driver whose elements are aligned to 16 bytes (and have these sizes)."""
    r = Script()
    for kind, cfg, ops in script.traces:
        r.traces.append((kind, dict(cfg, es=12 if kind == "tree" else rng.choice(sizes)), ops))
    return r


def known_findings():
    """Entries "known: property=<id> match=<substring of the rejection> <what fails>"."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", ln.strip())
            if m:
                res.append(m.groups())
    return res


def main(pid, mods):
    f, level = REG[pid]
    c = Check(pid, level)
    try:
        f(c)
        c.evidence("held on everything explored")
        print("OK property=%s states=%d transitions=%d histories=%d events=%d wall=%.1fs" % (
            pid, c.cov["states"], c.cov["transitions"], c.cov["traces_validated_against_impl"],
            c.cov["events_validated"], time.time() - lib.T0))
        return 0
    except Violation as v:
        d = os.path.join(VERIF, "out")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.replay" % (pid, SEED))
        with open(p, "w") as fh:
            fh.write(v.replay_text)
        c.cov["violation"] = v.what[:2000]
        c.evidence("violation")
        print("rejected: " + v.what[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, VERIF)))
        return 1
    except ToolError as e:
        c.evidence("check could not decide: " + str(e)[:500])
        print("TOOL-ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        c.finish()
