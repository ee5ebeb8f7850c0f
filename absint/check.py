"""Book-keeping of a property check: obligations, refutations (with witness), evidence."""
import contextlib
import gc
import itertools
import json
import multiprocessing
import os
import pickle
import sys
import time
import traceback
from . import terms as T
from . import witness as W
from . import engine as E
from .engine import Broken, short
from .state import Ptr, State, Agg
from .frontend import VERIF, prune_cache


class Enough(Exception):
    """enough violations were found"""


class FEnv(W.Env):
    """valuation of leaves taken as independent (finite-set domain)"""

    def loc(self, s):
        return s

    def sym(self, s):
        return self.val[s]


class Remote:
    """coverage of a worker"""

    def __init__(self, analysed, steps, obligations):
        self.analysed, self.steps, self.obligations = analysed, steps, obligations


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = {}           # rule -> [total, discharged, undecided]
        self.violations = []
        self.known = []
        self.undecided = []
        self.samples = []
        self.eng = []
        self.assumptions = []
        self.t0 = time.time()
        self.notes = {}
        self.unique = set()
        self.broken = []
        self.remote = []
        self.per_class = 60 if tier == "quick" else 400
        self.deadline = time.monotonic() + (600 if tier == "quick" else 6000)
        E.LIMIT[0] = self.deadline
        self.focus = None       # "memory": only abnormal exits count; "retry": only after() counts
        self.inside = 0
        self.part = ""          # running as a part of another check: its name

    # ---- focus: one run of a decoder serves several properties ----------------
    def off(self):
        return self.focus is not None and not self.inside

    @contextlib.contextmanager
    def on(self):
        self.inside += 1
        try:
            yield
        finally:
            self.inside -= 1

    # ---- obligations ------------------------------------------------------
    def _o(self, rule):
        if self.part:
            rule = self.part + ": " + rule
        return self.obl.setdefault(rule, [0, 0, 0])

    def ok(self, rule, n=1):
        if self.off():
            return
        o = self._o(rule)
        o[0] += n
        o[1] += n

    def undec(self, rule, what):
        if self.off():
            return
        o = self._o(rule)
        o[0] += 1
        o[2] += 1
        if len(self.undecided) < 60:
            self.undecided.append("%s: %s" % (rule, what))

    def fail(self, rule, what, where=None, witness=None, key=None):
        """a refuted obligation"""
        if self.off():
            return
        o = self._o(rule)
        o[0] += 1
        k = key or (rule, what, where)
        if k in self.unique:
            return
        self.unique.add(k)
        self.violations.append({"rule": rule, "what": what, "where": where, "witness": witness, "key": key})

    @contextlib.contextmanager
    def guard(self, rule, what):
        """an input class the interpreter cannot handle is undecided, not a verdict"""
        if len(self.violations) >= 12:
            raise Enough()
        outer = E.LIMIT[0]
        now = time.monotonic()
        E.LIMIT[0] = min(x for x in (outer, now + (10 if self.violations else self.per_class), self.deadline) if x)
        try:
            yield
        except Broken as e:
            for g in self.eng:
                g.exits = []
                g.stack = []
                g._cpstack = []
            self.broken.append("%s: %s" % (what, e))
            with self.on():
                self.undec(rule, "%s: %s" % (what, e))
        finally:
            E.LIMIT[0] = outer

    def finite(self, eng, st, a, b, limit=8192):
        """equality over the finite set of values the leaves can take in st"""
        ss = sorted(T.syms(a) | T.syms(b), key=lambda s: s.id)
        n = 1
        dom = []
        for s in ss:
            lo, hi = st.iv(s)
            if hi - lo > 255:
                return False
            ne = st.neq.get(s, ())
            vs = [v for v in range(lo, hi + 1) if v not in ne]
            # filter by facts on lookups/slices of this symbol alone
            fs = [(f, r) for f, r in st.facts.items() if f is not s and T.syms(f) == {s}]
            ns = [(f, r) for f, r in st.neq.items() if f is not s and T.syms(f) == {s}]
            keep = []
            for v in vs:
                e = FEnv(eng, None, {})
                e.put(s, v)
                if all(r[0] <= e.ev(f) <= r[1] for f, r in fs) and all(e.ev(f) not in r for f, r in ns):
                    keep.append(v)
            dom.append(keep)
            n *= len(keep)
            if n > limit:
                return False
        for vals in itertools.product(*dom):
            e = FEnv(eng, None, {})
            for s, v in zip(ss, vals):
                e.put(s, v)
            try:
                if e.ev(a) != e.ev(b):
                    return False
            except (KeyError, AttributeError, W.NoValue):
                return False
        return True

    def wit(self, env, st=None):
        out = {}
        for s, v in sorted(((s, v) for s, v in env.val.items() if isinstance(s, T.Term)), key=lambda x: x[0].id):
            out[T.show(s)] = hex(v)
        for s, v in sorted(((s, v) for s, v in env.val.items() if isinstance(s, tuple) and s[0] == "loc"), key=repr):
            out["%s[%d]" % ("/".join(map(str, s[1][1:])), s[2])] = hex(v)
        return out

    def same(self, eng, rule, st, actual, expected, what, where=None, extra=()):
        """obligation: actual == expected in every concrete state of st"""
        if self.off():
            return True
        if isinstance(actual, T.Term) and isinstance(expected, T.Term) and actual.w == expected.w:
            if st.same(actual, expected) or st.same(T.narrow(st.resolve(actual)), T.narrow(st.resolve(expected))) or self.finite(eng, st, actual, expected):
                self.ok(rule)
                return True
            env = W.search(eng, st, lambda e: e.ev(actual) != e.ev(expected),
                           extra=(actual, expected) + tuple(extra), seed=self.seed)
            if env is None:
                self.undec(rule, "%s: %s vs expected %s" % (what, st.resolve(actual), st.resolve(expected)))
                return None
            self.fail(rule, "%s is %s, expected %s" % (what, st.resolve(actual), st.resolve(expected)), where,
                      dict(self.wit(env), **{"actual": hex(env.ev(actual)), "expected": hex(env.ev(expected))}))
            return False
        if actual == expected:
            self.ok(rule)
            return True
        env = W.search(eng, st, lambda e: True, extra=extra, seed=self.seed)
        if env is None:
            self.undec(rule, "%s: %s vs expected %s (path not confirmed)" % (what, actual, expected))
            return None
        self.fail(rule, "%s is %s, expected %s" % (what, actual, expected), where, self.wit(env))
        return False

    def holds(self, eng, rule, st, cond, what, where=None):
        """obligation: i1 term cond is true in every concrete state of st"""
        if self.off():
            return True
        if cond is True or isinstance(cond, T.Term) and st.eval(cond) is True:
            self.ok(rule)
            return True
        if cond is False:
            return self.never(eng, rule, st, what, where)
        env = W.search(eng, st, lambda e: not e.ev(cond), extra=(cond,), seed=self.seed)
        if env is None:
            self.undec(rule, "%s: %s" % (what, cond))
            return None
        self.fail(rule, "%s" % what, where, self.wit(env))
        return False

    def never(self, eng, rule, st, what, where=None, extra=()):
        """obligation: the abstract state st is unreachable"""
        if self.off():
            return True
        env = W.search(eng, st, lambda e: True, extra=extra, seed=self.seed)
        if env is None:
            self.undec(rule, "%s (path not confirmed)" % what)
            return None
        self.fail(rule, what, where, self.wit(env))
        return False

    def exits(self, eng, rule, what, allow=(), prefix=""):
        """every abnormal exit recorded by the engine is an obligation that must be infeasible;
        'bound' exits (loop cut) are counted, never alarmed"""
        if self.focus == "retry":
            eng.exits = []
            return
        with self.on():
            if self.focus == "memory":
                rule = "memory"
                self.ok(rule)
            self._exits(eng, rule, what, allow)

    def _exits(self, eng, rule, what, allow):
        for e in eng.exits:
            if e.kind == "bound":
                self.notes["loops cut"] = self.notes.get("loops cut", 0) + 1
                continue
            if e.kind in allow:
                self.ok(rule)
                continue
            self.never(eng, rule, e.st, "%s: %s %s (in %s)" % (what, e.kind, e.info, " > ".join(e.stack[-4:])), e.where)
        eng.exits = []

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def use(self, eng):
        if eng not in self.eng:
            self.eng.append(eng)

    # ---- parallel runs -----------------------------------------------------
    def parallel(self, jobs):
        """run independent obligations (callables) in forked workers and merge what they found"""
        jobs = list(jobs)
        n = min(int(os.environ.get("VERIF_JOBS", "0")) or min(os.cpu_count() or 1, 8), len(jobs))
        if n <= 1:
            for j in jobs:
                j()
            return
        gc.collect()
        gc.freeze()
        taken = multiprocessing.get_context("fork").Value("i", 0)
        kids = []
        for _ in range(n):
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(self._worker(jobs, taken), f)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            os.close(w)
            kids.append((pid, r))
        err = None
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                err = err or Broken("a worker died")
                continue
            res = pickle.loads(data)
            err = err or res.pop("error")
            self._merge(res)
        if err is not None and not self.violations:
            raise err

    def _worker(self, jobs, taken):
        base = {r: list(o) for r, o in self.obl.items()}
        nv, nu, ns, nb = len(self.violations), len(self.undecided), len(self.samples), len(self.broken)
        notes0 = dict(self.notes)
        err = None
        try:
            while True:
                with taken.get_lock():
                    i = taken.value
                    taken.value += 1
                if i >= len(jobs):
                    break
                jobs[i]()
        except Enough:
            with taken.get_lock():
                taken.value = len(jobs)
        except Broken as e:
            err = e
        obl = {}
        for r, o in self.obl.items():
            b = base.get(r, [0, 0, 0])
            obl[r] = [o[i] - b[i] for i in range(3)]
        an, eo, steps = {}, {}, 0
        for e in self.eng:
            for f, x in e.analysed.items():
                an.setdefault(f, set()).update(x)
            for k, v in e.obligations.items():
                eo[k] = eo.get(k, 0) + v
            steps += e.steps
        return {"obl": obl, "viol": self.violations[nv:], "und": self.undecided[nu:], "samples": self.samples[ns:],
                "broken": self.broken[nb:], "notes": {k: v - notes0.get(k, 0) for k, v in self.notes.items() if isinstance(v, int)},
                "an": an, "eo": eo, "steps": steps, "error": err}

    def _merge(self, res):
        for r, o in res["obl"].items():
            x = self.obl.setdefault(r, [0, 0, 0])
            for i in range(3):
                x[i] += o[i]
        for v in res["viol"]:
            k = v["key"] or (v["rule"], v["what"], v["where"])
            if k not in self.unique:
                self.unique.add(k)
                self.violations.append(v)
        self.undecided += res["und"][:max(0, 60 - len(self.undecided))]
        self.samples += res["samples"][:max(0, 24 - len(self.samples))]
        self.broken += res["broken"]
        for k, v in res["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.remote.append(Remote(res["an"], res["steps"], res["eo"]))

    # ---- finish -------------------------------------------------------------
    def finish(self, minimum, technique, level="other", expl="", known=()):
        if self.part:
            return 0
        tot = sum(o[0] for o in self.obl.values())
        dis = sum(o[1] for o in self.obl.values())
        und = sum(o[2] for o in self.obl.values())
        kf = []
        viol = []
        for v in self.violations:
            m = [k for k in known if k.matches(v)]
            if m:
                kf.append((m[0], v))
            else:
                viol.append(v)
        ev_dir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(ev_dir, exist_ok=True)
        funcs = {}
        blocks = steps = 0
        edges = 0
        for e in self.eng + self.remote:
            for f, s in e.analysed.items():
                funcs.setdefault(f, set()).update(s)
            steps += e.steps
        blocks = sum(len(s) for s in funcs.values())
        from .llvmir import demangle
        repo_funcs = sorted({demangle(f) for f in funcs if "3bnl" in f})
        engobl = {}
        for e in self.eng + self.remote:
            for k, n in e.obligations.items():
                engobl[k] = engobl.get(k, 0) + n
        cov = {
            "explanation": (technique + ". " + expl).strip(),
            "obligations": tot, "discharged": dis, "undecided": und,
            "rules": {r: {"total": o[0], "discharged": o[1], "undecided": o[2]} for r, o in sorted(self.obl.items())},
            "engine_obligations": engobl,
            "functions_analysed": len(funcs), "repository_functions_analysed": repo_funcs[:80],
            "repository_function_count": len(repo_funcs),
            "blocks_analysed": blocks, "instructions_interpreted": steps,
            "samples": self.samples,
            "undecided_samples": self.undecided[:20],
        }
        cov.update(self.notes)
        if self.broken:
            cov["not_analysed"] = self.broken[:20]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol),
              "known_findings": [k.text for k, _ in kf]}
        with open(os.path.join(ev_dir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        done = set()
        for k, v in kf:
            if k.text not in done:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k.text))
                done.add(k.text)
        prune_cache()
        if viol:
            rp = os.path.join(ev_dir, "%s.violation.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(viol, f, indent=1, default=str)
            for v in viol[:8]:
                print("  [%s] %s" % (v["rule"], v["what"]))
                print("      at %s" % v["where"])
                if v["witness"]:
                    print("      for %s" % json.dumps(v["witness"], default=str)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if dis < minimum:
            print("analysis broken: %s discharged only %d obligations (expected at least %d) %s" %
                  (self.pid, dis, minimum, self.broken[:3]))
            return 2
        print("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs" %
              (self.pid, tot, dis, und, len(funcs), time.time() - self.t0))
        return 0
