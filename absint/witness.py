"""Confirmation of a refuted obligation: find concrete values of the analysis inputs that
satisfy the recorded path condition and falsify the obligation.  Terms are evaluated, no
program is run and no solver is used (bounded randomised search over boundary values)."""
import random
from . import terms as T
from .state import State, Ptr


class NoValue(Exception):
    pass


class Env:
    def __init__(self, eng, rng, val=None):
        self.eng, self.rng, self.val, self.memo = eng, rng, val if val is not None else {}, {}

    def loc(self, s):
        """content bytes are identified by their concrete location"""
        n = s.a
        if isinstance(n, tuple) and len(n) == 3 and n[0] == "byte":
            o = n[2]
            return ("loc", n[1], self.ev(o) if isinstance(o, T.Term) else o)
        return s

    def put(self, s, v):
        self.val[self.loc(s)] = v

    def sym(self, s):
        key = self.loc(s)
        if key is not s:
            v = self.val.get(key)
            if v is None:
                v = self.val[key] = self.rng.randint(0, 255) if self.rng.random() < .7 else self.rng.choice((0, 255, 1, 127, 128))
            return v
        v = self.val.get(s)
        if v is None:
            lo, hi = s.aux
            v = self.val[s] = lo if lo == hi else self.rng.randint(lo, hi)
        return v

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._ev(t) & T.mask(t.w)
        return r

    def _ev(self, t):
        k = t.kind
        if k == "const":
            return t.a
        if k == "sym":
            return self.sym(t)
        if k == "cat":
            r = pos = 0
            for s in t.a:
                if s[0] == "k":
                    r |= s[1] << pos
                else:
                    r |= ((self.ev(s[1]) >> s[2]) & T.mask(s[3])) << pos
                pos += s[-1]
            return r
        if k == "lin":
            r = t.a
            for a, c in t.b:
                r += c * self.ev(a)
            return r
        n = t.a[0]
        a = t.a[1:]
        w = t.w
        if n in ("eq", "ne", "ult", "uge", "slt", "sge"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if n[0] == "s":
                x, y = T._signed(x, a[0].w), T._signed(y, a[1].w)
            return {"eq": x == y, "ne": x != y, "ult": x < y, "uge": x >= y, "slt": x < y, "sge": x >= y}[n]
        if n == "not":
            return 1 - self.ev(a[0])
        if n == "and":
            return self.ev(a[0]) & self.ev(a[1])
        if n == "or":
            return self.ev(a[0]) | self.ev(a[1])
        if n == "xor":
            return self.ev(a[0]) ^ self.ev(a[1])
        if n == "ite":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if n == "mul":
            return self.ev(a[0]) * self.ev(a[1])
        if n == "udiv":
            y = self.ev(a[1])
            if y == 0:
                raise NoValue
            return self.ev(a[0]) // y
        if n == "urem":
            y = self.ev(a[1])
            if y == 0:
                raise NoValue
            return self.ev(a[0]) % y
        if n in ("sdiv", "srem"):
            x, y = T._signed(self.ev(a[0]), w), T._signed(self.ev(a[1]), w)
            if y == 0:
                raise NoValue
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if n == "sdiv" else x - q * y
        if n == "sext":
            return T._signed(self.ev(a[0]), a[0].w)
        if n == "ashr":
            return T._signed(self.ev(a[0]), w) >> self.ev(a[1])
        if n == "ctpop":
            return bin(self.ev(a[0])).count("1")
        if n == "umulov":
            return int(self.ev(a[0]) * self.ev(a[1]) > T.mask(a[0].w))
        if n == "tbl":
            v = self.eng.const_bytes(None, a[0], self.ev(a[1]), a[2])
            if v is None:
                raise NoValue
            return v
        if n == "cbyte":
            o = self.ev(a[1])
            return a[0][o] if o < len(a[0]) else 0
        if n == "addr":
            d = self.val.setdefault(("addr", a[0]), None)
            if d is None:
                d = self.val[("addr", a[0])] = (self.rng.randint(1, 1 << 30)) << 16
            return d
        if n == "addrlt":
            return self.ev(T.op(64, "addr", a[0])) < self.ev(T.op(64, "addr", a[1]))
        if n == "memcmp":
            ln = self.ev(a[4])
            if ln > 4096:
                raise NoValue
            for j in range(ln):
                x = self.cbyte(a[0], self.ev(a[1]) + j)
                y = self.cbyte(a[2], self.ev(a[3]) + j)
                if x != y:
                    return -1 if x < y else 1
            return 0
        if n == "cmpsign":
            return -1 if self.ev(a[0]) < self.ev(a[1]) else 1
        # uninterpreted: one free value per distinct argument valuation
        key = (n, w) + tuple(self.ev(x) if isinstance(x, T.Term) else x for x in a)
        v = self.val.get(("uf",) + key)
        if v is None:
            v = self.val[("uf",) + key] = self.rng.randint(0, T.mask(w))
        return v

    def cbyte(self, src, off):
        return self.ev(self.eng.byte(State(), src, T.const(64, off)))

    def pc(self, pc, depth=0):
        """evaluate the path condition DAG (iteratively along 'and' chains)"""
        memo = self.memo
        stack = [(pc, 0)]
        res = {}

        def go(p):
            while p is not None:
                k = ("pc", id(p))
                if k in memo:
                    return memo[k]
                if p[0] == "and":
                    if bool(self.ev(p[2])) != p[3]:
                        return False
                    p = p[1]
                else:
                    r = go(p[1]) or go(p[2])
                    memo[k] = r
                    return r
            return True
        return go(pc)


def literals(pc, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    while pc is not None:
        if id(pc) in seen:
            return acc
        seen.add(id(pc))
        if pc[0] == "and":
            acc.append((pc[2], pc[3]))
            pc = pc[1]
        else:
            literals(pc[1], acc, seen)
            pc = pc[2]
    return acc


def consts_of(t, acc, depth=0):
    if t.kind == "const":
        acc.add(t.a)
    elif t.kind == "op":
        for x in t.a[1:]:
            if isinstance(x, T.Term) and depth < 6:
                consts_of(x, acc, depth + 1)
    elif t.kind == "lin":
        acc.add(t.a)
        acc.add(T._signed(t.a, t.w) * -1 & T.mask(t.w))
    elif t.kind == "cat":
        for s in t.a:
            if s[0] == "s":
                consts_of(s[1], acc, depth + 1)


def unreal(s):
    """syms that do not stand for a real input (widened values)"""
    return isinstance(s.a, tuple) and s.a and s.a[0] in ("havoc", "loop")


def search(eng, st, goal, extra=(), tries=400, seed=1, pcs=None):
    """values satisfying st's path condition and interval facts with goal(env) true; None if
    not found.  goal: callable(env)->bool"""
    rng = random.Random(seed)
    lits = literals(st.pc)
    ss = set()
    cs = {0, 1}
    for c, _ in lits:
        T.syms(c, ss)
        consts_of(c, cs)
    for t in extra:
        if isinstance(t, T.Term):
            T.syms(t, ss)
            consts_of(t, cs)
    if any(unreal(s) for s in ss):
        return None
    ss = sorted(ss, key=lambda s: s.id)
    cs = sorted(cs)
    known = {}
    for u, (lo, hi) in st.facts.items():
        if u.kind == "cat" and len(u.a) == 1 and u.a[0][1].kind == "sym":
            known.setdefault(u.a[0][1], []).append((u.a[0][2], u.a[0][3], lo, hi))
    for attempt in range(tries):
        env = Env(eng, rng)
        init = []
        for s in ss:
            lo, hi = st.iv(s)
            r = rng.random()
            if r < 0.25:
                v = rng.choice((lo, hi, min(lo + 1, hi), max(hi - 1, lo)))
            elif r < 0.55:
                c = rng.choice(cs) + rng.choice((-1, 0, 0, 1))
                v = min(max(c, lo), hi)
            elif r < 0.75:
                v = lo + int((hi - lo) * rng.random() ** 8)
            else:
                v = rng.randint(lo, hi)
            for p, n, a, b in known.get(s, ()):
                x = a if a == b else rng.choice((a, b, rng.randint(a, b)))
                v = v & ~(T.mask(n) << p) | (x << p)
            n = st.neq.get(s)
            if n and v in n:
                v = rng.randint(lo, hi)
            init.append((s, v & T.mask(s.w)))
            if not isinstance(s.a, tuple) or s.a[0] != "byte":
                env.val[s] = init[-1][1]
        try:
            for s, v in init:
                env.put(s, v)
            if _repair(env, st, rng, lits) and goal(env) and inrange(env):
                return env
        except NoValue:
            continue
    return None


def inrange(env):
    return all(s.aux is None or s.aux[0] <= v <= s.aux[1] for s, v in env.val.items()
               if isinstance(s, T.Term) and s.kind == "sym")


def _repair(env, st, rng, lits, rounds=30):
    for _ in range(rounds):
        env.memo = {}
        if env.pc(st.pc):
            return True
        # pick a violated literal and try to fix one symbol in it
        bad = []
        for c, t in lits:
            try:
                if bool(env.ev(c)) != t:
                    bad.append((c, t))
            except NoValue:
                pass
        if not bad:
            return False
        c, t = rng.choice(bad)
        if not _fix(env, c, t, rng, st):
            s = sorted(T.syms(c), key=lambda s: s.id)
            if not s:
                return False
            x = rng.choice(s)
            lo, hi = st.iv(x)
            env.put(x, rng.randint(lo, hi))
    return False


def _setbits(env, t, v, rng):
    """assign symbols so that term t evaluates to v if t is directly invertible"""
    if t.kind == "sym":
        env.put(t, v & T.mask(t.w))
        return True
    if t.kind == "cat":
        pos = 0
        for s in t.a:
            x = (v >> pos) & T.mask(s[-1])
            pos += s[-1]
            if s[0] == "k":
                if s[1] != x:
                    return False
                continue
            if s[1].kind == "sym":
                b = env.sym(s[1])
                env.put(s[1], b & ~(T.mask(s[3]) << s[2]) | (x << s[2]))
            elif s[2] == 0 and s[3] == s[1].w:
                if not _setbits(env, s[1], x, rng):
                    return False
            elif s[1].kind == "lin":
                b = env.ev(s[1])
                if not _setbits(env, s[1], b & ~(T.mask(s[3]) << s[2]) | (x << s[2]), rng):
                    return False
            else:
                return False
        return True
    if t.kind == "lin":
        items = list(t.b)
        rng.shuffle(items)
        for a, c in items:
            rest = (env.ev(t) - c * env.ev(a)) & T.mask(t.w)
            need = (v - rest) & T.mask(t.w)
            sc = T._signed(c, t.w)
            if sc in (1, -1):
                x = need * sc & T.mask(t.w)
            elif sc and T._signed(need, t.w) % sc == 0:
                x = T._signed(need, t.w) // sc
                if x < 0:
                    continue
            else:
                continue
            if _setbits(env, a, x, rng):
                return True
        return False
    if t.kind == "op" and t.a[0] == "tbl":
        from .engine import tbl_index
        ix = tbl_index(t)
        if ix is None:
            return False
        a, c, k = ix
        c0 = [x for x in range(0, min(4096, T.mask(a.w) + 1))
              if env.eng.const_bytes(None, t.a[1], (k + c * x) & T.mask(64), t.a[3]) == v]
        if not c0:
            return False
        return _setbits(env, a, rng.choice(c0), rng)
    if t.kind == "op" and t.a[0] == "ite":
        return _setbits(env, t.a[2] if env.ev(t.a[1]) else t.a[3], v, rng)
    return False


def _fix(env, c, truth, rng, st):
    if c.kind == "op" and c.a[0] == "not":
        return _fix(env, c.a[1], not truth, rng, st)
    if c.kind in ("sym", "cat"):
        return _setbits(env, c, int(truth), rng)
    if c.kind != "op" or len(c.a) < 3:
        return False
    n, a, b = c.a[0], c.a[1], c.a[2]
    if n in ("and", "or") and c.w == 1:
        x = rng.choice((a, b))
        return _fix(env, x, truth, rng, st)
    if n not in T._INV:
        return False
    if not truth:
        n = T._INV[n]
    if rng.random() < 0.5:
        a, b = b, a
        n = {"ult": "ugt", "uge": "ule", "slt": "sgt", "sge": "sle"}.get(n, n)
    y = env.ev(b)
    m = T.mask(a.w)
    try:
        if n == "eq":
            v = y
        elif n == "ne":
            v = rng.choice(((y + 1) & m, (y - 1) & m, rng.randint(0, m)))
        elif n in ("ult", "slt"):
            v = y - 1 if rng.random() < 0.5 else rng.randint(0, max(y - 1, 0))
        elif n in ("ule", "sle"):
            v = y if rng.random() < 0.5 else rng.randint(0, y)
        elif n in ("ugt", "sgt"):
            v = y + 1 if rng.random() < 0.5 else rng.randint(min(y + 1, m), m)
        else:
            v = y if rng.random() < 0.5 else rng.randint(y, m)
    except ValueError:
        return False
    return _setbits(env, a, v & m, rng)
