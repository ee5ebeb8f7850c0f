"""Abstract state: memory objects + intervals + difference constraints + event trace."""
from . import terms as T


class Ptr:
    """pointer value: (object id, 64-bit offset term)"""
    __slots__ = ("obj", "off", "_h")

    def __init__(self, obj, off=None):
        self.obj = obj
        self.off = T.const(64, 0) if off is None else off if isinstance(off, T.Term) else T.const(64, off)
        self._h = hash((obj, self.off.id))

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off is self.off

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "&%s+%s" % (oname(self.obj), self.off)


def oname(o):
    if isinstance(o, tuple):
        return ".".join(str(x) if not isinstance(x, tuple) else oname(x) for x in o)
    return str(o)


class Fn:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, Fn) and o.fn is self.fn

    def __hash__(self):
        return hash(("fn", self.fn.name))

    def __repr__(self):
        return "fn:" + self.fn.dem


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.v))


class Blob:
    """content of a byte range of symbolic or constant length copied from elsewhere:
    bytes [off, off+len) of the named content source"""
    __slots__ = ("src", "off")

    def __init__(self, src, off):
        self.src, self.off = src, off

    def __eq__(self, o):
        return isinstance(o, Blob) and o.src == self.src and o.off is self.off

    def __hash__(self):
        return hash((self.src, self.off.id))

    def __repr__(self):
        return "blob(%s@%s)" % (self.src, self.off)


class Ghost:
    """opaque analysis value stored in memory by a contract (hook)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Ghost) and o.v == self.v

    def __hash__(self):
        return hash(("ghost", self.v))

    def __repr__(self):
        return "ghost(%s)" % (self.v,)


class Obj:
    """immutable memory object; cells: {off(int|Term): (len(int|Term), value)}"""
    __slots__ = ("kind", "size", "cells", "default", "freed", "_key", "ro")

    def __init__(self, kind, size, cells=None, default="undef", freed=False, ro=False):
        self.kind, self.size, self.cells, self.default, self.freed, self.ro = \
            kind, size, cells or {}, default, freed, ro
        self._key = None

    def key(self):
        if self._key is None:
            cs = []
            for o, (n, v) in self.cells.items():
                cs.append((o if isinstance(o, int) else ("t", o.id),
                           n if isinstance(n, int) else ("t", n.id), v))
            self._key = (self.kind, self.size if not isinstance(self.size, T.Term) else ("t", self.size.id),
                         self.default, self.freed, frozenset(cs))
        return self._key

    def with_(self, **kw):
        o = Obj(self.kind, self.size, self.cells, self.default, self.freed, self.ro)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


INF = 1 << 130


class State:
    __slots__ = ("mem", "facts", "neq", "ineq", "bools", "events", "cnt", "ghost", "pc", "locs")

    def __init__(self):
        self.mem, self.facts, self.neq, self.ineq, self.bools = {}, {}, {}, (), {}
        self.events, self.cnt, self.ghost, self.pc = (), {}, {}, None
        self.locs = {}

    def clone(self):
        s = State()
        s.mem, s.facts, s.neq, s.ineq = dict(self.mem), dict(self.facts), dict(self.neq), self.ineq
        s.bools, s.events, s.cnt, s.ghost = dict(self.bools), self.events, dict(self.cnt), dict(self.ghost)
        s.pc = self.pc
        s.locs = self.locs
        return s

    def key(self):
        return (frozenset((k, o.key()) for k, o in self.mem.items() if not o.ro), self.events,
                frozenset(self.ghost.items()))

    def event(self, *e):
        self.events = self.events + (tuple(e),)

    def fresh(self, name):
        n = self.cnt.get(name, 0)
        self.cnt[name] = n + 1
        return n

    # ---- units and intervals -------------------------------------------
    @staticmethod
    def unit(seg):
        """canonical key of a bit slice"""
        _, a, lo, n = seg
        if lo == 0 and n == a.w:
            return a
        return T.cat(n, [seg])

    def cover(self, seg):
        """unit of a slice; the whole atom if the slice holds all its non-zero bits"""
        _, a, lo, n = seg
        if lo == 0 and a.kind != "lin" and self.iv(a)[1] <= T.mask(n):
            return a
        return self.unit(seg)

    def seg_iv(self, seg):
        if seg[0] == "k":
            return seg[1], seg[1]
        _, a, lo, n = seg
        al, ah = self.iv(a)
        if lo + n >= a.w or (al >> (lo + n)) == (ah >> (lo + n)):
            m = T.mask(n)
            x, y = (al >> lo) & m, (ah >> lo) & m
            if (al >> lo) > (ah >> lo) or x > y:
                x, y = 0, m
        else:
            x, y = 0, T.mask(n)
        f = self.facts.get(self.unit(seg))
        if f:
            x, y = max(x, f[0]), min(y, f[1])
        return x, y

    def iv(self, t):
        k = t.kind
        if k == "const":
            return t.a, t.a
        if k in ("sym", "op"):
            lo, hi = t.aux if t.aux else (0, T.mask(t.w))
            f = self.facts.get(t)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
            if k == "op":
                r = self._op_iv(t)
                lo, hi = max(lo, r[0]), min(hi, r[1])
            return lo, hi
        if k == "cat":
            lo = hi = pos = 0
            for s in t.a:
                a, b = self.seg_iv(s)
                lo += a << pos
                hi += b << pos
                pos += s[-1]
            f = self.facts.get(t)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
            return lo, hi
        # lin
        k0, m = self.ilin(t)
        lo, hi = self.bounds(k0, m)
        if (lo < 0 or hi > T.mask(t.w)) and self.ineq:
            # use recorded constraints on the same linear form
            if lo < 0 and self.implied(k0, m):
                lo = 0
            if hi > T.mask(t.w):
                neg = {a: -c for a, c in m.items()}
                if self.implied(T.mask(t.w) - k0, neg):
                    hi = T.mask(t.w)
        if lo < 0 or hi > T.mask(t.w):
            lo, hi = 0, T.mask(t.w)
        f = self.facts.get(t)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def _op_iv(self, t):
        n = t.a[0]
        w = t.w
        if n == "ite":
            a, b = self.iv(t.a[2]), self.iv(t.a[3])
            return min(a[0], b[0]), max(a[1], b[1])
        if n == "udiv":
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            if b[0] > 0:
                return a[0] // b[1], a[1] // b[0]
        if n == "sext":
            a = self.siv(t.a[1])
            m = T.mask(w)
            return (a[0] & m, a[1] & m) if (a[0] < 0) == (a[1] < 0) else (0, m)
        if n == "urem":
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            if b[1] > 0:
                return 0, min(a[1], b[1] - 1)
        if n == "mul":
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            if a[1] * b[1] <= T.mask(w):
                return a[0] * b[0], a[1] * b[1]
        if n == "and":
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            return 0, min(a[1], b[1])
        if n == "or":
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            return max(a[0], b[0]), min(T.mask(w), T.mask(max(a[1].bit_length(), b[1].bit_length())))
        return 0, T.mask(w)

    def ilin(self, t):
        """integer linear form with signed coefficients of the top-level term (may wrap)"""
        if t.kind == "const":
            return t.a, {}
        if t.kind == "cat":
            k, m, pos = 0, {}, 0
            for s in t.a:
                if s[0] == "k":
                    k += s[1] << pos
                else:
                    u = self.cover(s)
                    m[u] = m.get(u, 0) + (1 << pos)
                pos += s[-1]
            return k, m
        if t.kind == "lin":
            k, m = T._signed(t.a, t.w), {}
            for a, c in t.b:
                c = T._signed(c, t.w)
                if a.kind == "cat":
                    k2, m2 = self.ilin(a)
                    k += c * k2
                    for u, c2 in m2.items():
                        m[u] = m.get(u, 0) + c * c2
                else:
                    m[a] = m.get(a, 0) + c
            # a large positive constant may have been read as negative: choose the
            # representative that makes the form non-wrapping if there is one
            lo, hi = self.bounds(k, m)
            if hi < 0:
                k += 1 << t.w
            return k, m
        return 0, {t: 1}

    def int_form(self, t):
        """exact integer linear form of the *value* of t (opaque if it might wrap)"""
        if t.kind == "lin":
            k, m = self.ilin(t)
            lo, hi = self.bounds(k, m)
            ok = (lo >= 0 or self.implied(k, m)) and \
                 (hi <= T.mask(t.w) or self.implied(T.mask(t.w) - k, {a: -c for a, c in m.items()}))
            if ok:
                return k, m
            return 0, {t: 1}
        return self.ilin(t)

    def uiv(self, u):
        if u.kind == "cat" and len(u.a) == 1:
            return self.seg_iv(u.a[0])
        if u.kind == "lin":
            f = self.facts.get(u)
            return f if f else (0, T.mask(u.w))
        return self.iv(u)

    def bounds(self, k, m):
        lo = hi = k
        for u, c in m.items():
            a, b = self.uiv(u)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def implied(self, k, m):
        """is k + sum m >= 0 in every concrete state?  intervals, one recorded
        difference constraint, or the sum of two"""
        if self.bounds(k, m)[0] >= 0:
            return True
        if not m or not self.ineq:
            return False
        # upper bound of what constraints can contribute: try those cancelling a term of m
        rel = []
        bounds = self.bounds
        for ck, cm in self.ineq:
            hit = False
            for u, c in cm.items():
                x = m.get(u)
                if x is not None and (x > 0) == (c > 0):
                    hit = True
                    break
            if hit:
                d = dict(m)
                for u, c in cm.items():
                    x = d.get(u, 0) - c
                    if x:
                        d[u] = x
                    else:
                        del d[u]
                if bounds(k - ck, d)[0] >= 0:
                    return True
                rel.append((k - ck, d))
        for dk, d in rel:
            for ck, cm in self.ineq:
                hit = False
                for u, c in cm.items():
                    if d.get(u) == c:
                        hit = True
                        break
                if hit:
                    e = dict(d)
                    for u, c in cm.items():
                        x = e.get(u, 0) - c
                        if x:
                            e[u] = x
                        else:
                            del e[u]
                    if bounds(dk - ck, e)[0] >= 0:
                        return True
        return False

    # ---- conditions ------------------------------------------------------
    def diff(self, a, b):
        ka, ma = self.int_form(a)
        kb, mb = self.int_form(b)
        m = dict(ma)
        for u, c in mb.items():
            m[u] = m.get(u, 0) - c
        return ka - kb, {u: c for u, c in m.items() if c}

    def eval(self, c):
        """truth value of an i1 term: True/False/None"""
        if c.kind == "const":
            return bool(c.a)
        b = self.bools.get(c)
        if b is not None:
            return b
        f = self.facts.get(c)
        if f and f[0] == f[1]:
            return bool(f[0])
        if c.kind == "cat":
            lo, hi = self.iv(c)
            if lo == hi:
                return bool(lo)
            r = self.resolve(c)
            return bool(r.a) if r.kind == "const" else None
        if c.kind != "op":
            return None
        n = c.a[0]
        if n == "not":
            r = self.eval(c.a[1])
            return None if r is None else not r
        if n == "and":
            a, b = self.eval(c.a[1]), self.eval(c.a[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if n == "or":
            a, b = self.eval(c.a[1]), self.eval(c.a[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if n == "ite":
            r = self.eval(c.a[1])
            if r is not None:
                return self.eval(c.a[2 if r else 3])
            a, b = self.eval(c.a[2]), self.eval(c.a[3])
            return a if a == b else None
        if n in T._INV and len(c.a) == 3 and isinstance(c.a[1], T.Term) and isinstance(c.a[2], T.Term):
            inv = self.bools.get(T.not_(c))
            if inv is not None:
                return not inv
            return self._cmp(n, c.a[1], c.a[2])
        return None

    def _cmp(self, n, a, b):
        if n in ("slt", "sge"):
            (al, ah), (bl, bh) = self.siv(a), self.siv(b)
            r = None
            if ah < bl:
                r = True
            elif al >= bh:
                r = False
            elif al >= 0 and bl >= 0:
                return self._cmp("ult" if n == "slt" else "uge", a, b)
            if r is None:
                return None
            return r if n == "slt" else not r
        if n in ("ult", "uge"):
            k, m = self.diff(b, a)       # b - a
            r = None
            if self.implied(k - 1, m):
                r = True
            elif self.implied(-k, {u: -c for u, c in m.items()}):
                r = False
            if r is None:
                return None
            return r if n == "ult" else not r
        if n in ("eq", "ne"):
            r = None
            (al, ah), (bl, bh) = self.iv(a), self.iv(b)
            if ah < bl or bh < al:
                r = False
            elif al == ah and bl == bh:
                r = al == bl
            elif b.kind == "const" and b.a in self.neq.get(a, ()):
                r = False
            else:
                ra, rb = self.resolve(a), self.resolve(b)
                if ra is not a or rb is not b:
                    t = T.icmp("eq", ra, rb)
                    if t.kind == "const":
                        r = bool(t.a)
                    elif t.kind == "op" and t.a[0] == "eq" and t.a[2].kind == "const" and \
                            t.a[2].a in self.neq.get(t.a[1], ()):
                        r = False
                if r is None:
                    k, m = self.diff(a, b)
                    neg = {u: -c for u, c in m.items()}
                    if self.implied(k - 1, m) or self.implied(-k - 1, neg):
                        r = False
                    elif self.implied(k, m) and self.implied(-k, neg):
                        r = True
                    else:
                        d = T.sub(a, b)
                        if d.kind == "const":
                            r = d.a == 0
            if r is None:
                return None
            return r if n == "eq" else not r
        return None

    def siv(self, t):
        lo, hi = self.iv(t)
        half = 1 << (t.w - 1)
        if hi < half:
            return lo, hi
        if lo >= half:
            return lo - 2 * half, hi - 2 * half
        if t.kind == "lin":
            k, m = self.ilin(t)
            lo, hi = self.bounds(k, m)
            if lo >= -half and hi < half:
                return lo, hi
        return -half, half - 1

    def take(self, c, truth=True):
        """assume + record in the path condition (used for witness confirmation)"""
        r = self.eval(c)
        if r is not None:
            return r == truth
        if not self.assume(c, truth):
            return False
        self.pc = ("and", self.pc, c, truth)
        return True

    def join(self, o):
        """self := self join o (memory and events are equal)"""
        if self.facts != o.facts:
            f = {}
            for k, (a, b) in self.facts.items():
                y = o.facts.get(k)
                if y is None:
                    y = o.uiv(k)
                f[k] = (min(a, y[0]), max(b, y[1]))
            for k, (a, b) in o.facts.items():
                if k not in f:
                    y = self.uiv(k)
                    f[k] = (min(a, y[0]), max(b, y[1]))
            self.facts = f
        if self.neq != o.neq:
            n = {}
            for k, s in self.neq.items():
                s2 = o.neq.get(k, frozenset())
                lo, hi = o.uiv(k)
                keep = frozenset(v for v in s if v in s2 or v < lo or v > hi)
                if keep:
                    n[k] = keep
            self.neq = n
        if self.ineq is not o.ineq and self.ineq != o.ineq:
            out = []
            theirs = [(k, m) for k, m in o.ineq]
            for k, m in self.ineq:
                if any(k == k2 and m == m2 for k2, m2 in theirs) or o.implied(k, m):
                    out.append((k, m))
            for k, m in theirs:
                if not any(k == k2 and m == m2 for k2, m2 in out) and self.implied(k, m):
                    out.append((k, m))
            self.ineq = tuple(out)
        if self.bools != o.bools:
            self.bools = {c: t for c, t in self.bools.items() if o.bools.get(c) == t}
        for k, v in o.cnt.items():
            if self.cnt.get(k, 0) < v:
                self.cnt[k] = v
        if self.locs is not o.locs:
            for k, v in o.locs.items():
                if v != self.locs.get(k):
                    self.locs = dict(self.locs)
                    self.locs[k] = tuple(dict.fromkeys(self.locs.get(k, ()) + v))
        if self.pc is not o.pc:
            self.pc = ("or", self.pc, o.pc)

    def assume(self, c, truth):
        """refine by c == truth in place; False if contradictory"""
        r = self.eval(c)
        if r is not None:
            return r == truth
        if c.kind == "op" and c.a[0] == "not":
            return self.assume(c.a[1], not truth)
        self.bools[c] = truth
        if c.kind != "op":
            if c.kind == "cat" or c.kind == "sym":
                u = self.cover(c.a[0]) if c.kind == "cat" and len(c.a) == 1 and c.a[0][0] == "s" else c
                return self._set_unit(u, int(truth), int(truth))
            return True
        n = c.a[0]
        if n == "and" and truth or n == "or" and not truth:
            return self.assume(c.a[1], truth) and self.assume(c.a[2], truth)
        if n == "ite":
            return True
        if n not in T._INV or len(c.a) != 3:
            return True
        a, b = c.a[1], c.a[2]
        if not truth:
            n = T._INV[n]
        if n == "eq":
            return self.assume_eq(a, b)
        if n == "ne":
            if b.kind == "const":
                self.neq[a] = self.neq.get(a, frozenset()) | {b.a}
                lo, hi = self.iv(a)
                s = self.neq[a]
                l2, h2 = lo, hi
                while l2 in s:
                    l2 += 1
                while h2 in s:
                    h2 -= 1
                if l2 > h2:
                    return False
                if (l2, h2) != (lo, hi):
                    return self._add_range(a, l2, h2)
            return True
        if n in ("slt", "sge"):
            (al, ah), (bl, bh) = self.siv(a), self.siv(b)
            if al >= 0 and bl >= 0:
                n = "ult" if n == "slt" else "uge"
            else:
                half = 1 << (a.w - 1)
                if b.kind == "const":
                    if n == "slt" and not 0 < b.a < half:
                        return self._add_range(a, half, b.a - 1 if b.a else T.mask(a.w))
                    if n == "sge" and b.a < half:
                        return self._add_range(a, b.a, half - 1)
                elif n == "sge" and bl >= 0 and bl < half:
                    # a signed-not-less than a non-negative value
                    return self._add_range(a, 0, half - 1)
                return True
        k, m = self.diff(b, a)
        if n == "ult":
            return self.add_ineq(k - 1, m)
        return self.add_ineq(-k, {u: -c for u, c in m.items()})

    def _add_range(self, t, lo, hi):
        k, m = self.int_form(t)
        if not self.add_ineq(k - lo, m):
            return False
        return self.add_ineq(hi - k, {u: -c for u, c in m.items()})

    def _set_unit(self, u, lo, hi):
        a, b = self.uiv(u)
        a, b = max(a, lo), min(b, hi)
        if a > b:
            return False
        self.facts[u] = (a, b)
        # a prefix/suffix slice may determine its base's range
        s = self.neq.get(u)
        if s and a == b and a in s:
            return False
        return True

    def add_ineq(self, k, m):
        """record k + sum m >= 0 and tighten unit intervals"""
        lo, hi = self.bounds(k, m)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        neg = {u: -c for u, c in m.items()}
        if self.implied(-k - 1, neg):
            return False
        if len(m) > 1:
            self.ineq = self.ineq + ((k, m),)
        for _ in range(2):
            for u, c in m.items():
                a, b = self.uiv(u)
                # c*u >= -k - rest_max
                rest_hi = hi - (c * b if c > 0 else c * a)
                if c > 0:
                    v = -rest_hi
                    nl = -((-v) // c) if c else a  # ceil(v/c)
                    if nl > a and not self._set_unit(u, nl, b):
                        return False
                else:
                    v = rest_hi
                    nh = v // (-c)
                    if nh < b and not self._set_unit(u, a, nh):
                        return False
            lo, hi = self.bounds(k, m)
            if hi < 0:
                return False
        return True

    def assume_eq(self, a, b):
        if a.kind == "const":
            a, b = b, a
        if b.kind == "const":
            if b.a in self.neq.get(a, ()):
                return False
            if a.kind == "cat":
                pos = 0
                for s in a.a:
                    v = (b.a >> pos) & T.mask(s[-1])
                    if s[0] == "k":
                        if s[1] != v:
                            return False
                    else:
                        if not self._set_unit(self.cover(s), v, v):
                            return False
                    pos += s[-1]
                return True
            if a.kind in ("sym", "op"):
                return self._set_unit(a, b.a, b.a)
            # lin: single atom solvable
            if len(a.b) == 1 and T._signed(a.b[0][1], a.w) in (1, -1) and a.b[0][0].kind != "cat":
                at, c = a.b[0]
                v = (b.a - a.a) * T._signed(c, a.w)
                return self._set_unit(at, v & T.mask(a.w), v & T.mask(a.w))
            self.facts[a] = (b.a, b.a)
            k, m = self.int_form(a)
            return self.add_ineq(k - b.a, m) and self.add_ineq(b.a - k, {u: -c for u, c in m.items()})
        (al, ah), (bl, bh) = self.iv(a), self.iv(b)
        lo, hi = max(al, bl), min(ah, bh)
        if lo > hi:
            return False
        k, m = self.diff(a, b)
        return self.add_ineq(k, m) and self.add_ineq(-k, {u: -c for u, c in m.items()})

    # ---- resolution --------------------------------------------------------
    def resolve(self, t):
        """replace what is known constant by constants (keeps provenance otherwise)"""
        k = t.kind
        if k == "const":
            return t
        lo, hi = self.iv(t)
        if lo == hi:
            return T.const(t.w, lo)
        if k in ("sym",):
            return self._narrow(t)
        if k == "op":
            if t.a[0] == "ite":
                c = self.eval(t.a[1])
                if c is not None:
                    return self.resolve(t.a[2 if c else 3])
            if t.w > 1:
                return self._narrow(t)
            return t
        if k == "cat":
            out = []
            for s in t.a:
                out += self._res_seg(s)
            r = T.cat(t.w, out)
            return r if r is t else self._fin(r)
        r = T.const(t.w, t.a)
        ch = False
        for a, c in t.b:
            ra = self.resolve(a)
            ch |= ra is not a
            r = T.add(r, T.mulc(ra, c))
        return self._fin(r) if ch else t

    def _fin(self, r):
        if r.kind != "const":
            lo, hi = self.iv(r)
            if lo == hi:
                return T.const(r.w, lo)
        return r

    def canon(self, t):
        """state-independent spelling of an offset: slices that hold all non-zero bits of an
        atom are written as the atom itself"""
        k = t.kind
        if k == "const":
            return t
        lo, hi = self.iv(t)
        if lo == hi:
            return T.const(t.w, lo)
        if self.ineq:
            b, m = self.int_form(t)
            if self.implied(lo - b, {u: -c for u, c in m.items()}):
                return T.const(t.w, lo)
            if self.implied(b - hi, m):
                return T.const(t.w, hi)
        if k == "cat":
            ss = t.a
            if ss[0][0] == "s" and all(x[0] == "k" and x[1] == 0 for x in ss[1:]):
                _, a, l0, n = ss[0]
                if l0 == 0 and a.kind != "lin" and a.w <= t.w and self.iv(a)[1] <= T.mask(n):
                    return a if a.w == t.w else T.zext(a, t.w)
            return self.resolve(t)
        if k == "lin":
            r = T.const(t.w, t.a)
            for a, c in t.b:
                r = T.add(r, T.mulc(self.canon(a), c))
            return r
        return self.resolve(t) if k == "op" and t.a[0] == "ite" else t

    def _res_seg(self, s):
        if s[0] == "k":
            return [s]
        lo, hi = self.seg_iv(s)
        if lo == hi:
            return [("k", lo, s[3])]
        a = s[1]
        # known sub-slices of this atom
        out, p = [], s[2]
        end = s[2] + s[3]
        known = []
        for u, (x, y) in self.facts.items():
            if x == y and u.kind == "cat" and len(u.a) == 1 and u.a[0][1] is a:
                known.append((u.a[0][2], u.a[0][3], x))
        ah = self.iv(a)[1]
        top = ah.bit_length()
        if top < a.w:
            known.append((top, a.w - top, 0))
        known.sort()
        for lo2, n2, v in known:
            x, y = max(lo2, p), min(lo2 + n2, end)
            if x >= y:
                continue
            if x > p:
                out.append(("s", a, p, x - p))
            out.append(("k", (v >> (x - lo2)) & T.mask(y - x), y - x))
            p = y
        if p < end:
            out.append(("s", a, p, end - p))
        return out

    def _narrow(self, t):
        ss = self._res_seg(("s", t, 0, t.w))
        if len(ss) == 1 and ss[0][0] == "s":
            return t
        return T.cat(t.w, ss)

    def same(self, a, b):
        """provably equal values"""
        if a is b:
            return True
        if not isinstance(a, T.Term) or not isinstance(b, T.Term):
            return a == b
        if a.w != b.w:
            return False
        ra, rb = self.resolve(a), self.resolve(b)
        if ra is rb:
            return True
        d = T.sub(ra, rb)
        if d.kind == "const":
            return d.a == 0
        return self._cmp("eq", ra, rb) is True

    # ---- memory --------------------------------------------------------------
    def add_obj(self, oid, kind, size, default="undef", cells=None, ro=False):
        self.mem[oid] = Obj(kind, size, cells or {}, default, False, ro)
        return Ptr(oid, 0)

    def new_obj(self, site, kind, size, default="undef"):
        n = 0
        while (site, n) in self.mem:
            n += 1
        return self.add_obj((site, n), kind, size, default)


