"""Value domain: hash-consed value numbers with a bit-provenance / affine normal form.

An integer value of width w is one of
  Const            known value
  Sym              an analysis input (e.g. "byte 3 of the input"), with its range
  Op               an uninterpreted operation on values (value numbering)
  Cat              concatenation (LSB first) of constant runs and bit slices of
                   atoms (Sym/Op/Lin): the known-bits / bit-provenance component
  Lin              k + sum(c_i * a_i) mod 2^w over atoms: the affine component
Everything here is normalisation of value numbers; feasibility is decided elsewhere
(state.py) from intervals and recorded difference constraints only.
"""

_tab = {}
_next = [0]


class Term:
    __slots__ = ("kind", "w", "a", "b", "id", "aux")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    # identity equality / hash (hash-consed)


def _mk(kind, w, a, b=None, aux=None):
    key = (kind, w, a, b)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.kind, t.w, t.a, t.b, t.aux = kind, w, a, b, aux
        t.id = _next[0]
        _next[0] += 1
        _tab[key] = t
    return t


def const(w, v):
    return _mk("const", w, v & ((1 << w) - 1))


def sym(w, name, lo=0, hi=None):
    """An analysis input.  name identifies it; lo/hi is its inherent range."""
    if hi is None:
        hi = (1 << w) - 1
    return _mk("sym", w, name, (lo, hi), (lo, hi))


def op(w, name, *args, rng=None):
    t = _mk("op", w, (name,) + args)
    if rng and t.aux is None:
        t.aux = rng
    return t


def is_const(t):
    return t.kind == "const"


def cval(t):
    return t.a if t.kind == "const" else None


def is_atom(t):
    return t.kind in ("sym", "op")


def mask(w):
    return (1 << w) - 1


# ---- Cat -----------------------------------------------------------------
# segments: ('k', value, len) or ('s', atom, lo, len), LSB first

def segs(t):
    if t.kind == "const":
        return (("k", t.a, t.w),)
    if t.kind == "cat":
        return t.a
    return (("s", t, 0, t.w),)


def cat(w, ss):
    out = []
    for s in ss:
        ln = s[-1]
        if ln == 0:
            continue
        if out:
            p = out[-1]
            if p[0] == "k" and s[0] == "k":
                out[-1] = ("k", p[1] | (s[1] << p[2]), p[2] + s[2])
                continue
            if p[0] == "s" and s[0] == "s" and p[1] is s[1] and p[2] + p[3] == s[2]:
                out[-1] = ("s", p[1], p[2], p[3] + s[3])
                continue
        out.append(s)
    assert sum(s[-1] for s in out) == w, (w, out)
    if len(out) == 1:
        s = out[0]
        if s[0] == "k":
            return const(w, s[1])
        if s[2] == 0 and s[3] == s[1].w:
            return s[1]
    t = _mk("cat", w, tuple(out))
    return t


def seg_slice(ss, lo, ln):
    out, pos = [], 0
    for s in ss:
        sl = s[-1]
        a, b = max(lo, pos), min(lo + ln, pos + sl)
        if a < b:
            d = a - pos
            if s[0] == "k":
                out.append(("k", (s[1] >> d) & mask(b - a), b - a))
            else:
                out.append(("s", s[1], s[2] + d, b - a))
        pos += sl
    return out


def slice_(t, lo, ln):
    if lo == 0 and ln == t.w:
        return t
    if t.kind == "const":
        return const(ln, t.a >> lo)
    if t.kind == "lin" and lo == 0:
        # low bits of an affine form are the affine form of the low bits
        k, m = t.a & mask(ln), t.b
        acc = {}
        for a, c in m:
            c &= mask(ln)
            if c:
                acc[_low_atom(a, ln)] = acc.get(_low_atom(a, ln), 0) + c
        return _lin(ln, k, acc)
    if t.kind == "op" and t.a[0] == "ite":
        return ite(t.a[1], slice_(t.a[2], lo, ln), slice_(t.a[3], lo, ln))
    return cat(ln, seg_slice(segs(t), lo, ln))


def _low_atom(a, ln):
    return slice_(a, 0, ln) if a.w != ln else a


def narrow(t):
    """rewrite bit fields of affine forms over the fewest low bits that determine them"""
    out = []
    for s in segs(t):
        if s[0] != "k" and s[1].kind == "lin" and s[2] + s[3] < s[1].w:
            out += seg_slice(segs(slice_(s[1], 0, s[2] + s[3])), s[2], s[3])
        else:
            out.append(s)
    return cat(t.w, out)


def zext(t, w):
    if w == t.w:
        return t
    if t.kind == "op" and t.a[0] == "ite":
        return ite(t.a[1], zext(t.a[2], w), zext(t.a[3], w))
    return cat(w, segs(t) + (("k", 0, w - t.w),))


def sext(t, w):
    if w == t.w:
        return t
    if t.kind == "const":
        v = t.a
        if v >> (t.w - 1):
            v |= mask(w) ^ mask(t.w)
        return const(w, v)
    s = segs(t)
    if s[-1][0] == "k":
        top = (s[-1][1] >> (s[-1][2] - 1)) & 1
        return cat(w, s + (("k", mask(w - t.w) if top else 0, w - t.w),))
    return op(w, "sext", t)


trunc = lambda t, w: slice_(t, 0, w)


def shl(t, n):
    if n == 0:
        return t
    if n >= t.w:
        return const(t.w, 0)
    if t.kind == "lin":
        return mulc(t, 1 << n)
    return cat(t.w, (("k", 0, n),) + tuple(seg_slice(segs(t), 0, t.w - n)))


def lshr(t, n):
    if n == 0:
        return t
    if n >= t.w:
        return const(t.w, 0)
    return cat(t.w, tuple(seg_slice(segs(t), n, t.w - n)) + (("k", 0, n),))


def _bits2(a, b, f):
    """apply f on aligned segments; f returns list of segs or None"""
    sa, sb = list(segs(a)), list(segs(b))
    cuts = set()
    for ss in (sa, sb):
        p = 0
        for s in ss:
            p += s[-1]
            cuts.add(p)
    cuts = sorted(cuts)
    out, p = [], 0
    for c in cuts:
        xa, xb = seg_slice(sa, p, c - p), seg_slice(sb, p, c - p)
        r = f(xa[0], xb[0], c - p)
        if r is None:
            return None
        out += r
        p = c
    return cat(a.w, out)


def _maskrun(v, ln, seg, mode):
    """split a constant against a segment bit-run-wise. mode and/or"""
    out, i = [], 0
    while i < ln:
        b = (v >> i) & 1
        j = i
        while j < ln and ((v >> j) & 1) == b:
            j += 1
        if mode == "and":
            out += seg_slice([seg], i, j - i) if b else [("k", 0, j - i)]
        elif mode == "or":
            out += [("k", mask(j - i), j - i)] if b else seg_slice([seg], i, j - i)
        else:  # xor
            if b:
                return None
            out += seg_slice([seg], i, j - i)
        i = j
    return out


def and_(a, b):
    if a is b:
        return a

    def f(x, y, ln):
        if x[0] == "k" and y[0] == "k":
            return [("k", x[1] & y[1], ln)]
        if x[0] == "k":
            return _maskrun(x[1], ln, y, "and")
        if y[0] == "k":
            return _maskrun(y[1], ln, x, "and")
        if x == y:
            return [x]
        return None
    if a.w == 1:
        if is_const(a):
            return b if a.a else a
        if is_const(b):
            return a if b.a else b
        if a is not_(b):
            return const(1, 0)
        return op(1, "and", *sorted((a, b)))
    # lin & low mask -> low bits of the affine form
    for p, q in ((a, b), (b, a)):
        if p.kind == "lin" and q.kind == "const" and q.a and (q.a & (q.a + 1)) == 0:
            n = q.a.bit_length()
            return zext(slice_(p, 0, n), a.w)
    r = _bits2(a, b, f)
    return r if r is not None else op(a.w, "and", *sorted((a, b)))


def or_(a, b):
    if a is b:
        return a

    def f(x, y, ln):
        if x[0] == "k" and y[0] == "k":
            return [("k", x[1] | y[1], ln)]
        if x[0] == "k":
            return _maskrun(x[1], ln, y, "or")
        if y[0] == "k":
            return _maskrun(y[1], ln, x, "or")
        if x == y:
            return [x]
        return None
    if a.w == 1:
        if is_const(a):
            return a if a.a else b
        if is_const(b):
            return b if b.a else a
        if a is not_(b):
            return const(1, 1)
        return op(1, "or", *sorted((a, b)))
    r = _bits2(a, b, f)
    return r if r is not None else op(a.w, "or", *sorted((a, b)))


def not_(t):
    """logical not of an i1"""
    if is_const(t):
        return const(1, 1 - t.a)
    if t.kind == "op":
        if t.a[0] == "not":
            return t.a[1]
        if t.a[0] in _INV:
            return op(1, _INV[t.a[0]], *t.a[1:])
    return op(1, "not", t)


_INV = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq",
        "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def xor(a, b):
    if a is b:
        return const(a.w, 0)
    if is_const(a) and is_const(b):
        return const(a.w, a.a ^ b.a)
    if a.w == 1:
        if is_const(b):
            return not_(a) if b.a else a
        if is_const(a):
            return not_(b) if a.a else b
        return op(1, "ne", *sorted((a, b)))
    if is_const(b) and b.a == mask(b.w) or is_const(a) and a.a == mask(a.w):
        # bitwise not: -x - 1
        x = a if is_const(b) else b
        return sub(const(a.w, mask(a.w)), x)

    def f(x, y, ln):
        if x[0] == "k" and y[0] == "k":
            return [("k", x[1] ^ y[1], ln)]
        if x[0] == "k":
            return _maskrun(x[1], ln, y, "xor")
        if y[0] == "k":
            return _maskrun(y[1], ln, x, "xor")
        if x == y:
            return [("k", 0, ln)]
        return None
    r = _bits2(a, b, f)
    return r if r is not None else op(a.w, "xor", *sorted((a, b)))


# ---- Lin -----------------------------------------------------------------

def _signed(c, w):
    c &= mask(w)
    return c - (1 << w) if c >> (w - 1) else c


def lin_parts(t):
    """(const, {atomterm: coef}) ; atoms are full-width terms (zext'd slices or atoms)"""
    if t.kind == "const":
        return t.a, {}
    if t.kind == "lin":
        return t.a, dict(t.b)
    if t.kind == "cat":
        k, m, pos = 0, {}, 0
        for s in t.a:
            if s[0] == "k":
                k |= s[1] << pos
            else:
                a = _zslice(s, t.w)
                m[a] = m.get(a, 0) + (1 << pos)
            pos += s[-1]
        return k, m
    return 0, {t: 1}


def _zslice(s, w):
    """zero-extended slice as a term of width w"""
    return cat(w, [s] + ([("k", 0, w - s[3])] if w > s[3] else []))


def _lin(w, k, m):
    m = {a: c & mask(w) for a, c in m.items() if c & mask(w)}
    k &= mask(w)
    if not m:
        return const(w, k)
    # merge adjacent slices of one atom: c*x[lo:lo+n] + c*2^n*x[lo+n:..]
    m = _merge(w, m)
    # expressible as a bit concatenation?
    c = _try_cat(w, k, m)
    if c is not None:
        return c
    return _mk("lin", w, k, tuple(sorted(m.items(), key=lambda x: x[0].id)))


def _as_slice(a):
    """atom term of width w that is a zero-extended slice -> (base, lo, len)"""
    if a.kind == "cat":
        ss = a.a
        if len(ss) == 1 and ss[0][0] == "s":
            return ss[0][1], ss[0][2], ss[0][3]
        if len(ss) == 2 and ss[0][0] == "s" and ss[1][0] == "k" and ss[1][1] == 0:
            return ss[0][1], ss[0][2], ss[0][3]
        return None
    return a, 0, a.w


def _merge(w, m):
    sl = {}
    other = {}
    for a, c in m.items():
        s = _as_slice(a)
        if s is None or s[0].kind == "lin":
            other[a] = c
        else:
            sl.setdefault(s[0], {})[(s[1], s[2])] = c
    if all(len(v) == 1 for v in sl.values()):
        return m
    out = dict(other)
    for base, parts in sl.items():
        changed = True
        while changed and len(parts) > 1:
            changed = False
            for (lo, n), c in sorted(parts.items()):
                for (lo2, n2), c2 in sorted(parts.items()):
                    if lo2 == lo + n and c2 == (c << n) & mask(w) and (lo, n) != (lo2, n2):
                        del parts[(lo, n)]
                        del parts[(lo2, n2)]
                        parts[(lo, n + n2)] = c
                        changed = True
                        break
                if changed:
                    break
        for (lo, n), c in parts.items():
            if base.w <= w and lo == 0 and n == base.w and base.w == w:
                out[base] = out.get(base, 0) + c
            else:
                n2 = min(n, w)
                a = _zslice(("s", base, lo, n2), w)
                out[a] = out.get(a, 0) + c
    return {a: c & mask(w) for a, c in out.items() if c & mask(w)}


def _try_cat(w, k, m):
    items = []
    for a, c in m.items():
        if c & (c - 1):
            return None
        s = _as_slice(a)
        if s is None or s[0].kind == "lin":
            if len(m) == 1 and k == 0 and c == 1:
                return a
            return None
        sh = c.bit_length() - 1
        n = min(s[2], w - sh)
        items.append((sh, n, ("s", s[0], s[1], n)))
    items.sort()
    out, pos = [], 0
    for sh, n, s in items:
        if sh < pos:
            return None
        if sh > pos:
            out.append(("k", (k >> pos) & mask(sh - pos), sh - pos))
        if (k >> sh) & mask(n):
            return None
        out.append(s)
        pos = sh + n
    if pos < w:
        out.append(("k", (k >> pos) & mask(w - pos), w - pos))
    return cat(w, out)


def add(a, b):
    if is_const(a) and is_const(b):
        return const(a.w, a.a + b.a)
    ka, ma = lin_parts(a)
    kb, mb = lin_parts(b)
    m = dict(ma)
    for x, c in mb.items():
        m[x] = m.get(x, 0) + c
    return _lin(a.w, ka + kb, m)


def mulc(t, c):
    k, m = lin_parts(t)
    return _lin(t.w, k * c, {x: v * c for x, v in m.items()})


def sub(a, b):
    return add(a, mulc(b, -1))


def mul(a, b):
    if is_const(a):
        return mulc(b, a.a)
    if is_const(b):
        return mulc(a, b.a)
    return op(a.w, "mul", *sorted((a, b)))


def udiv(a, b):
    if is_const(b) and b.a and (b.a & (b.a - 1)) == 0:
        return lshr(a, b.a.bit_length() - 1)
    if is_const(a) and is_const(b) and b.a:
        return const(a.w, a.a // b.a)
    return op(a.w, "udiv", a, b)


def urem(a, b):
    if is_const(b) and b.a and (b.a & (b.a - 1)) == 0:
        return and_(a, const(a.w, b.a - 1))
    if is_const(a) and is_const(b) and b.a:
        return const(a.w, a.a % b.a)
    return op(a.w, "urem", a, b)


def ite(c, a, b):
    if is_const(c):
        return a if c.a else b
    if a is b:
        return a
    return op(a.w, "ite", c, a, b)


def icmp(pred, a, b):
    if a is b:
        return const(1, 1 if pred in ("eq", "ule", "uge", "sle", "sge") else 0)
    if is_const(a) and is_const(b):
        x, y, w = a.a, b.a, a.w
        if pred[0] == "s":
            x, y = _signed(x, w), _signed(y, w)
        r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}
        return const(1, int(r[pred if pred in ("eq", "ne") else pred[1:]]))
    if pred in ("eq", "ne"):
        if is_const(a):
            a, b = b, a
        # i1 comparisons
        if a.w == 1 and is_const(b):
            return a if (b.a == 1) == (pred == "eq") else not_(a)
        if b.kind == "const" and a.kind == "cat":
            # strip constant segments; contradiction -> decided
            pos, nb, keep, kpos = 0, 0, [], 0
            for s in a.a:
                v = (b.a >> pos) & mask(s[-1])
                if s[0] == "k":
                    if s[1] != v:
                        return const(1, int(pred == "ne"))
                else:
                    keep.append(s)
                    nb |= v << kpos
                    kpos += s[-1]
                pos += s[-1]
            if kpos < a.w:
                a, b = cat(kpos, keep), const(kpos, nb)
                if a.w == 1:
                    return icmp(pred, a, b)
        if not is_const(b) and a.id > b.id:
            a, b = b, a
    elif pred in ("ugt", "ule"):
        # canonical: ult/uge with operands swapped
        return icmp({"ugt": "ult", "ule": "uge"}[pred], b, a)
    elif pred in ("sgt", "sle"):
        return icmp({"sgt": "slt", "sle": "sge"}[pred], b, a)
    if pred in ("slt", "sge"):
        r = _sext_cmp(pred, a, b)
        if r is not None:
            return r
    if pred == "ult" and is_const(b) and b.a == 0:
        return const(1, 0)
    if pred == "uge" and is_const(b) and b.a == 0:
        return const(1, 1)
    if pred == "ult" and is_const(b) and b.a == 1:
        return icmp("eq", a, const(a.w, 0))
    if pred == "uge" and is_const(b) and b.a == 1:
        return icmp("ne", a, const(a.w, 0))
    if pred == "ult" and is_const(a) and a.a == 0:
        return icmp("ne", b, const(a.w, 0))
    if pred == "uge" and is_const(a) and a.a == 0:
        return icmp("eq", b, const(a.w, 0))
    return op(1, pred, a, b)


def _sext_cmp(pred, a, b):
    """signed order of sign-extended values is the signed order of the narrow ones"""
    def narrow(t):
        return t.a[1] if t.kind == "op" and t.a[0] == "sext" else None
    x, y = narrow(a), narrow(b)
    w = x.w if x is not None else y.w if y is not None else None
    if w is None:
        return None
    half = 1 << (w - 1)

    def side(t, n):
        if n is not None:
            return n if n.w == w else None
        if t.kind == "const":
            v = t.a - (1 << t.w) if t.a >> (t.w - 1) else t.a
            return const(w, v & mask(w)) if -half <= v < half else v
        return None
    p, q = side(a, x), side(b, y)
    if p is None or q is None:
        return None
    if isinstance(q, int):      # narrow value against a constant outside its range
        return const(1, int((q >= half) == (pred == "slt")))
    if isinstance(p, int):
        return const(1, int((p < -half) == (pred == "slt")))
    return icmp(pred, p, q)


def atoms(t, acc=None):
    if acc is None:
        acc = set()
    if t.kind == "cat":
        for s in t.a:
            if s[0] == "s":
                acc.add(s[1])
    elif t.kind == "lin":
        for a, _ in t.b:
            atoms(a, acc)
    elif t.kind in ("sym", "op"):
        acc.add(t)
    return acc


def syms(t, acc=None):
    """all Sym leaves"""
    if acc is None:
        acc = set()
    for a in atoms(t):
        if a.kind == "sym":
            if a not in acc:
                acc.add(a)
                n = a.a
                if isinstance(n, tuple) and len(n) == 3 and n[0] == "byte" and isinstance(n[2], Term):
                    syms(n[2], acc)
        elif a.kind == "op":
            for x in a.a[1:]:
                if isinstance(x, Term):
                    syms(x, acc)
    return acc


def show(t):
    if t.kind == "const":
        return str(t.a) if t.a < 1 << 16 else hex(t.a)
    if t.kind == "sym":
        return str(t.a) if not isinstance(t.a, tuple) else "_".join(map(str, t.a))
    if t.kind == "op":
        return "%s(%s)" % (t.a[0], ",".join(map(str, t.a[1:])))
    if t.kind == "cat":
        out = []
        for s in reversed(t.a):
            if s[0] == "k":
                out.append("%d'%s" % (s[2], hex(s[1])))
            elif s[2] == 0 and s[3] == s[1].w:
                out.append(show(s[1]))
            else:
                out.append("%s[%d+%d]" % (show(s[1]), s[2], s[3]))
        return "{" + ":".join(out) + "}"
    if t.kind == "lin":
        out = []
        for a, c in t.b:
            c = _signed(c, t.w)
            out.append(("%d*" % c if c not in (1, -1) else "-" if c == -1 else "") + show(a))
        k = _signed(t.a, t.w)
        if k:
            out.append(str(k))
        return "(" + " + ".join(out) + ")"
    return "?"
