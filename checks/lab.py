"""Common ground of the checks: programs, harness calls, abstract input sequences."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from absint import frontend as F
from absint import terms as T
from absint.engine import Engine, Broken
from absint.state import State, Ptr, Agg, Blob
from absint.check import Check
from absint import witness as W

C64 = lambda v: T.const(64, v)
BASE3 = F.BASE[:6]
SRC = {
    "varint": ["bnl/http3/src/codec/varint/encode.cpp", "bnl/http3/src/codec/varint/decode.cpp"],
}


class Lab:
    def __init__(self, sources, models, hooks=(), **kw):
        self.prog = F.program(sources, models=["models.cpp"] + list(models))
        self.eng = Engine(self.prog, hooks, **kw)
        self._const = {}

    def fn(self, name):
        f = self.prog.defs.get(name)
        if f is None:
            raise Broken("harness function %s missing" % name)
        return f

    def call(self, name, args, st):
        return self.eng.call(self.fn(name), args, st)

    def one(self, name, args, st):
        """call expected to have one outcome (construction of inputs)"""
        n = len(self.eng.exits)
        r = self.call(name, args, st)
        bad = [e for e in self.eng.exits[n:] if e.kind != "bound"]
        if len(r) != 1 or bad:
            raise Broken("input construction %s has %d outcomes, exits %s" % (name, len(r), bad[:2]))
        return r[0]

    def const(self, name):
        v = self._const.get(name)
        if v is None:
            r, _ = self.one(name, [], State())
            if r.kind != "const":
                raise Broken("%s is not constant" % name)
            v = self._const[name] = r.a
        return v

    def size(self, t):
        return self.const("vh_sizeof_" + t)

    def err(self, n):
        return self.const("vh_err_" + n)

    def err_name(self, v):
        for n in ("no_error internal wrong_stream closed_critical_stream missing_settings unexpected_frame "
                  "malformed_frame qpack_decompression_failed not_implemented varint_overflow malformed_header "
                  "stream_closed invalid_handle incomplete idle delegate").split():
            if self.err(n) == v:
                return n
        return hex(v)

    # ---- objects -------------------------------------------------------
    def raw(self, st, name, size, default="undef"):
        """a fresh driver object"""
        return st.add_obj((name,), "param", size, default)

    def word(self, st, name, bits=64):
        return st.add_obj((name,), "param", bits // 8)

    def get(self, st, p, bits=64):
        o = st.mem[p.obj]
        v = self.eng.raw_read(st, p.obj, o, C64(0), bits // 8)
        return v if isinstance(v, T.Term) else self.eng.to_int(v)

    def peek(self, st, p, off, n=1):
        return self.eng.raw_read(st, p.obj, st.mem[p.obj], T.add(p.off, C64(off) if isinstance(off, int) else off), n)


class Seq:
    """abstract input sequence: pieces = [(length term, source, offset term)]"""

    def __init__(self, lab, kind, name, st, ptr, pieces, under=None):
        self.lab, self.kind, self.name, self.st, self.ptr, self.pieces, self.under = \
            lab, kind, name, st, ptr, pieces, under

    def __repr__(self):
        return self.name

    def size(self):
        n = C64(0)
        for l, _, _ in self.pieces:
            n = T.add(n, l)
        return n

    def byte(self, st, i):
        """spec: the i-th byte (int or term) of the sequence (valid for i < size)"""
        i = C64(i) if isinstance(i, int) else i
        acc = C64(0)
        out = []
        for j, (l, src, off) in enumerate(self.pieces):
            end = T.add(acc, l)
            inside = True if j == len(self.pieces) - 1 else st.eval(T.icmp("ult", i, end))
            if inside is not False:
                b = self.lab.eng.byte(st, src, T.add(off, T.sub(i, acc)))
                if inside is True:
                    out.append((None, b))
                    break
                out.append((T.icmp("ult", i, end), b))
            acc = end
        r = out[-1][1]
        for c, b in reversed(out[:-1]):
            r = T.ite(c, b, r)
        return r

    def take(self, st, c, truth=True):
        s = st.clone()
        return s if s.take(c, truth) else None


BIG = (1 << 32) - 1


def heap(lab, st, tag, lo=21, hi=BIG, consume=True):
    """a buffer of symbolic size n in [lo,hi] whose first k bytes were consumed: (ptr, len, src, off)"""
    n = T.sym(64, ("n", tag), lo, hi)
    src = ("in", tag)
    s = st.add_obj(("src", tag), "param", n, src)
    b = st.add_obj(("buf", tag), "param", lab.size("buffer"))
    _, st2 = lab.one("vh_buffer_bytes", [b, s, n], st)
    k = C64(0)
    if consume:
        k = T.sym(64, ("k", tag), 0, hi)
        if not st2.take(T.icmp("uge", n, k)):
            raise Broken("k<=n")
        _, st2 = lab.one("vh_consume_buffer", [b, k], st2)
    return st2, b, T.sub(n, k), src, k


def inline(lab, st, tag, n, consume=None):
    """a buffer of constant size n; first `consume` bytes consumed (None: none, True: symbolic)"""
    src = ("in", tag)
    s = st.add_obj(("src", tag), "param", C64(n), src)
    b = st.add_obj(("buf", tag), "param", lab.size("buffer"))
    if n == 0 and consume == "default":
        _, st2 = lab.one("vh_buffer_default", [b], st)
        return st2, b, C64(0), src, C64(0)
    _, st2 = lab.one("vh_buffer_bytes", [b, s, C64(n)], st)
    k = C64(0)
    if consume is True:
        k = T.sym(64, ("k", tag), 0, n)
    elif consume:
        k = C64(consume)
    if consume:
        _, st2 = lab.one("vh_consume_buffer", [b, k], st2)
    return st2, b, T.sub(C64(n), k), src, k


def chain(lab, st, tag, parts):
    """buffers chain; parts: list of ('h', …) heap parts or ints (inline sizes, (n, consumed) pairs)"""
    c = st.add_obj(("chain", tag), "param", lab.size("buffers"))
    _, st = lab.one("vh_buffers_default", [c], st)
    pieces = []
    for j, p in enumerate(parts):
        t = "%s%d" % (tag, j)
        if p == "h":
            st, b, l, src, off = heap(lab, st, t)
        elif p == "hf":
            st, b, l, src, off = heap(lab, st, t, consume=False)
        elif p == "d":
            st, b, l, src, off = inline(lab, st, t, 0, "default")
        elif isinstance(p, tuple):
            st, b, l, src, off = inline(lab, st, t, p[0], p[1])
        else:
            st, b, l, src, off = inline(lab, st, t, p)
        _, st = lab.one("vh_buffers_push", [c, b], st)
        pieces.append((l, src, off))
    return st, c, pieces


def sequences(lab, tier="quick", kinds=("buffer", "buffers", "blook", "bslook"), small=False):
    """the abstract inputs: every container kind, inline/heap/empty/consumed representations"""
    out = []
    bufs = []
    for nm, mk in (("heap buffer", lambda st: heap(lab, st, "x")),
                   ("inline buffer", lambda st: inline(lab, st, "x", 20, True)),
                   ("default buffer", lambda st: inline(lab, st, "x", 0, "default"))):
        st, b, l, src, off = mk(State())
        bufs.append((nm, st, b, [(l, src, off)]))
    if small:
        bufs = bufs[:1]
    shapes = [["hf"], ["d"], [1, "h"], ["d", 2, (5, 5), "h"], [1, 1, 1, "h"], [3, 2]]
    if tier == "thorough":
        shapes += [[], ["h", "h"], [(20, 7), "h"], [1, 1, 1, 1, 1, 1, 1, 1, 1, "h"], [4, "d", 3, "h"]]
    if small:
        shapes = [[1, "h"], ["h"]]
    chains = []
    for sh in shapes:
        st, c, pieces = chain(lab, State(), "c", sh)
        chains.append(("buffers%s" % sh, st, c, pieces or [(C64(0), ("in", "none"), C64(0))]))
    for nm, st, p, pieces in bufs:
        if "buffer" in kinds:
            out.append(Seq(lab, "buffer", nm, st, p, pieces))
    for nm, st, p, pieces in chains:
        if "buffers" in kinds:
            out.append(Seq(lab, "buffers", nm, st, p, pieces))
    for kind, base in (("blook", bufs), ("bslook", chains)):
        if kind not in kinds:
            continue
        for nm, st, p, pieces in base:
            st = st.clone()
            l = st.add_obj(("look",), "param", lab.size(kind))
            _, st = lab.one("vh_%s_make" % kind, [l, p], st)
            q = Seq(lab, kind, "lookahead over " + nm, st, l, pieces, (p, pieces))
            tot = q.size()
            # symbolic position for single-piece inputs, constant otherwise
            if len(pieces) == 1 and not (tot.kind == "const"):
                c = T.sym(64, ("p", "look"), 0, BIG)
                if not st.take(T.icmp("uge", tot, c)):
                    raise Broken("p<=n")
                _, st = lab.one("vh_consume_%s" % kind, [l, c], st)
                l0, src, off = pieces[0]
                q = Seq(lab, kind, q.name + " at p", st, l, [(T.sub(l0, c), src, T.add(off, c))], (p, pieces))
            elif pieces[0][0].kind == "const" and pieces[0][0].a >= 1 and len(pieces) > 1:
                _, st = lab.one("vh_consume_%s" % kind, [l, C64(1)], st)
                l0, src, off = pieces[0]
                q = Seq(lab, kind, q.name + " at 1", st, l,
                        [(T.sub(l0, C64(1)), src, T.add(off, C64(1)))] + pieces[1:], (p, pieces))
            out.append(q)
    return out


def split(st, conds):
    """[state | first true cond] for a list of mutually exclusive, exhaustive conditions"""
    out = []
    for tag, c in conds:
        s = st.clone()
        s.pc = st.pc
        if s.take(c):
            out.append((tag, s))
        st = st.clone()
        if not st.take(c, False):
            return out
    return out


def after(chk, lab, q, st, consumed, rule, what, where=None):
    """obligation: in st the sequence q has advanced by exactly `consumed` (term) bytes: its size
    and every remaining byte are what they have to be (observed through the public interface)"""
    if chk.focus == "memory":
        return
    with chk.on():
        _after(chk, lab, q, st, consumed, "retry" if chk.focus else rule, what, where)


def _after(chk, lab, q, st, consumed, rule, what, where):
    eng = lab.eng
    n0 = len(eng.exits)
    for r, s in lab.call("vh_size_" + q.kind, [q.ptr], st):
        chk.same(eng, rule, s, r, T.sub(q.size(), consumed), what + ": remaining size", where)
        rest = T.sub(q.size(), consumed)
        i = T.sym(64, ("i", "obs"), 0, BIG * 8)
        s2 = s.clone()
        if s2.take(T.icmp("ult", i, rest)):
            for b, s3 in lab.call("vh_at_" + q.kind, [q.ptr, i], s2):
                same_split(chk, lab, rule, s3, b, lambda x: q.byte(x, T.add(consumed, i)),
                           what + ": remaining byte", where)
    ex = eng.exits[n0:]
    del eng.exits[n0:]
    for e in ex:
        if e.kind != "bound":
            chk.never(eng, rule, e.st, "%s: input unusable afterwards: %s" % (what, e.info), e.where)


def same_split(chk, lab, rule, st, actual, expected, what, where=None, depth=0):
    """same(), after splitting on the conditions of a piecewise expectation"""
    exp = expected(st)
    if exp.kind == "op" and exp.a[0] == "ite" and depth < 6:
        for truth in (True, False):
            s = st.clone()
            if s.take(exp.a[1], truth):
                same_split(chk, lab, rule, s, actual, expected, what, where, depth + 1)
        return
    if actual.kind == "op" and actual.a[0] == "ite" and depth < 6:
        for truth in (True, False):
            s = st.clone()
            if s.take(actual.a[1], truth):
                same_split(chk, lab, rule, s, actual.a[2 if truth else 3], expected, what, where, depth + 1)
        return
    chk.same(lab.eng, rule, st, actual, exp, what, where)
