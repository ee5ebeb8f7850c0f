"""C29-C32: buffers, chains of buffers, lookaheads."""
from .lab import *

SOURCES = ["bnl/base/src/base/buffer.cpp", "bnl/base/src/base/buffers.cpp", "bnl/base/src/base/buffer_view.cpp",
           "bnl/base/src/base/string_view.cpp"]
Z = C64(0)


class V:
    """what a buffer has to hold: its length, as a sum of segments (the places it can be cut at),
    and its i-th byte"""

    def __init__(self, ptr, segs, at, windows=None):
        self.ptr, self.segs, self.at, self.windows = ptr, list(segs), at, windows
        self.n = total(self.segs)


def windows(lens):
    out, lo = [], Z
    for n in lens:
        out.append((lo, n))
        lo = T.add(lo, n)
    return out


def total(segs):
    n = Z
    for s in segs:
        n = T.add(n, s)
    return n


def from_source(lab, src, off=Z):
    return lambda st, i: lab.eng.byte(st, src, T.add(off, i))


class History:
    """an abstract state plus what the specification says every buffer variable holds"""

    def __init__(self, st, vs, text):
        self.st, self.vs, self.text = st, vs, text

    def with_(self, st, text, **vs):
        d = dict(self.vs)
        d.update(vs)
        return History(st, {k: v for k, v in d.items() if v is not None}, self.text + "; " + text)


def fresh(lab, st, name, kind="buffer"):
    return st.add_obj((name,), "param", lab.size(kind))


def empty(ptr):
    return V(ptr, [], lambda st, i: T.const(8, 0))


def segments(tag, spec):
    """'s': 1..20 bytes, 'l': more than 20 bytes, a number: that many"""
    return [C64(c) if isinstance(c, int) else T.sym(64, ("n", tag, i, c), 1 if c == "s" else 21, 20 if c == "s" else BIG)
            for i, c in enumerate(spec)]


def start(lab, tag, spec, h=None):
    """a buffer constructed from bytes, to be cut at the segments of spec"""
    st = h.st.clone() if h else State()
    segs = segments(tag, spec)
    src = ("in", tag)
    s = st.add_obj(("src", tag), "param", total(segs), src)
    b = fresh(lab, st, tag)
    _, st = lab.one("vh_buffer_bytes", [b, s, total(segs)], st)
    return History(st, dict(h.vs if h else {}, **{tag: V(b, segs, from_source(lab, src))}),
                   (h.text + "; " if h else "") + "%s of %s bytes" % (tag, "+".join(
                       {"s": "1..20", "l": ">20"}.get(c, str(c)) for c in spec) or "0"))


# ---- operations: History -> [History] ------------------------------------------------------

class Ops:
    def __init__(self, chk, lab, rule):
        self.chk, self.lab, self.rule = chk, lab, rule
        self.k = 0

    def run(self, h, name, args, text):
        """[(ret, state)]; abnormal exits are refuted obligations"""
        out = self.lab.call(name, args, h.st.clone())
        self.chk.exits(self.lab.eng, self.rule, "%s; %s" % (h.text, text))
        return out

    def amount(self, v):
        """how much can be taken: nothing, the first segment, everything"""
        out = [("0 bytes", 0)]
        if len(v.segs) > 1:
            out.append(("some bytes", 1))
        if v.segs:
            out.append(("all bytes", len(v.segs)))
        return out

    def move(self, h, a, b):
        p = fresh(self.lab, h.st, b)
        v = h.vs[a]
        t = "%s=move(%s)" % (b, a)
        return [h.with_(s, t, **{b: V(p, v.segs, v.at), a: empty(v.ptr)})
                for _, s in self.run(h, "vh_buffer_move", [p, v.ptr], t)]

    def assign(self, h, b, a):
        """b = move(a), both exist"""
        va, vb = h.vs[a], h.vs[b]
        t = "%s<-move(%s)" % (b, a)
        if a == b:
            return [h.with_(s, t) for _, s in self.run(h, "vh_buffer_assign", [vb.ptr, va.ptr], t)]
        return [h.with_(s, t, **{b: V(vb.ptr, va.segs, va.at), a: empty(va.ptr)})
                for _, s in self.run(h, "vh_buffer_assign", [vb.ptr, va.ptr], t)]

    def slice(self, h, a, b, only=None):
        out = []
        v = h.vs[a]
        for label, k in self.amount(v):
            if only and label not in only:
                continue
            m = total(v.segs[:k])
            h2 = History(h.st.clone(), h.vs, h.text)
            p = fresh(self.lab, h2.st, b)
            t = "%s=%s.slice(%s)" % (b, a, label)
            for _, s in self.run(h2, "vh_buffer_slice", [p, v.ptr, m], t):
                out.append(h.with_(s, t, **{b: V(p, v.segs[:k], v.at), a: V(v.ptr, v.segs[k:], shifted(v.at, m))}))
        return out

    def consume(self, h, a, only=None):
        out = []
        v = h.vs[a]
        for label, k in self.amount(v):
            if only and label not in only:
                continue
            m = total(v.segs[:k])
            t = "%s.consume(%s)" % (a, label)
            for _, s in self.run(h, "vh_consume_buffer", [v.ptr, m], t):
                out.append(h.with_(s, t, **{a: V(v.ptr, v.segs[k:], shifted(v.at, m))}))
        return out

    def concat(self, h, a, b, c):
        h = History(h.st.clone(), h.vs, h.text)
        p = fresh(self.lab, h.st, c)
        va, vb = h.vs[a], h.vs[b]
        t = "%s=concat(%s,%s)" % (c, a, b)
        return [h.with_(s, t, **{c: V(p, va.segs + vb.segs, joined(va.n, va.at, vb.at),
                                          [(Z, va.n), (va.n, vb.n)])})
                for _, s in self.run(h, "vh_buffer_concat", [p, va.ptr, vb.ptr], t)]

    def write(self, h, a, tag):
        """a[i] = x: changes that byte of a and of nothing else"""
        v = h.vs[a]
        st = h.st.clone()
        i = T.sym(64, ("w", tag), 0, BIG)
        if not st.take(T.icmp("ult", i, v.n)):
            return []
        x = T.sym(8, ("x", tag), 0, 255)
        t = "%s[i]=x" % a
        h2 = History(st, h.vs, h.text)
        at = v.at
        return [h.with_(s, t, **{a: V(v.ptr, v.segs, lambda st, j: T.ite(T.icmp("eq", j, i), x, at(st, j)))})
                for _, s in self.run(h2, "vh_buffer_set", [v.ptr, i, x], t)]

    def destroy(self, h, a):
        v = h.vs[a]
        t = "~%s" % a
        out = []
        for _, s in self.run(h, "vh_buffer_destroy", [v.ptr], t):
            bury(s, v.ptr)
            h2 = h.with_(s, t)
            del h2.vs[a]
            out.append(h2)
        return out


def bury(st, p):
    """the storage of a destroyed object: any later access is a use of dead inline storage"""
    o = st.mem[p.obj]
    st.mem[p.obj] = o.with_(cells={}, freed=True, _key=None)


def shifted(at, m):
    return lambda st, i: at(st, T.add(i, m))


def joined(n, first, second):
    def at(st, i):
        c = T.icmp("ult", i, n)
        r = st.eval(c) if st is not None else None
        if r is True:
            return first(st, i)
        if r is False:
            return second(st, T.sub(i, n))
        return T.ite(c, first(st, i), second(st, T.sub(i, n)))
    return at


# ---- obligations ---------------------------------------------------------------------------

def contents(chk, lab, rule, h, deep=True, names=None):
    """every live buffer has exactly its bytes (through size, empty, [], begin/end)"""
    for name, v in h.vs.items():
        if names is None or name in names:
            content(chk, lab, rule, h.st, "buffer", v, "%s: %s" % (h.text, name), deep)


def content(chk, lab, rule, st, kind, v, what, deep=True):
    eng = lab.eng
    st = st.clone()
    for r, s in lab.call("vh_size_" + kind, [v.ptr], st):
        chk.same(eng, rule, s, r, v.n, what + ".size()")
        if deep:
            for e, s2 in lab.call("vh_empty_" + kind, [v.ptr], s.clone()):
                c = T.icmp("eq", v.n, Z)
                chk.same(eng, rule, s2, e, c, what + ".empty()")
            if kind == "buffer":
                pointers(chk, lab, rule, s, v, what)
        j = T.sym(64, ("i", "obs"), 0, BIG * 8)
        for lo, n in getattr(v, "windows", None) or [(Z, v.n)]:
            i = T.add(lo, j)
            s2 = s.clone()
            if s2.take(T.icmp("ult", j, n)):
                for b, s3 in lab.call("vh_at_" + kind, [v.ptr, i], s2):
                    same_split(chk, lab, rule, s3, b, lambda x: v.at(x, i), what + "[i]")
        if deep:
            s2 = s.clone()
            if s2.take(T.icmp("ult", Z, v.n)):
                for b, s3 in lab.call("vh_front_" + kind, [v.ptr], s2):
                    same_split(chk, lab, rule, s3, b, lambda x: v.at(x, Z), "*" + what)
    chk.exits(eng, rule, what)


def pointers(chk, lab, rule, s, v, what):
    eng = lab.eng
    got = []
    for f in ("data", "mdata", "begin", "mbegin", "end", "mend"):
        r = lab.call("vh_buffer_" + f, [v.ptr], s.clone())
        if len(r) != 1:
            return chk.undec(rule, what + ": pointers depend on more than size")
        got.append(eng.to_ptr(r[0][0]) if isinstance(r[0][0], T.Term) else r[0][0])
    if not all(isinstance(g, Ptr) for g in got):
        # null pointers: only for empty buffers
        if all(isinstance(g, T.Term) and g.kind == "const" and g.a == 0 for g in got):
            chk.holds(eng, rule, s, T.icmp("eq", v.n, Z), what + ": null data with bytes")
        else:
            chk.undec(rule, what + ": data/begin/end %s" % got)
        return
    d = got[0]
    for g, off, n in ((got[1], Z, "data"), (got[2], Z, "begin"), (got[3], Z, "begin"), (got[4], v.n, "end"), (got[5], v.n, "end")):
        if g.obj != d.obj:
            chk.never(eng, rule, s, "%s.%s() points into another object" % (what, n))
        else:
            chk.same(eng, rule, s, T.sub(g.off, d.off), off, "%s.%s()" % (what, n))


def storage(chk, lab, rule, h):
    """no buffer's bytes live in another buffer's inline storage or in released memory"""
    eng = lab.eng
    for name, v in h.vs.items():
        s = h.st.clone()
        if not s.take(T.icmp("ult", Z, v.n)):
            continue
        for r, s2 in lab.call("vh_buffer_data", [v.ptr], s):
            p = eng.to_ptr(r) if isinstance(r, T.Term) else r
            what = "%s: %s" % (h.text, name)
            if not isinstance(p, Ptr):
                chk.never(eng, rule, s2, what + " has bytes but no storage")
            elif p.obj == v.ptr.obj:
                chk.ok(rule)
            else:
                o = s2.mem.get(p.obj)
                if o is not None and o.kind == "heap" and not o.freed:
                    chk.ok(rule)
                else:
                    chk.never(eng, rule, s2, what + " refers to storage it does not own (%s)" % eng.objname(p.obj))
    chk.exits(eng, rule, h.text)


def leaks(chk, lab, rule, st, what):
    live = [k for k, o in st.mem.items() if o.kind == "heap" and not o.freed]
    n = sum(1 for o in st.mem.values() if o.kind == "heap")
    if not live:
        chk.ok(rule, max(n, 1))
    else:
        chk.never(lab.eng, rule, st, "%s: %d block(s) never released" % (what, len(live)))


def teardown(chk, lab, ops, h, order, rule):
    """destroy everything in the given order: the rest stays intact, nothing is left behind"""
    hs = [h]
    for i, a in enumerate(order):
        nxt = []
        for x in hs:
            for y in ops.destroy(x, a):
                # a block may be released only when nothing refers to it any more
                storage(chk, lab, rule, y)
                nxt.append(y)
        hs = nxt
    for x in hs:
        leaks(chk, lab, rule, x.st, x.text)


# ---- representations ------------------------------------------------------------------------

SHAPES = [(), (1,), (20,), (7, 13), (21,), ("l", "l"), ("s", "l"), ("l", "s")]


def representations(chk, lab, ops, tag="a"):
    """histories reaching every way a buffer can hold its bytes"""
    out = []
    st = State()
    b = fresh(lab, st, tag)
    _, st = lab.one("vh_buffer_default", [b], st)
    out.append(History(st, {tag: empty(b)}, "%s default" % tag))
    shapes = list(SHAPES)
    if chk.tier == "thorough":
        shapes += [(19, 1), (1, 19), (20, 1), (1, 20), ("s", "s", "l"), ("l", "s", "l"), ("s", 1)]
    for sh in shapes:
        h = start(lab, tag, sh)
        out.append(h)
        if sh:
            h = start(lab, tag, ("l" if "l" in sh else 1,) + sh if total_ok(sh) else sh)
            out += ops.consume(h, tag, only=("some bytes",) if len(h.vs[tag].segs) > 1 else ("all bytes",))
    return out


def total_ok(sh):
    return any(isinstance(c, str) for c in sh) or sum(sh) < 20


def shared(chk, lab, ops, tag="a"):
    """buffers sharing one block: a and the slices taken from it"""
    out = []
    h = start(lab, tag, ("l", "l", "l"))
    for h1 in ops.slice(h, tag, "p", only=("some bytes",)):
        out.append(h1)
        for h2 in ops.slice(h1, tag, "q", only=("some bytes", "all bytes")):
            out.append(h2)
    h = start(lab, tag, ("l", "s", "l"))
    for h1 in ops.slice(h, tag, "p", only=("some bytes", "all bytes")):
        out.append(h1)
        for h2 in ops.slice(h1, "p", "q", only=("some bytes", "all bytes")):
            out.append(h2)
    return out


def with_other(lab, h, kind):
    """a second buffer y to assign from / to"""
    if kind == "default":
        st = h.st.clone()
        b = fresh(lab, st, "y")
        _, st = lab.one("vh_buffer_default", [b], st)
        return History(st, dict(h.vs, y=empty(b)), h.text + "; y default")
    return start(lab, "y", {"inline": (3, 4), "heap": ("l", "s")}[kind], h)


def explore(chk, lab, ops, h, depth, visit, names=("a", "p", "q", "y", "z", "u")):
    """visit every history obtained from h by up to `depth` operations"""
    visit(h)
    if depth == 0:
        return
    new = next(n for n in ("z", "u", "v", "w") if n not in h.vs)
    for a in list(h.vs):
        nxt = []
        nxt += ops.move(h, a, new)
        nxt += ops.slice(h, a, new)
        nxt += ops.consume(h, a)
        for b in list(h.vs):
            nxt += ops.assign(h, b, a)
        if len(h.vs) > 1:
            nxt += ops.destroy(h, a)
        for x in nxt:
            explore(chk, lab, ops, x, depth - 1, visit)


def lab_(chk):
    lab = Lab(SOURCES, ["h_base.cpp"])
    chk.use(lab.eng)
    lab.eng.no_merge = True
    return lab


def jobs_for(chk, lab, ops, visit, depth):
    """one job per starting history (with the first operations fanned out)"""
    hs = []
    with chk.guard(ops.rule, "representations"):
        hs += representations(chk, lab, ops)
    with chk.guard(ops.rule, "shared representations"):
        hs += shared(chk, lab, ops)
    two = []
    for h in hs:
        for kind in ("default", "inline", "heap"):
            with chk.guard(ops.rule, h.text):
                two.append(with_other(lab, h, kind))
    jobs = []
    for h in hs:
        jobs.append(lambda h=h: guarded(chk, lab, ops, h, depth, visit))
    for h in two:
        jobs.append(lambda h=h: guarded(chk, lab, ops, h, depth - 1, visit))
    return jobs


def guarded(chk, lab, ops, h, depth, visit):
    with chk.guard(ops.rule, h.text):
        explore(chk, lab, ops, h, depth, visit)


def C29(chk):
    lab = lab_(chk)
    rule = "released exactly once, never used after"
    ops = Ops(chk, lab, rule)

    def visit(h):
        storage(chk, lab, rule, h)
        names = list(h.vs)
        for order in (names, names[::-1]):
            teardown(chk, lab, ops, h, order, rule)
    jobs = jobs_for(chk, lab, ops, visit, 2 if chk.tier == "quick" else 3)
    crule = "chains release what they hold"
    cops = Chains(chk, lab, crule)
    chains = chain_starts(chk, lab, cops)

    def cvisit(h):
        names = list(h.vs)
        for order in (names, names[::-1]):
            teardown(chk, lab, cops, h, order, crule)
    for h in chains:
        jobs.append(lambda h=h: cguarded(chk, lab, cops, h, 1 if chk.tier == "quick" else 2, cvisit))
    chk.parallel(jobs)
    return chk.finish(1500, "ownership typestate over the abstract heap: every operation applied to every buffer representation, "
                            "every block owned until its last buffer goes and released exactly then",
                      expl="Sizes, amounts and contents symbolic; a destroyed buffer's own storage is dead, so any reference "
                           "to another buffer's inline bytes is a use of dead storage.")


def C30(chk):
    lab = lab_(chk)
    rule = "bytes preserved"
    ops = Ops(chk, lab, rule)

    def visit(h):
        contents(chk, lab, rule, h)
        names = list(h.vs)
        if len(names) <= 3:
            for a in names:
                for x in ops.write(h, a, "w"):
                    contents(chk, lab, rule, x, False)
                if len(names) == 2:
                    for b in names:
                        for x in ops.concat(h, a, b, "c"):
                            contents(chk, lab, rule, x)
    jobs = jobs_for(chk, lab, ops, visit, 2 if chk.tier == "quick" else 3)
    jobs += [lambda: constructors(chk, lab, ops)]
    chk.parallel(jobs)
    return chk.finish(1500, "symbolic content tracking: after every operation on every representation each buffer's size and "
                            "i-th byte are compared with the specification",
                      expl="Operations: construct, move, assign (also to itself), slice, consume, write, concat; sizes, cut "
                           "points and contents symbolic.")


def constructors(chk, lab, ops):
    """every way to make a buffer from bytes"""
    eng = lab.eng
    rule = ops.rule
    for sh in SHAPES + [("s",)]:
        for name in ("vh_buffer_bytes", "vh_buffer_chars", "vh_buffer_view"):
            with chk.guard(rule, name):
                st = State()
                segs = segments("a", sh)
                n = total(segs)
                s = st.add_obj(("src", "a"), "param", n, ("in", "a"))
                b = fresh(lab, st, "a")
                h = History(st, {}, "%s of %s bytes" % (name[3:], n))
                for _, s2 in ops.run(h, name, [b, s, n], "made"):
                    v = V(b, segs, from_source(lab, ("in", "a")))
                    content(chk, lab, rule, s2, "buffer", v, h.text)
                    # a copy: the source may go
                    s3 = s2.clone()
                    bury(s3, s)
                    content(chk, lab, rule, s3, "buffer", v, h.text + ", source gone")
                    for f, want in (("vh_buffer_asview_size", n),):
                        for r, s4 in lab.call(f, [b], s2.clone()):
                            chk.same(eng, rule, s4, r, want, h.text + " as a view: size")
                    i = T.sym(64, ("i", "view"), 0, BIG)
                    s4 = s2.clone()
                    if s4.take(T.icmp("ult", i, n)):
                        for r, s5 in lab.call("vh_buffer_asview_data", [b], s4):
                            p = eng.to_ptr(r) if isinstance(r, T.Term) else r
                            if not isinstance(p, Ptr):
                                chk.never(eng, rule, s5, h.text + " as a view: no data")
                            else:
                                same_split(chk, lab, rule, s5, lab.peek(s5, p, i), lambda x: v.at(x, i), h.text + " as a view")
                    chk.exits(eng, rule, h.text + " as a view")
        with chk.guard(rule, "sized"):
            st = State()
            segs = segments("a", sh)
            n = total(segs)
            b = fresh(lab, st, "a")
            h = History(st, {}, "buffer(%s)" % n)
            for _, s2 in ops.run(h, "vh_buffer_size", [b, n], "made"):
                for r, s3 in lab.call("vh_size_buffer", [b], s2.clone()):
                    chk.same(eng, rule, s3, r, n, h.text + ".size()")
                i = T.sym(64, ("i", "set"), 0, BIG)
                x = T.sym(8, ("x", "set"), 0, 255)
                if s2.take(T.icmp("ult", i, n)):
                    for _, s3 in ops.run(History(s2, {}, h.text), "vh_buffer_set", [b, i, x], "[i]=x"):
                        for r, s4 in lab.call("vh_at_buffer", [b, i], s3):
                            chk.same(eng, rule, s4, r, x, h.text + "[i] after writing it")
                chk.exits(eng, rule, h.text)


# ---- chains ------------------------------------------------------------------------------------

class Chain:
    """what a chain has to hold: its buffers, front first; each a list of segments with contents"""

    def __init__(self, ptr, parts):
        self.ptr, self.parts = ptr, list(parts)     # parts: (segs, at)
        self.segs = [x for segs, _ in self.parts for x in segs]
        self.n = total(self.segs)
        self.windows = windows([total(segs) for segs, _ in self.parts if segs])

    def at(self, st, i):
        parts = [(total(segs), at) for segs, at in self.parts if segs]
        if not parts:
            return T.const(8, 0)
        f = parts[-1][1]
        for n, at in reversed(parts[:-1]):
            f = joined(n, at, f)
        return f(st, i)

    def cut(self, k):
        """(length, parts taken, parts left) after taking k segments"""
        n = total(self.segs[:k])
        taken, left = [], []
        for segs, at in self.parts:
            if k <= 0:
                left.append((segs, at))
            elif k >= len(segs):
                taken.append((segs, at))
                k -= len(segs)
            else:
                m = total(segs[:k])
                taken.append((segs[:k], at))
                left.append((segs[k:], shifted(at, m)))
                k = -1
        return n, taken, left


class Chains(Ops):
    def cuts(self, c):
        return range(len(c.segs) + 1)

    def cslice(self, h, c, b):
        v = h.vs[c]
        out = []
        for k in self.cuts(v):
            n, taken, left = v.cut(k)
            h2 = History(h.st.clone(), h.vs, h.text)
            p = fresh(self.lab, h2.st, b)
            t = "%s=%s.slice(%d of %d segments)" % (b, c, k, len(v.segs))
            for _, s in self.run(h2, "vh_buffers_slice", [p, v.ptr, n], t):
                out.append(h.with_(s, t, **{b: V(p, v.segs[:k], v.at, windows([total(x) for x, _ in taken if x])),
                                       c: Chain(v.ptr, left)}))
        return out

    def cconsume(self, h, c):
        v = h.vs[c]
        out = []
        for k in self.cuts(v):
            n, taken, left = v.cut(k)
            t = "%s.consume(%d of %d segments)" % (c, k, len(v.segs))
            for _, s in self.run(h, "vh_consume_buffers", [v.ptr, n], t):
                out.append(h.with_(s, t, **{c: Chain(v.ptr, left)}))
        return out

    def push(self, h, c, spec):
        """push a fresh buffer"""
        tag = next("n%d" % i for i in range(99) if ("src", "n%d" % i) not in h.st.mem and "n%d" % i not in h.vs)
        v = h.vs[c]
        h2 = make(self.lab, tag, spec, h)
        x = h2.vs[tag]
        t = "%s.push" % c
        out = []
        for _, s in self.run(h2, "vh_buffers_push", [v.ptr, x.ptr], t):
            out.append(h2.with_(s, t, **{tag: empty(x.ptr), c: Chain(v.ptr, v.parts + [(x.segs, x.at)])}))
        return out

    def pop(self, h, c, b):
        """the first buffer (an implementation may have dropped empty ones)"""
        v = h.vs[c]
        if not v.segs:
            return []
        h2 = History(h.st.clone(), h.vs, h.text)
        p = fresh(self.lab, h2.st, b)
        t = "%s=%s.pop()" % (b, c)
        out = []
        for _, s in self.run(h2, "vh_buffers_pop", [p, v.ptr], t):
            for r, s2 in self.lab.call("vh_size_buffer", [p], s):
                if not v.parts[0][0] and s2.eval(T.icmp("eq", r, Z)) is True:
                    out.append(h.with_(s2, t, **{b: empty(p), c: Chain(v.ptr, v.parts[1:])}))
                    continue
                k = next(i for i, x in enumerate(v.parts) if x[0])
                segs, at = v.parts[k]
                out.append(h.with_(s2, t, **{b: V(p, segs, at), c: Chain(v.ptr, v.parts[k + 1:])}))
        return out

    def cmove(self, h, c, d):
        h2 = History(h.st.clone(), h.vs, h.text)
        p = fresh(self.lab, h2.st, d, "buffers")
        v = h.vs[c]
        t = "%s=move(%s)" % (d, c)
        return [h.with_(s, t, **{d: Chain(p, v.parts), c: Chain(v.ptr, [])})
                for _, s in self.run(h2, "vh_buffers_move", [p, v.ptr], t)]

    def cassign(self, h, d, c):
        v = h.vs[c]
        w = h.vs[d]
        t = "%s<-move(%s)" % (d, c)
        return [h.with_(s, t, **{d: Chain(w.ptr, v.parts), c: Chain(v.ptr, [])})
                for _, s in self.run(h, "vh_buffers_assign", [w.ptr, v.ptr], t)]

    def destroy(self, h, a):
        v = h.vs[a]
        if isinstance(v, V):
            return super().destroy(h, a)
        t = "~%s" % a
        out = []
        for _, s in self.run(h, "vh_buffers_destroy", [v.ptr], t):
            bury(s, v.ptr)
            h2 = h.with_(s, t)
            del h2.vs[a]
            out.append(h2)
        return out


def make(lab, tag, spec, h):
    """a buffer of the given make-up: 'd' default, ('c', ...) all consumed, else segments"""
    if spec == "d":
        st = h.st.clone()
        b = fresh(lab, st, tag)
        _, st = lab.one("vh_buffer_default", [b], st)
        return History(st, dict(h.vs, **{tag: empty(b)}), h.text + "; empty")
    if spec and spec[0] == "c":
        x = start(lab, tag, spec[1:], h)
        v = x.vs[tag]
        _, st = lab.one("vh_consume_buffer", [v.ptr, v.n], x.st)
        return History(st, dict(h.vs, **{tag: empty(v.ptr)}), h.text + "; consumed")
    return start(lab, tag, spec, h)


PARTS = ["d", (3, 4), ("l", "s"), ("s", "l"), ("c", "l")]


def chain_shapes(tier):
    out = [()]
    out += [(a,) for a in PARTS]
    out += [(a, b) for a in PARTS for b in PARTS]
    out += [("d", (3, 4), "d"), ("d", "d", ("l", "s")), ((3, 4), (1,), ("l", "s")), (("s", "l"), "d", ("l", "s")),
            (("l", "s"), (2,), ("c", "l")), (("c", "l"), ("l", "s"), (20,)), ((1,), (1,), (1,), ("l",))]
    if tier == "thorough":
        out += [(a, b, c) for a in PARTS for b in PARTS for c in PARTS]
        out += [((1,),) * k + (("l", "s"),) for k in (5, 9)]
        out += [((5, 6), "d", ("l", "s"), ("c", "l"), (1, 2))]
    return list(dict.fromkeys(out))


def chain_starts(chk, lab, ops):
    out = []
    for sh in chain_shapes(chk.tier):
        with chk.guard(ops.rule, "chain %s" % (sh,)):
            st = State()
            c = fresh(lab, st, "C", "buffers")
            _, st = lab.one("vh_buffers_default", [c], st)
            hs = [History(st, {"C": Chain(c, [])}, "chain")]
            for spec in sh:
                hs = [y for x in hs for y in ops.push(x, "C", spec)]
            out += hs
    return out


def chain_steps(ops, h):
    new = next(n for n in "abcdef" if n not in h.vs)
    for c in [n for n, v in h.vs.items() if isinstance(v, Chain)]:
        yield from ops.cslice(h, c, new)
        yield from ops.cconsume(h, c)
        yield from ops.pop(h, c, new)
        yield from ops.push(h, c, (3, 4))
        yield from ops.push(h, c, "d")
        if sum(isinstance(v, Chain) for v in h.vs.values()) == 1:
            yield from ops.cmove(h, c, "D")


def cexplore(chk, ops, h, depth, visit):
    visit(h)
    if depth:
        for x in chain_steps(ops, h):
            cexplore(chk, ops, x, depth - 1, visit)


def cguarded(chk, lab, ops, h, depth, visit):
    with chk.guard(ops.rule, h.text):
        cexplore(chk, ops, h, depth, visit)


def chain_contents(chk, lab, rule, h):
    for name, v in h.vs.items():
        if not name.startswith("n"):
            content(chk, lab, rule, h.st, "buffer" if isinstance(v, V) else "buffers", v, "%s: %s" % (h.text, name))


def C31(chk):
    lab = lab_(chk)
    rule = "chain equals concatenation"
    ops = Chains(chk, lab, rule)

    def visit(h):
        chain_contents(chk, lab, rule, h)
    jobs = [lambda h=h: cguarded(chk, lab, ops, h, 2, visit) for h in chain_starts(chk, lab, ops)]
    chk.parallel(jobs)
    return chk.finish(1500, "symbolic content tracking of chains: after every operation size, front byte and i-th byte are compared "
                            "with the concatenation of the pushed buffers",
                      expl="Chains of empty, inline, heap and used-up buffers; operations push, pop, slice, consume and move with "
                           "every cut position relative to the buffer boundaries.")


# ---- lookaheads ----------------------------------------------------------------------------------

class Look:
    """what a lookahead has to show: base content from segment k on, count of segments consumed through it"""

    def __init__(self, ptr, base, k, used):
        self.ptr, self.base, self.k, self.used = ptr, base, k, used

    def view(self):
        b, m = self.base, total(self.base.segs[:self.k])
        v = V(self.ptr, b.segs[self.k:], shifted(b.at, m))
        # windows of what is left, along the pieces of the base
        pieces = [x for x, _ in b.parts if x] if isinstance(b, Chain) else [b.segs]
        left, k = [], self.k
        for p in pieces:
            if k < len(p):
                left.append(total(p[k:]))
            k = max(k - len(p), 0)
        v.windows = windows(left)
        return v


class Looks(Chains):
    def make(self, h, base, name):
        kind = "blook" if isinstance(h.vs[base], V) else "bslook"
        h2 = History(h.st.clone(), h.vs, h.text)
        p = fresh(self.lab, h2.st, name, kind)
        t = "%s=lookahead(%s)" % (name, base)
        return [h.with_(s, t, **{name: Look(p, h.vs[base], 0, Z)})
                for _, s in self.run(h2, "vh_%s_make" % kind, [p, h.vs[base].ptr], t)]

    def kind(self, l):
        return "blook" if isinstance(l.base, V) else "bslook"

    def copy(self, h, a, b):
        l = h.vs[a]
        h2 = History(h.st.clone(), h.vs, h.text)
        p = fresh(self.lab, h2.st, b, self.kind(l))
        t = "%s=lookahead(%s)" % (b, a)
        return [h.with_(s, t, **{b: Look(p, l.base, l.k, Z)})
                for _, s in self.run(h2, "vh_%s_copy" % self.kind(l), [p, l.ptr], t)]

    def advance(self, h, a, ks=None):
        l = h.vs[a]
        out = []
        for d in range(len(l.base.segs) - l.k + 1):
            m = total(l.base.segs[l.k:l.k + d])
            t = "%s.consume(%d of %d segments)" % (a, d, len(l.base.segs) - l.k)
            for _, s in self.run(h, "vh_consume_" + self.kind(l), [l.ptr, m], t):
                out.append(h.with_(s, t, **{a: Look(l.ptr, l.base, l.k + d, T.add(l.used, m))}))
        return out


def look_contents(chk, lab, ops, h):
    eng = lab.eng
    for name, v in h.vs.items():
        what = "%s: %s" % (h.text, name)
        if isinstance(v, Look):
            content(chk, lab, ops.rule, h.st, ops.kind(v), v.view(), what)
            for r, s in lab.call("vh_%s_consumed" % ops.kind(v), [v.ptr], h.st.clone()):
                chk.same(eng, ops.rule, s, r, v.used, what + ".consumed()")
            chk.exits(eng, ops.rule, what)
        elif not name.startswith("n"):
            content(chk, lab, ops.rule, h.st, "buffer" if isinstance(v, V) else "buffers", v, what)


def lexplore(chk, lab, ops, h, depth):
    look_contents(chk, lab, ops, h)
    if not depth:
        return
    looks = [n for n, v in h.vs.items() if isinstance(v, Look)]
    for a in looks[-1:]:
        for x in ops.advance(h, a):
            lexplore(chk, lab, ops, x, depth - 1)
    if len(looks) < 3:
        new = ("l", "l2", "l3")[len(looks)]
        for a in looks:
            for x in ops.copy(h, a, new):
                lexplore(chk, lab, ops, x, depth - 1)


def C32(chk):
    lab = lab_(chk)
    rule = "lookahead sees its own position only"
    ops = Looks(chk, lab, rule)
    base = []
    with chk.guard(rule, "buffers"):
        base += [(h, "a") for h in representations(chk, lab, ops)]
        base += [(h, a) for h in shared(chk, lab, ops) for a in list(h.vs)]
    cs = chain_starts(chk, lab, ops)
    base += [(h, "C") for h in cs]
    for h in cs:
        with chk.guard(rule, h.text):
            base += [(x, "C") for x in ops.cconsume(h, "C")[1:2]]

    def job(h, a):
        with chk.guard(rule, h.text):
            for x in ops.make(h, a, "l"):
                lexplore(chk, lab, ops, x, 3 if chk.tier == "quick" else 4)
    chk.parallel([lambda h=h, a=a: job(h, a) for h, a in base])
    return chk.finish(1500, "symbolic content tracking of lookaheads: position, count and every visible byte after make, copy "
                            "(nesting) and consume, and the container unchanged",
                      expl="Over every buffer and chain representation of C30/C31, three levels of nesting, all cut positions.")
