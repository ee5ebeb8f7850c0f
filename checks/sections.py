"""C17-C20: header sections and bodies, encoding and decoding."""
import itertools
from .lab import *
from .codec import CLASSES, big_endian, outcome, pieces_byte
from .buffers import V, content, segments, total, from_source, fresh, empty, windows
from .contracts import QpackEncoder, QpackDecoder
from .qpack import header_bytes, text
from . import frame as FR
from .frame import const_varint

SOURCES = FR.SOURCES + ["bnl/base/src/http3/header.cpp", "bnl/http3/src/codec/headers.cpp", "bnl/http3/src/codec/body.cpp"]
QPACK = ["bnl/http3/src/codec/qpack/decode.cpp", "bnl/http3/src/codec/qpack/encode.cpp"]
Z = C64(0)


def make_lab(contract):
    ref = []
    c = contract(ref)
    lab = Lab(F.lib_sources("http3") + F.BASE, ["h_base.cpp", "h_qpack.cpp", "h_frame.cpp", "h_section.cpp"], hooks=c.hooks())
    ref.append(lab)
    lab.contract = c
    lab.eng.no_merge = True
    return lab


# ---- what an encoder has to emit ----------------------------------------------------------

def header_of(st, t, n):
    """the encoding of a frame header of type t and length n: [(state, bytes)]"""
    for lo, hi, k, h in CLASSES:
        s = st.clone()
        if s.take(T.icmp("uge", n, C64(lo))) and s.take(T.icmp("uge", C64(hi), n)):
            yield s, [T.const(8, t)] + big_endian(n, k, h)


def emitted_header(chk, lab, rule, st, buf, t, n, what):
    """the buffer is exactly that frame header"""
    eng = lab.eng
    for s, bs in header_of(st, t, n):
        for r, s1 in lab.call("vh_size_buffer", [buf], s):
            if chk.same(eng, rule, s1, r, C64(len(bs)), what + ": size of the frame header") is not True:
                continue
            for j, b in enumerate(bs):
                for x, s2 in lab.call("vh_at_buffer", [buf, C64(j)], s1):
                    chk.same(eng, rule, s2, x, b, what + ": frame header byte %d" % j)
    chk.exits(eng, rule, what)


class Node:
    """a reached encoder situation: state, what the specification knows, how it was reached"""

    def __init__(self, st, e, todo, phase, text, k=0, moved=0):
        self.st, self.e, self.todo, self.phase, self.text, self.k, self.moved = st, e, todo, phase, text, k, moved

    def next(self, st, op, **kw):
        d = dict(e=self.e, todo=self.todo, phase=self.phase, k=self.k, moved=self.moved)
        d.update(kw)
        return Node(st, d["e"], d["todo"], d["phase"], self.text + " " + op, d["k"], d["moved"])


def flag(chk, lab, rule, nd, fn, want, what):
    for r, s in lab.call(fn, [nd.e], nd.st.clone()):
        chk.same(lab.eng, rule, s, r, T.const(1, int(want)), what)


def changed(chk, lab, rule, ok, s, err, want_err, what):
    if ok:
        chk.never(lab.eng, rule, s, what + ": accepted")
    elif want_err:
        chk.same(lab.eng, rule, s, lab.get(s, err), C64(lab.err(want_err)), what + ": error")
    else:
        chk.ok(rule)


class HeaderEncoder:
    """drives headers::encoder; phase: idle (todo = lines added), frame, lines, end"""
    ops = ("add", "add long", "add rejected", "seal", "encode", "move")
    plan = {"add": "s", "add long": "m", "add very long": "l", "add huge": "h", "add rejected": "x"}

    def __init__(self, chk, lab):
        self.chk, self.lab = chk, lab

    def start(self):
        st = State()
        e = self.lab.raw(st, "enc0", self.lab.size("henc"))
        _, st = self.lab.one("vh_henc_make", [e], st)
        return Node(st, e, (), "idle", "new;")

    def step(self, nd, op):
        chk, lab, eng = self.chk, self.lab, self.lab.eng
        what = "headers::encoder: %s %s" % (nd.text, op)
        st = nd.st.clone()
        out = []
        if op == "move":
            if nd.moved > 1:
                return []
            e = lab.raw(st, "enc%d" % (nd.moved + 1), lab.size("henc"))
            fn = "vh_henc_move"
            if nd.moved:
                _, st = lab.one("vh_henc_make", [e], st)
                fn = "vh_henc_assign"
            for _, s in lab.call(fn, [e, nd.e], st):
                out.append(nd.next(s, op, e=e, moved=nd.moved + 1))
            chk.exits(eng, "sequence", what)
            return out
        err = lab.word(st, "err%d" % nd.k)
        if op.startswith("add"):
            lab.contract.plan = self.plan[op]
            n, nn = text(lab, st, "name%d" % nd.k, "n%d" % nd.k)
            v, vn = text(lab, st, "value%d" % nd.k, "v")
            for ok0, s0 in lab.call("vh_henc_add", [nd.e, n, nn, v, vn, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    ls = lab.contract.lines(s)
                    if nd.phase != "idle":
                        changed(chk, lab, "refused", ok, s, err, None, what)
                        if not ok:
                            out.append(nd.next(s, op, k=nd.k + 1))
                    elif op == "add rejected":
                        changed(chk, lab, "refused", ok, s, err, "malformed_header", what)
                        if not ok:
                            out.append(nd.next(s, op, k=nd.k + 1))
                    elif not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    elif len(ls) != len(nd.todo) + 1 or ls[-1][2].obj != n.obj or ls[-1][3].obj != v.obj:
                        chk.never(eng, "lines", s, what + ": the header was not encoded")
                    else:
                        j = len(ls) - 1
                        out.append(nd.next(s, op, k=nd.k + 1, todo=nd.todo + ((ls[-1][1], ("line", j)),)))
        elif op == "seal":
            for ok0, s0 in lab.call("vh_henc_fin", [nd.e, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if nd.phase != "idle":
                        changed(chk, lab, "refused", ok, s, err, None, what)
                        if not ok:
                            out.append(nd.next(s, op, k=nd.k + 1))
                    elif not nd.todo:
                        # never a valid section: refused now or when encoding
                        out.append(nd.next(s, op, k=nd.k + 1, phase="void" if ok else nd.phase))
                        chk.ok("no empty section")
                    elif not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    else:
                        out.append(nd.next(s, op, k=nd.k + 1, phase="frame"))
        else:
            b = lab.raw(st, "out%d" % nd.k, lab.size("buffer"))
            for ok0, s0 in lab.call("vh_henc_encode", [nd.e, b, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if nd.phase == "idle":
                        changed(chk, lab, "idle", ok, s, err, "idle", what)
                        out += [] if ok else [nd.next(s, op, k=nd.k + 1)]
                    elif nd.phase in ("end", "void"):
                        changed(chk, lab, "refused" if nd.phase == "end" else "no empty section", ok, s, err, None, what)
                        out += [] if ok else [nd.next(s, op, k=nd.k + 1)]
                    elif not ok:
                        chk.never(eng, "lines", s, what + ": nothing emitted")
                    elif nd.phase == "frame":
                        emitted_header(chk, lab, "frame header", s, b, 1, total([x for x, _ in nd.todo]), what)
                        out.append(nd.next(s, op, k=nd.k + 1, phase="lines"))
                    else:
                        L, src = nd.todo[0]
                        content(chk, lab, "lines", s, "buffer", V(b, [L], from_source(lab, src)), what + ": line", deep=False)
                        out.append(nd.next(s, op, k=nd.k + 1, todo=nd.todo[1:], phase="lines" if nd.todo[1:] else "end"))
        chk.exits(eng, "sequence", what)
        for n in out:
            flag(chk, lab, "finished", n, "vh_henc_finished", n.phase == "end", what + ": finished()") if n.phase != "void" else None
        return out


def walk(chk, drv, nd, depth, ops=None, keep=None):
    if depth == 0:
        return
    for op in ops or drv.ops:
        if keep and not keep(nd, op):
            continue
        with chk.guard("sequence", nd.text + " " + op):
            for n in drv.step(nd, op):
                walk(chk, drv, n, depth - 1, ops, keep)


def prefixes(chk, drv, nd, depth, keep=None):
    """the nodes reached by all sequences of that length (run in the parent)"""
    out = [nd]
    for _ in range(depth):
        nxt = []
        for n in out:
            for op in drv.ops:
                if not keep or keep(n, op):
                    with chk.guard("sequence", n.text + " " + op):
                        nxt += drv.step(n, op)
        out = nxt
    return out


def explore(chk, drv, depth, keep=None, chains=()):
    nodes = prefixes(chk, drv, drv.start(), 2, keep)
    jobs = [lambda n=n: walk(chk, drv, n, depth - 2, None, keep) for n in nodes]

    def straight(seq):
        ns = [drv.start()]
        for op in seq:
            nxt = []
            for n in ns:
                with chk.guard("sequence", n.text + " " + op):
                    nxt += drv.step(n, op)
            ns = nxt
    jobs += [lambda c=c: straight(c) for c in chains]
    chk.parallel(jobs)


def C17(chk):
    lab = make_lab(QpackEncoder)
    chk.use(lab.eng)
    drv = HeaderEncoder(chk, lab)

    def keep(nd, op):
        # bound: at most three accepted headers, no two moves in a row
        if op.startswith("add") and op != "add rejected" and nd.phase == "idle" and len(nd.todo) >= 3:
            return False
        return not (op == "move" and nd.text.endswith("move"))
    deep = 5 if chk.tier == "quick" else 6
    chains = []
    for n in (1, 2, 3, 5, 8):
        for m in (None, n, n + 1, n + 2):
            seq = ["add", ("add long", "add very long", "add huge")[n % 3], "add"] * n
            seq = seq[:n] + ["encode", "seal"] + ["encode"] * (n + 1) + ["add", "seal", "encode"]
            if m:
                seq = seq[:m] + ["move"] + seq[m:]
            chains.append(seq)
    explore(chk, drv, deep, keep, chains)
    return chk.finish(2000, "typestate dataflow over headers::encoder: every call sequence up to a bound, field lines replaced by a "
                            "contract (unknown bytes of unknown length)",
                      expl="Calls: add (short, long, rejected header), seal, encode, move; each outcome compared with the draft's "
                           "sequence HEADERS frame header, lines in order, end.")


# ---- body encoder -----------------------------------------------------------------------------

class BodyEncoder:
    """drives body::encoder; phase: open/ended; todo: buffers queued, cur: payload due"""
    ops = ("add", "add long", "add empty", "end", "encode", "move")
    range = {"add": (9, 20), "add long": (100, 16000), "add very long": (20000, 1 << 29), "add huge": (1 << 30, BIG)}

    def __init__(self, chk, lab):
        self.chk, self.lab = chk, lab

    def start(self):
        st = State()
        e = self.lab.raw(st, "enc0", self.lab.size("benc"))
        _, st = self.lab.one("vh_benc_make", [e], st)
        return Node(st, e, (), (False, False), "new;")

    def step(self, nd, op):
        chk, lab, eng = self.chk, self.lab, self.lab.eng
        what = "body::encoder: %s %s" % (nd.text, op)
        st = nd.st.clone()
        out = []
        ended, due = nd.phase
        if op == "move":
            if nd.moved > 1:
                return []
            e = lab.raw(st, "enc%d" % (nd.moved + 1), lab.size("benc"))
            fn = "vh_benc_move"
            if nd.moved:
                _, st = lab.one("vh_benc_make", [e], st)
                fn = "vh_benc_assign"
            for _, s in lab.call(fn, [e, nd.e], st):
                out.append(nd.next(s, op, e=e, moved=nd.moved + 1))
            chk.exits(eng, "sequence", what)
            return out
        err = lab.word(st, "err%d" % nd.k)
        if op.startswith("add"):
            b = fresh(lab, st, "in%d" % nd.k)
            if op == "add empty":
                seg = []
                _, st = lab.one("vh_buffer_default", [b], st)
                src = None
            else:
                seg = [T.sym(64, ("n", nd.k, op), *self.range[op])]
                src = ("in", nd.k)
                s = st.add_obj(("src", nd.k), "param", total(seg), src)
                _, st = lab.one("vh_buffer_bytes", [b, s, total(seg)], st)
            for ok0, s0 in lab.call("vh_benc_add", [nd.e, b, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if ended:
                        changed(chk, lab, "refused", ok, s, err, None, what)
                        out += [] if ok else [nd.next(s, op, k=nd.k + 1)]
                    elif not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    else:
                        out.append(nd.next(s, op, k=nd.k + 1, todo=nd.todo + ((tuple(seg), src),)))
        elif op == "end":
            for ok0, s0 in lab.call("vh_benc_fin", [nd.e, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if not ended and not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    else:
                        # ending twice may be refused or ignored
                        out.append(nd.next(s, op, k=nd.k + 1, phase=(True, due)))
        else:
            b = lab.raw(st, "out%d" % nd.k, lab.size("buffer"))
            for ok0, s0 in lab.call("vh_benc_encode", [nd.e, b, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    out += self.encoded(nd, s, ok, b, err, what)
        chk.exits(eng, "sequence", what)
        for n in out:
            e, d = n.phase
            real = [x for x in n.todo if x[0]]
            if real or not e or d and n.todo[0][0]:
                want = False
            elif n.todo:
                continue        # only empty buffers left: may count as emitted or not
            else:
                want = True
            flag(chk, lab, "finished", n, "vh_benc_finished", want, what + ": finished()")
        return out

    def encoded(self, nd, s, ok, b, err, what):
        chk, lab, eng = self.chk, self.lab, self.lab.eng
        ended, due = nd.phase
        nx = lambda todo, due: [nd.next(s, "encode", k=nd.k + 1, todo=todo, phase=(ended, due))]
        real = [i for i, x in enumerate(nd.todo) if x[0]]
        if not ok:
            if real:
                chk.never(eng, "payload", s, what + ": nothing emitted although data is queued")
                return []
            if ended:
                chk.ok("refused")
            else:
                chk.same(eng, "idle", s, lab.get(s, err), C64(lab.err("idle")), what + ": error")
            return nx(nd.todo, False)     # only empty buffers, if any
        if not nd.todo:
            chk.never(eng, "refused" if ended else "idle", s, what + ": something emitted although nothing is queued")
            return []
        if due and nd.todo:
            seg, src = nd.todo[0]
            if seg:
                content(chk, lab, "payload", s, "buffer", V(b, seg, from_source(lab, src)), what + ": payload", deep=False)
                return nx(nd.todo[1:], False)
        size, s = lab.one("vh_size_buffer", [b], s)
        if s.eval(T.icmp("eq", size, Z)) is True:
            # the payload of an empty buffer
            if not due:
                chk.never(eng, "payload", s, what + ": an empty buffer emitted although a frame header is due")
                return []
            chk.ok("payload")
            return nx(nd.todo[1:], False)
        todo = nd.todo[1:] if due else nd.todo
        i = 0
        while i < len(todo) and not todo[i][0]:
            # this frame header may be the one of an empty buffer
            x, _ = lab.one("vh_at_buffer", [b, C64(1)], s)
            if s.eval(T.icmp("eq", x, T.const(8, 0))) is True:
                break
            i += 1
        if i >= len(todo):
            chk.never(eng, "idle", s, what + ": something emitted although nothing is queued")
            return []
        seg, src = todo[i]
        emitted_header(chk, lab, "frame header", s, b, 0, total(seg), what)
        return nx(todo[i:], True)


def C19(chk):
    lab = make_lab(QpackEncoder)
    chk.use(lab.eng)
    drv = BodyEncoder(chk, lab)

    def keep(nd, op):
        if op.startswith("add") and not nd.phase[0] and len(nd.todo) >= 3:
            return False
        if op.startswith("add") and nd.phase[0] and op != "add":
            return False
        return not (op == "move" and nd.text.endswith("move"))
    deep = 5 if chk.tier == "quick" else 7
    chains = []
    for n in (1, 2, 3, 6):
        for lead in ([], ["encode"], ["encode", "encode"]):
            chains.append(["add", "add long"] * n + lead + ["end"] + ["encode"] * (4 * n + 1) + ["add", "end"])
            chains.append(["add very long", "add", "add huge"] + lead + ["end"] + ["encode"] * 7)
            chains.append((["add long"] + lead + ["add"]) * n + ["encode"] * (4 * n) + ["move", "end", "encode"])
            chains.append(["add", "add empty", "add long"] + lead + ["move", "end"] + ["encode"] * 7)
            chains.append(["add empty", "add"] + lead + ["add empty", "end"] + ["encode"] * 7)
    explore(chk, drv, deep, keep, chains)
    return chk.finish(2000, "typestate dataflow over body::encoder: every call sequence up to a bound, buffers of symbolic size and content",
                      expl="Calls: add (inline, heap, empty buffer), end, encode, move; every emitted buffer is compared with the DATA "
                           "frame header or payload due.")


# ---- decoders ---------------------------------------------------------------------------------

def chooser(want, wide):
    """which classes of what precedes/starts the frame are enumerated (lengths of type and length varints)"""
    def opt(key):
        if key[0] == "type":
            _, depth, n1, name = key
            if depth:
                return n1 == 1 and name in (want, "goaway", None)
            return n1 == 1 or wide and name in (want, None)
        if key[0] == "len":
            _, depth, n1, name, n2 = key
            if name != want and name is not None:
                return n2 == 1 and not depth
            return n2 == 1 or not depth and (wide and n1 == 1 or n2 == 2 and n1 == 1)
        return key[0] == "slen" and key[3] == 0
    return opt


def first_frame(q, st, want, wide):
    """partition by the next frame: (label, state, verdict, data): 'incomplete' (start of unfinished frame),
    'delegate' (its offset), 'frame' (length term, offset of the payload)"""
    for label, s, kind, data in FR.spec(q, st, Z, chooser(want, wide)):
        if kind == "more":
            continue
        if kind == "ok":
            name, acc, end = data
            if name == want:
                yield label, s, "frame", (acc[0], end)
                continue
            yield label, s, "delegate", None
        else:
            allowed, start, name = data
            if name is None or name == want:
                yield label, s, "incomplete", start
            else:
                yield label, s, "delegate", None


def others(q, st, want):
    """frames of other types, recognised by their type alone"""
    for l1, s1, ty, n1 in FR.take_varint(q, st, Z):
        if ty is None:
            continue
        for lt, s2, name in FR.type_classes(s1, ty):
            if name and name != want and n1 in (1, 2, 8):
                yield "%s(type %s)" % (lt, l1), s2, "delegate", None


def given(lab, st, tag, bs):
    """an inline buffer of these byte terms"""
    n = C64(len(bs))
    src = st.add_obj(("src", tag), "param", n, ("in", tag))
    o = st.mem[src.obj]
    for j, x in enumerate(bs):
        lab.eng.raw_write(st, src.obj, st.mem[src.obj], C64(j), 1, x)
    b = st.add_obj(("buf", tag), "param", lab.size("buffer"))
    _, st = lab.one("vh_buffer_bytes", [b, src, n], st)
    return Bytes(lab, "buffer", "given bytes", st, b, [(n, ("in", tag), Z)], bs)


class Bytes(Seq):
    def __init__(self, lab, kind, name, st, ptr, pieces, bs):
        Seq.__init__(self, lab, kind, name, st, ptr, pieces)
        self.bs = bs

    def byte(self, st, i):
        i = C64(i) if isinstance(i, int) else st.resolve(i)
        if i.kind == "const":
            return self.bs[i.a]
        raise Broken("byte at a symbolic position of given bytes")


def parcel(lab, st, kind, tag, segs):
    """an input of these segments: one buffer, a chain of one buffer, a chain of a buffer per segment"""
    n = total(segs)
    groups = [segs] if kind != "parts" else [[x] for x in segs]
    ps = []
    bufs = []
    for j, g in enumerate(groups):
        t = "%s.%d" % (tag, j)
        b = st.add_obj(("buf", t), "param", lab.size("buffer"))
        if not g:
            _, st = lab.one("vh_buffer_default", [b], st)
        else:
            src = st.add_obj(("src", t), "param", total(g), ("in", t))
            _, st = lab.one("vh_buffer_bytes", [b, src, total(g)], st)
        bufs.append(b)
        ps.append((total(g), ("in", t), Z))
    if kind == "buffer":
        return Seq(lab, "buffer", "buffer", st, bufs[0], ps)
    c = st.add_obj(("chain", tag), "param", lab.size("buffers"))
    _, st = lab.one("vh_buffers_default", [c], st)
    for b in bufs:
        _, st = lab.one("vh_buffers_push", [c, b], st)
    return Seq(lab, "buffers", "chain", st, c, ps or [(Z, ("in", "none"), Z)])


def starts(lab, tier):
    for q in sequences(lab, tier, kinds=("buffer", "buffers")):
        if q.name not in ("buffers[3, 2]",):
            yield q


class BodyDecoder:
    want, key = "data", "bdec"

    def __init__(self, chk, lab):
        self.chk, self.lab, self.eng = chk, lab, lab.eng

    def make(self, st):
        d = self.lab.raw(st, "dec", self.lab.size(self.key))
        _, st = self.lab.one("vh_%s_make" % self.key, [d], st)
        return st, d

    def call(self, d, q, st, k, what):
        """[(ok, state, out, err)]"""
        st = st.clone()
        out, err = self.lab.raw(st, "out%d" % k, self.lab.size("buffer")), self.lab.word(st, "err%d" % k)
        r = []
        for ok0, s0 in self.lab.call("vh_bdec_decode_" + q.kind, [d, q.ptr, out, err], st):
            r += [(ok, s, out, err) for ok, s in outcome(self.chk, self.lab, s0, ok0, "decode", what)]
        self.chk.exits(self.eng, "decode", what)
        return r

    def progress(self, d, st, cond, what):
        for r, s in self.lab.call("vh_bdec_in_progress", [d], st.clone()):
            for truth in (True, False):
                s2 = s.clone()
                if s2.take(cond, truth):
                    self.chk.same(self.eng, "in progress", s2, r, T.const(1, int(truth)), what + ": in_progress()")

    def payload(self, d, q, at, ln, res, what):
        """verdict on decoding with the payload [at, at+ln) due; yields (state, bytes still due, consumed)"""
        chk, lab, eng = self.chk, self.lab, self.eng
        for ok, s, out, err in res:
            rest = T.sub(q.size(), at)
            for has in (True, False):
                s1 = s.clone()
                if not s1.take(T.icmp("ult", Z, rest), has):
                    continue
                for due in (True, False):
                    s2 = s1.clone()
                    if not s2.take(T.icmp("ult", Z, ln), due):
                        continue
                    if due and not has:
                        if ok:
                            chk.never(eng, "incomplete", s2, what + ": something handed out although nothing is available")
                            continue
                        chk.same(eng, "incomplete", s2, lab.get(s2, err), C64(lab.err("incomplete")), what + ": error")
                        size, s3 = lab.one("vh_size_" + q.kind, [q.ptr], s2)
                        gone = s3.same(size, Z)
                        after(chk, lab, q, s2, q.size() if gone else Z, "advance", what)
                        self.progress(d, s2, T.const(1, int(gone or at is Z)), what)
                        if gone:
                            yield s2, ln, at
                        continue
                    if not ok:
                        chk.never(eng, "payload", s2, what + ": fails although payload is available")
                        continue
                    for n, s3 in lab.call("vh_size_buffer", [out], s2):
                        if not due:
                            chk.same(eng, "payload", s3, n, Z, what + ": size of an empty payload")
                            k = Z
                        else:
                            chk.holds(eng, "payload", s3, T.icmp("uge", rest, n), what + ": more than available")
                            chk.holds(eng, "payload", s3, T.icmp("uge", ln, n), what + ": past the end of the frame")
                            chk.holds(eng, "payload", s3, T.icmp("ult", Z, n), what + ": nothing")
                            k = n
                            i = T.sym(64, ("i", "obs"), 0, BIG * 8)
                            s4 = s3.clone()
                            if s4.take(T.icmp("ult", i, n)):
                                for b, s5 in lab.call("vh_at_buffer", [out, i], s4):
                                    same_split(chk, lab, "payload", s5, b, lambda x: q.byte(x, T.add(at, i)), what + ": byte")
                        left = T.sub(ln, k)
                        after(chk, lab, q, s3, T.add(at, k), "advance", what)
                        self.progress(d, s3, T.icmp("ult", Z, left), what)
                        yield s3, left, T.add(at, k)

    def script(self, text, feeds, n):
        """a frame of n bytes (sum of segments) whose payload arrives in these pieces; twice"""
        chk, lab, eng = self.chk, self.lab, self.eng
        rounds = 2
        st, d = self.make(State())
        todo = [(st, "")]
        for r in range(rounds):
            nxt = []
            for st, w in todo:
                what = "%s%s: DATA of %s bytes" % (w, text, n)
                with chk.guard("decode", what):
                    st = st.clone()
                    q = given(lab, st, "h%d" % r, [T.const(8, 0)] + big_endian(C64(n), 8, 3))
                    for s, left, at in self.payload(d, q, C64(9), C64(n), self.call(d, q, q.st, 10 * r, what), what):
                        ns = [(s, left)]
                        for k, (kind, segs) in enumerate(feeds):
                            nn = []
                            for s2, left in ns:
                                w2 = "%s, then %s %s" % (what, kind, " ".join(map(str, segs)) or "empty")
                                q2 = parcel(lab, s2.clone(), kind, "r%dk%d" % (r, k), segs)
                                res = self.call(d, q2, q2.st, 10 * r + k + 1, w2)
                                nn += [(s3, l3) for s3, l3, _ in self.payload(d, q2, Z, left, res, w2)]
                            ns = nn
                        nxt += [(s4, what + "; ") for s4, left in ns if s4.eval(T.icmp("eq", left, Z)) is True]
            todo = nxt
        if not todo:
            chk.undec("decode", text + ": script not completed")
        chk.sample({"script": text})

    def first(self, q, part, parts, depth):
        chk, lab, eng = self.chk, self.lab, self.eng
        n = 0
        wide = len(q.pieces) == 1
        for label, st, verdict, data in itertools.chain(first_frame(q, q.st, self.want, wide), others(q, q.st, self.want) if wide else ()):
            n += 1
            if n % parts != part:
                continue
            what = "%s, %s" % (q, label)
            with chk.guard("decode", what):
                st, d = self.make(st)
                if verdict == "frame":
                    # partition by what is due and what is there first
                    for due in (True, False):
                        for has in (True, False):
                            s = st.clone()
                            if s.take(T.icmp("ult", Z, data[0]), due) and s.take(T.icmp("ult", data[1], q.size()), has):
                                self.frame(d, q, self.call(d, q, s, 9, what), data, depth, what)
                    continue
                res = self.call(d, q, st, 9, what)
                if not res:
                    chk.undec("decode", what + ": no outcome")
                for ok, s, out, err in res:
                    if ok:
                        chk.never(eng, verdict, s, what + ": decoded")
                        continue
                    chk.same(eng, verdict, s, lab.get(s, err), C64(lab.err(verdict)), what + ": error")
                    if verdict == "delegate":
                        after(chk, lab, q, s, Z, "advance", what)
                    else:
                        FR.after_skip(chk, lab, q, s, [Z, data], "advance", what)
                    self.untouched(d, s, what)
        chk.sample({"input": q.name, "classes": n})

    def untouched(self, d, s, what):
        self.progress(d, s, T.const(1, 0), what)

    def frame(self, d, q, res, data, depth, what):
        ln, at = data
        for _ in self.payload(d, q, at, ln, res, what):
            pass


def C20(chk):
    lab = make_lab(QpackDecoder)
    chk.use(lab.eng)
    lab.eng.no_merge = False
    drv = BodyDecoder(chk, lab)
    jobs = [lambda q=q, p=p: drv.first(q, p, 4, 0) for q in starts(lab, chk.tier) for p in range(4)]
    R = 1000000
    a, b, x = [T.sym(64, ("seg", t), 21, 400000) for t in "abx"]
    rest = lambda *t: T.sub(C64(R), total(t))
    for kind in ("buffer", "one", "parts"):
        for feeds, n in (([[a], [b], [rest(a, b)]], R), ([[a], [], [rest(a), x]], R), ([[], [rest(), x]], R), ([[rest()]], R),
                         ([[a, b], [rest(a, b), x]], R), ([[C64(1)], [C64(2)], [C64(1)]], 4), ([[C64(1)], [C64(2)], [C64(2)]], 4),
                         ([[a], [C64(1)], [rest(a), C64(1)]], R), ([[a, b, x], [C64(R)]], 1300000)):
            jobs.append(lambda k=kind, f=feeds, n=n: drv.script("payload in %d pieces" % len(f), [(k, g) for g in f], n))
    chk.parallel(jobs)
    return chk.finish(2000, "symbolic position tracking over body::decoder across calls",
                      expl="First call: inputs partitioned by a specification parser of what precedes the DATA frame, its length and the "
                           "bytes available; further calls on the rest and on fresh inputs of any size, the number of bytes still due "
                           "being symbolic.")


class HeaderDecoder(BodyDecoder):
    want, key = "headers", "hdec"

    def call(self, d, q, st, k, what):
        st = st.clone()
        out, err = self.lab.raw(st, "out%d" % k, self.lab.size("header")), self.lab.word(st, "err%d" % k)
        r = []
        for ok0, s0 in self.lab.call("vh_hdec_decode_" + q.kind, [d, q.ptr, out, err], st):
            r += [(ok, s, out, err) for ok, s in outcome(self.chk, self.lab, s0, ok0, "decode", what)]
        self.chk.exits(self.eng, "decode", what)
        return r

    def done(self, d, st, want, what):
        for r, s in self.lab.call("vh_hdec_finished", [d], st.clone()):
            self.chk.same(self.eng, "finished", s, r, T.const(1, int(want)), what + ": finished()")

    def untouched(self, d, s, what):
        self.done(d, s, False, what)

    def frame(self, d, q, res, data, depth, what):
        for _ in self.lines(d, q, data[1], data[0], res, 0, what):
            pass

    def lines(self, d, q, at, ln, res, before, what):
        """verdict on a call with the section's next line at `at`, `before` qpack calls made so far;
        yields (state, position, end reached)"""
        chk, lab, eng = self.chk, self.lab, self.eng
        for ok, s, out, err in res:
            evs = lab.contract.calls(s)
            if s.eval(T.icmp("eq", ln, Z)) is True:
                if ok:
                    chk.never(eng, "section", s, what + ": a header out of an empty section")
                else:
                    chk.same(eng, "section", s, lab.get(s, err), C64(lab.err("malformed_frame")), what + ": error for an empty section")
                continue
            if len(evs) > before + 1:
                chk.never(eng, "one header per line", s, what + ": more than one field line read")
                continue
            if len(evs) == before:
                # nothing read: only an empty section, or no input
                for z, s1 in split(s, [("empty", T.icmp("eq", ln, Z)), ("lines", T.icmp("ult", Z, ln))]):
                    if ok:
                        chk.never(eng, "section", s1, what + ": a header out of nothing")
                    elif z == "empty":
                        chk.same(eng, "section", s1, lab.get(s1, err), C64(lab.err("malformed_frame")), what + ": error for an empty section")
                    else:
                        chk.same(eng, "section", s1, lab.get(s1, err), C64(lab.err("incomplete")), what + ": error")
                continue
            _, how, C = evs[-1]
            tot = lab.contract.total(s)
            if how == "ok":
                for over, s1 in split(s, [("over", T.icmp("ult", ln, tot)), ("fits", T.icmp("uge", ln, tot))]):
                    if over == "over":
                        if ok:
                            chk.never(eng, "section", s1, what + ": a line past the end of the section accepted")
                        else:
                            chk.same(eng, "section", s1, lab.get(s1, err), C64(lab.err("malformed_frame")), what + ": error for a line past the end")
                        continue
                    if not ok:
                        chk.never(eng, "section", s1, what + ": fails although the line fits")
                        continue
                    for which in ("name", "value"):
                        j = len(evs) - 1
                        header_bytes(chk, lab, s1, out, which, T.sym(64, ("H", which, j), 16, 1 << 34),
                                     lambda x, i: eng.byte(x, ("qhdr", which, j), i), what, "header")
                    after(chk, lab, q, s1, T.add(at, C), "advance", what)
                    for end, s2 in split(s1, [(True, T.icmp("eq", tot, ln)), (False, T.icmp("ult", tot, ln))]):
                        self.done(d, s2, end, what)
                        yield s2, T.add(at, C), end
                continue
            if ok:
                chk.never(eng, "section", s, what + ": a header although reading the line failed")
                continue
            pos = T.add(at, C)
            if how == "incomplete":
                have = T.add(tot, T.sub(q.size(), pos))
                for full, s1 in split(s, [(True, T.icmp("uge", have, ln)), (False, T.icmp("ult", have, ln))]):
                    chk.same(eng, "section", s1, lab.get(s1, err), C64(lab.err("malformed_frame" if full else "incomplete")),
                             what + (": error although the section is complete" if full else ": error"))
                    if not full:
                        after(chk, lab, q, s1, pos, "advance", what)
                        self.done(d, s1, False, what)
                        yield s1, pos, False
                continue
            chk.same(eng, "section", s, lab.get(s, err), C64(lab.err(how)), what + ": error")
            self.done(d, s, False, what)

    def more(self, d, q, st, at, ln, end, depth, n, what):
        """further calls, on the rest of the input and on a new one"""
        chk, lab = self.chk, self.lab
        if end:
            for src in ("rest", "new"):
                q2 = q if src == "rest" else parcel(lab, st.clone(), "buffer", "e%d" % n, [T.sym(64, ("e", n), 21, BIG)])
                s0 = st.clone() if src == "rest" else q2.st
                w = what + "; then on more data after the end"
                for ok, s, out, err in self.call(d, q2, s0, n, w):
                    if ok:
                        chk.never(self.eng, "refused", s, w + ": another header")
                    else:
                        chk.ok("refused")
                        after(chk, lab, q2, s, at if src == "rest" else Z, "advance", w)
                        self.done(d, s, True, w)
            return
        if depth == 0:
            return
        todo = [("the rest", q, at, st)]
        for kind in ("buffer", "parts"):
            segs = [T.sym(64, ("seg", n, j), 21, 1 << 20) for j in range(1 if kind == "buffer" else 2)]
            q2 = parcel(lab, st.clone(), kind, "m%d" % n, segs)
            todo.append((str(q2), q2, Z, q2.st))
        for label, q2, at2, s0 in todo:
            w = "%s; then on %s" % (what, label)
            with chk.guard("decode", w):
                res = self.call(d, q2, s0, n, w)
                for s, at3, end2 in self.lines(d, q2, at2, ln, res, len(lab.contract.calls(s0)), w):
                    self.more(d, q2, s, at3, ln, end2, depth - 1, n + 1, w)

    def sections(self, n, same, depth):
        """a HEADERS frame of n bytes; its section in the same input (of m bytes) or arriving later"""
        chk, lab = self.chk, self.lab
        st, d = self.make(State())
        what = "HEADERS of %d bytes" % n
        with chk.guard("decode", what):
            q = given(lab, st, "h", [T.const(8, 1)] + big_endian(C64(n), 8, 3))
            res = self.call(d, q, q.st, 0, what)
            for s, at, end in self.lines(d, q, C64(9), C64(n), res, 0, what):
                self.more(d, q, s, at, C64(n), end, depth, 1, what)
        chk.sample({"section": n})


def C18(chk):
    lab = make_lab(QpackDecoder)
    chk.use(lab.eng)
    lab.eng.no_merge = False
    drv = HeaderDecoder(chk, lab)
    depth = 2 if chk.tier == "quick" else 3
    jobs = [lambda n=n: drv.sections(n, False, depth) for n in (1, 3, 60, 5000, 1 << 40)]
    jobs += [lambda q=q, p=p: drv.first(q, p, 4, 0) for q in starts(lab, chk.tier) for p in range(4)]
    chk.parallel(jobs)
    return chk.finish(2000, "symbolic position tracking over headers::decoder across calls, field lines replaced by a contract (any "
                            "number of bytes, any header, any failure)",
                      expl="First call: inputs partitioned by a specification parser of what precedes the HEADERS frame, its length and "
                           "the bytes available; further calls on the rest and on fresh inputs; the lengths of the lines and of the "
                           "inputs are symbolic.")
