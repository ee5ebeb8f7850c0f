"""C08 and C10: the QPACK static table and the field line encoder/decoder."""
from .lab import *
from .codec import outcome, decode_calls, pieces_byte, prefix_classes, prefix_value
from .huffman import SOURCES
from .literal import LITERAL_SOURCES, obs
from .contracts import Literal, literal_decode_hook
from . import rfc

QPACK_SOURCES = LITERAL_SOURCES + ["bnl/http3/src/codec/qpack/encode.cpp", "bnl/http3/src/codec/qpack/decode.cpp",
                                   "bnl/base/src/http3/header.cpp"]
QPACK_SOURCES = [s for s in QPACK_SOURCES if "literal/" not in s]
NAMES = {}
for _i, (_n, _v) in enumerate(rfc.STATIC):
    NAMES.setdefault(_n, []).append(_i)


def lower_hook(eng, st, args, fn, inst):
    """header_is_lowercase as seen by the encoder/decoder (decided by C36)"""
    out = []
    for t in (True, False):
        s = st.clone()
        s.event("lower", t)
        out.append((T.const(1, int(t)), s))
    return out


def make_lab(lower=True, decode=False):
    lit = Literal()
    ref = []
    hooks = lit.hooks() + [(r"bnl::http3::qpack::literal::decode", literal_decode_hook(ref))]
    if lower:
        hooks.append((r"bnl::http3::header_is_lowercase", lower_hook))
    lab = Lab(QPACK_SOURCES, ["h_base.cpp", "h_qpack.cpp"], hooks=hooks)
    ref.append(lab)
    lab.lit = lit
    return lab


def text(lab, st, name, s):
    """a constant string object: (ptr, length)"""
    b = s.encode("latin1")
    if not b:
        return st.add_obj((name,), "param", C64(1), "undef"), C64(0)
    return st.add_obj((name,), "param", len(b), ("const", b), ro=True), C64(len(b))


def symtext(lab, st, name, lo=0, hi=BIG):
    n = T.sym(64, ("n", name), lo, hi) if lo != hi else C64(lo)
    return st.add_obj((name,), "param", n, ("in", name)), n


class Enc:
    """an encoder in one of its observable situations"""

    def __init__(self, lab, started):
        self.lab, self.started = lab, started
        st = State()
        self.e = lab.raw(st, "enc", lab.size("qenc"))
        _, st = lab.one("vh_qenc_make", [self.e], st)
        if started:
            n, nn = text(lab, st, "first name", ":path")
            v, vn = text(lab, st, "first value", "/")
            d = lab.raw(st, "first dest", 64)
            out, err = lab.word(st, "first out"), lab.word(st, "first err")
            _, st = lab.one("vh_qenc_encode_raw", [self.e, d, n, nn, v, vn, out, err], st)
        self.st = st
        self.count = self.count_of(st)

    def count_of(self, st):
        r, _ = self.lab.one("vh_qenc_count", [self.e], st)
        return r


def lit_of(lab, st, p, n, prefix):
    """the literal the contract stands for: (index, size term)"""
    r = lab.lit.size(lab.eng, st, p, n, T.const(8, prefix))
    return (r[1], r[0]) if r else None


def read_at(lab, dest, buf):
    if buf is None:
        return lambda x, i: lab.peek(x, dest, i)
    return lambda x, i: lab.call("vh_at_buffer", [buf, C64(i) if isinstance(i, int) else i], x)


def blob_is(chk, lab, st, read, off, j, L, high, what, rule):
    """bytes [off, off+L) are literal j, its first byte carrying the instruction bits `high`"""
    eng = lab.eng
    w = 8 - len(high)
    b0 = T.cat(8, list(T.segs(T.slice_(eng.byte(st, ("lit", j), C64(0)), 0, w))) + [("k", int(c), 1) for c in reversed(high)]) \
        if high else eng.byte(st, ("lit", j), C64(0))
    obs(chk, eng, rule, st, lambda x: read(x, off), lambda x: b0, what + ": first byte")
    i = T.sym(64, ("i", "lit"), 1, 1 << 36)
    s = st.clone()
    if s.take(T.icmp("ult", i, L)):
        obs(chk, eng, rule, s, lambda x: read(x, T.add(off, i)), lambda x: eng.byte(x, ("lit", j), i), what + ": byte")


def equal_to(st, p, n, s, lab):
    """does the abstract string equal the constant in every state of st (None: don't know)"""
    b = s.encode("latin1")
    r = st.eval(T.icmp("eq", n, C64(len(b))))
    if r is not True:
        return r
    res = True
    for i, c in enumerate(b):
        x = lab.peek(st, p, i)
        e = st.eval(T.icmp("eq", x, T.const(8, c)))
        if e is False:
            return False
        if e is None:
            res = None
    return res


def line(chk, lab, enc, st, read, size, N, V, what, rules, expect=None):
    """the field line written is one of the three legal forms and denotes the header (N,V)"""
    eng = lab.eng
    (n, nn), (v, vn) = N, V
    off = 0
    if not enc.started:
        for j in (0, 1):
            obs(chk, eng, rules["form"], st, lambda x: read(x, j), lambda x: T.const(8, 0), what + ": section prefix byte %d" % j)
        off = 2
    got = read(st, off)
    rs = got if isinstance(got, list) else [(got, st)]
    for b, s in rs:
        b = s.resolve(b)
        kind = None
        for k, (pos, w, val) in {"indexed": (6, 2, 3), "name reference": (4, 4, 5)}.items():
            t = s.resolve(T.slice_(b, pos, w))
            if t.kind == "const" and t.a == val:
                kind = k
        t = s.resolve(T.slice_(b, 4, 4))
        if kind is None and t.kind == "const" and t.a in (2,):
            kind = "literal name"
        if kind is None:
            chk.same(eng, rules["form"], s, T.slice_(b, 5, 3), T.const(3, 1), what + ": instruction bits")
            continue
        if expect and kind not in expect:
            chk.never(eng, rules["index"], s, "%s: sent as %s instead of %s" % (what, kind, " or ".join(expect)))
            continue
        if kind == "literal name":
            a = lit_of(lab, s, n, nn, 3)
            c = lit_of(lab, s, v, vn, 7) if a else None
            if not c:
                continue
            blob_is(chk, lab, s, read, C64(off), a[0], a[1], "0010", what + ": name literal", rules["form"])
            blob_is(chk, lab, s, read, T.add(C64(off), a[1]), c[0], c[1], "", what + ": value literal", rules["form"])
            total = T.add(C64(off), T.add(a[1], c[1]))
        else:
            p = 6 if kind == "indexed" else 4
            low = s.resolve(T.slice_(b, 0, p))
            if low.kind != "const":
                chk.undec(rules["index"], what + ": index not constant")
                continue
            idx, used = low.a, 1
            if idx == (1 << p) - 1:
                nxt = read(s, off + 1)
                nxt = nxt[0][0] if isinstance(nxt, list) else nxt
                nxt = s.resolve(nxt)
                if nxt.kind != "const" or nxt.a & 0x80:
                    chk.undec(rules["index"], what + ": index not constant")
                    continue
                idx, used = idx + nxt.a, 2
            if idx >= len(rfc.STATIC):
                chk.never(eng, rules["index"], s, "%s: refers to index %d, which does not exist" % (what, idx))
                continue
            en, ev = rfc.STATIC[idx]
            bad = None
            for (pp, ln), s0, label in (((n, nn), en, "name"), ((v, vn), ev, "value")):
                if label == "value" and kind != "indexed":
                    continue
                r = equal_to(s, pp, ln, s0, lab)
                if r is not True:
                    bad = "%s: sent as %s %d (%r) although its %s differs" % (what, kind, idx, rfc.STATIC[idx], label)
                    break
            if bad:
                differs(chk, lab, s, pp, ln, s0, bad, rules["index"])
            else:
                chk.ok(rules["index"])
            total = C64(off + used)
            if kind != "indexed":
                c = lit_of(lab, s, v, vn, 7)
                if not c:
                    continue
                blob_is(chk, lab, s, read, total, c[0], c[1], "", what + ": value literal", rules["form"])
                total = T.add(total, c[1])
        if size is not None:
            chk.same(eng, rules["size"], s, size, total, what + ": length")
        yield s, total, kind


def differs(chk, lab, st, p, n, text_, what, rule):
    """obligation: the abstract string equals text_; a refutation must exhibit one that differs"""
    b = text_.encode("latin1")
    s = st.clone()
    if s.take(T.icmp("eq", n, C64(len(b))), False):
        chk.never(lab.eng, rule, s, what)
    s = st.clone()
    if not s.take(T.icmp("eq", n, C64(len(b)))):
        return
    for i, c in enumerate(b):
        s1 = s.clone()
        if s1.take(T.icmp("eq", lab.peek(s, p, i), T.const(8, c)), False):
            chk.never(lab.eng, rule, s1, what)
            return


RULES8 = {"form": "reference form", "index": "static index", "size": "length"}
RULES10 = {"form": "field line bytes", "index": "static reference", "size": "length"}


def encode_header(chk, lab, enc, mk, what, rules, expect=None, raw=True, buf=True):
    eng = lab.eng
    lab.lit.lits.clear()
    st = enc.st.clone()
    N, V = mk(st)
    out, err = lab.word(st, "out"), lab.word(st, "err")
    a = [N[0], N[1], V[0], V[1]]
    cnt = enc.count
    kinds = set()
    if raw:
        with chk.guard(rules["form"], what + " (raw)"):
            st1 = st.clone()
            dest = lab.raw(st1, "dest", 1 << 40, ("in", "dest"))
            w = "encoder::encode(dest, %s)" % what
            for ok0, s0 in lab.call("vh_qenc_encode_raw", [enc.e, dest] + a + [out, err], st1):
                for ok, s in outcome(chk, lab, s0, ok0, rules["form"], w):
                    if not ok:
                        if not any(e == ("lower", False) for e in s.events):
                            chk.never(eng, rules["form"], s, w + ": rejected")
                        continue
                    n = lab.get(s, out)
                    for s1, total, kind in line(chk, lab, enc, s, read_at(lab, dest, None), n, N, V, w, rules, expect):
                        kinds.add(kind)
                        for c, s2 in lab.call("vh_qenc_count", [enc.e], s1):
                            chk.same(eng, rules["size"], s2, c, T.add(cnt, total), w + ": count")
                        i = T.sym(64, ("i", "after"), 0, 1 << 38)
                        s3 = s1.clone()
                        if rules is RULES10 and s3.take(T.icmp("uge", i, total)):
                            obs(chk, eng, "bytes beyond", s3, lambda x: lab.peek(x, dest, i), lambda x: eng.byte(x, ("in", "dest"), i),
                                w + ": byte beyond the field line")
            chk.exits(eng, rules["form"], w)
    # joining paths would forget which table value was ruled out
    eng.no_merge = rules is RULES10 and expect is not None
    if buf:
        with chk.guard(rules["form"], what + " (buffer)"):
            st1 = st.clone()
            b = lab.raw(st1, "buf", lab.size("buffer"))
            w = "encoder::encode(%s)" % what
            for ok0, s0 in lab.call("vh_qenc_encode_buf", [enc.e, b] + a + [err], st1):
                for ok, s in outcome(chk, lab, s0, ok0, rules["form"], w):
                    low = [e[1] for e in s.events if e[0] == "lower"]
                    if False in low or not ok:
                        rejected(chk, lab, enc, s, ok, err, False in low, w)
                        continue
                    for sz, s1 in lab.call("vh_size_buffer", [b], s):
                        for s2, total, kind in line(chk, lab, enc, s1, read_at(lab, None, b), sz, N, V, w, rules, expect):
                            kinds.add(kind)
                            for c, s3 in lab.call("vh_qenc_count", [enc.e], s2):
                                chk.same(eng, rules["size"], s3, c, T.add(cnt, total), w + ": count")
                            again(chk, lab, enc, s2, w, True)
            chk.exits(eng, rules["form"], w)
    # the size function on its own
    if rules is RULES8 or expect is None:
        return kinds
    with chk.guard(rules["size"], what + " (size)"):
        w = "encoder::encoded_size(%s)" % what
        for ok0, s0 in lab.call("vh_qenc_encoded_size", [enc.e] + a + [out, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, rules["size"], w):
                low = [e[1] for e in s.events if e[0] == "lower"]
                if False in low or not ok:
                    rejected(chk, lab, enc, s, ok, err, False in low, w)
                    continue
                n = lab.get(s, out)
                dest = lab.raw(s, "dest", 1 << 40, ("in", "dest"))
                out2 = lab.word(s, "out2")
                for ok2, s2 in lab.call("vh_qenc_encode_raw", [enc.e, dest] + a + [out2, err], s):
                    if s2.eval(ok2) is True:
                        chk.same(eng, "size agrees", s2, n, lab.get(s2, out2), w + ": differs from the bytes written")
        chk.exits(eng, rules["size"], w)
    eng.no_merge = False
    return kinds


def sizes(chk, lab, enc, tag):
    """the size function agrees with what is written for every entry and every name of the static table"""
    eng = lab.eng
    heads = [(n, v) for n, v in rfc.STATIC] + [(n, None) for n in NAMES]
    jobs = []
    for n, v in heads:
        def job(n=n, v=v):
            lab.lit.lits.clear()
            st = enc.st.clone()
            N = text(lab, st, "name", n)
            V = text(lab, st, "value", v) if v is not None else symtext(lab, st, "value")
            a = [N[0], N[1], V[0], V[1]]
            out, out2, err = lab.word(st, "out"), lab.word(st, "out2"), lab.word(st, "err")
            w = "encoder::encoded_size(%r: %s), %s" % (n, "any value" if v is None else repr(v), tag)
            eng.no_merge = True
            with chk.guard("size agrees", w):
                for ok, s in lab.call("vh_qenc_encoded_size", [enc.e] + a + [out, err], st):
                    if s.eval(ok) is not True:
                        continue
                    size = lab.get(s, out)
                    dest = lab.raw(s, "dest", 1 << 40, ("in", "dest"))
                    for ok2, s2 in lab.call("vh_qenc_encode_raw", [enc.e, dest] + a + [out2, err], s):
                        if s2.eval(ok2) is True:
                            chk.same(eng, "size agrees", s2, size, lab.get(s2, out2), w + ": differs from the bytes written")
            chk.exits(eng, "size agrees", w)
            eng.no_merge = False
        jobs.append(job)
    n = 4
    chk.parallel([lambda k=k: [j() for j in jobs[k::n]] for k in range(n)])


def rejected(chk, lab, enc, s, ok, err, upper, w):
    if not upper:
        chk.never(lab.eng, "upper case", s, w + ": rejected although the name is lower-case")
    elif ok:
        chk.never(lab.eng, "upper case", s, w + ": accepted although the name has upper-case letters")
    else:
        chk.same(lab.eng, "upper case", s, lab.get(s, err), C64(lab.err("malformed_header")), w + ": error")
        for c, s3 in lab.call("vh_qenc_count", [enc.e], s):
            chk.same(lab.eng, "upper case", s3, c, enc.count, w + ": count after rejection")
        again(chk, lab, enc, s, w + ", rejected,", enc.started)


def again(chk, lab, enc, st, w, started):
    """the next header starts (or not) with the section prefix"""
    eng = lab.eng
    st = st.clone()
    n, nn = text(lab, st, "again name", ":path")
    v, vn = text(lab, st, "again value", "/")
    d = lab.raw(st, "again dest", 64, ("in", "again"))
    out, err = lab.word(st, "again out"), lab.word(st, "again err")
    for ok, s in lab.call("vh_qenc_encode_raw", [enc.e, d, n, nn, v, vn, out, err], st):
        exp = [0xc1] if started else [0, 0, 0xc1]
        chk.same(eng, "prefix once", s, lab.get(s, out), C64(len(exp)), w + " then the next header: length")
        for j, b in enumerate(exp):
            chk.same(eng, "prefix once", s, lab.peek(s, d, j), T.const(8, b), w + " then the next header: byte %d" % j)


def C08(chk):
    lab = make_lab()
    eng = lab.eng
    chk.use(eng)
    encs = [Enc(lab, True)]
    for i, (n, v) in enumerate(rfc.STATIC):
        exp = ("indexed", "name reference") if v == "" else ("indexed",)
        encode_header(chk, lab, encs[0], lambda st: (text(lab, st, "name", n), text(lab, st, "value", v)),
                      "%r: %r" % (n, v), RULES8, exp, buf=False)
        chk.sample({"entry": i, "header": [n, v]})
    for n in NAMES:
        encode_header(chk, lab, encs[0], lambda st: (text(lab, st, "name", n), symtext(lab, st, "value")),
                      "%r: any value" % n, RULES8, ("indexed", "name reference"), buf=False)
    encode_header(chk, lab, encs[0], lambda st: (symtext(lab, st, "name"), symtext(lab, st, "value")),
                  "any name: any value", RULES8, buf=False)
    decode_index(chk, lab, "static entry")
    chk.assumptions.append("two strings with the same XXH64 value are possible (the hash is uninterpreted for symbolic strings)")
    return chk.finish(2000, "constant/bit-provenance dataflow over qpack::encoder and qpack::decoder, per static table entry",
                      expl="Each of the 99 entries as constant header; each static name with a symbolic value; a symbolic header; "
                           "each decoder index class.")


EDGES = (0, 1, 13, 14, 15, 16, 61, 62, 63, 64, 97, 98)


class View(Seq):
    """the sequence as it is after `n` bytes were dropped from its (sole or first heap) piece"""

    def __init__(self, q, n):
        p = list(q.pieces)
        k = 0
        todo = n
        while todo:
            l, src, off = p[k]
            t = todo if l.kind != "const" else min(todo, l.a)
            p[k] = (T.sub(l, C64(t)), src, T.add(off, C64(t)))
            todo -= t
            k += 1
        Seq.__init__(self, q.lab, q.kind, q.name, q.st, q.ptr, p, q.under)


def header_bytes(chk, lab, st, out, which, size, byte, what, rule):
    eng = lab.eng
    for n, s in lab.call("vh_header_%s_size" % which, [out], st):
        if chk.same(eng, rule, s, n, size, "%s: %s size" % (what, which)) is not True:
            continue
        for p, s2 in lab.call("vh_header_%s_data" % which, [out], s):
            js = range(size.a) if size.kind == "const" else [T.sym(64, ("i", "hdr"), 0, 1 << 34)]
            for j in js:
                s3 = s2.clone()
                if isinstance(j, T.Term) and not s3.take(T.icmp("ult", j, size)):
                    continue
                obs(chk, eng, rule, s3, lambda x: lab.peek(x, p, j), lambda x: byte(x, j), "%s: %s character" % (what, which))


def decoders(lab, q, with_prefix):
    """(decoder pointer, state, view, bytes of prefix in q)"""
    st = q.st.clone()
    d = lab.raw(st, "dec", lab.size("qdec"))
    _, st = lab.one("vh_qdec_make", [d], st)
    if not with_prefix:
        # another, exhausted input carried the section prefix
        src = st.add_obj(("pre",), "param", 2, ("in", "pre"))
        b = lab.raw(st, "prebuf", lab.size("buffer"))
        _, st = lab.one("vh_buffer_bytes", [b, src, C64(2)], st)
        h, err = lab.raw(st, "prehdr", lab.size("header")), lab.word(st, "preerr")
        _, st = lab.one("vh_qdec_decode_buffer", [d, b, h, err], st)
    return d, st


def run(chk, lab, d, q, st, rule, what):
    out, err = lab.raw(st, "out", lab.size("header")), lab.word(st, "err")
    n0 = len(st.events)
    for ok0, s0 in lab.call("vh_qdec_decode_" + q.kind, [d, q.ptr, out, err], st):
        for ok, s in outcome(chk, lab, s0, ok0, rule, what):
            yield ok, s, out, err, [e for e in s.events[n0:]]
    chk.exits(lab.eng, rule, what)


def decode_index(chk, lab, rule, some=None):
    eng = lab.eng
    bad = C64(lab.err("qpack_decompression_failed"))

    def one(q, first, part):
        d, st0 = decoders(lab, q, False)
        for p, top, full in ((6, 3, True), (4, 5, False)):
            for label, st, kind, bs, b0 in prefix_classes(q, st0, p, 2 if chk.tier == "quick" else 9):
                if kind != "ok" or not st.take(T.icmp("eq", T.slice_(b0, p, 8 - p), T.const(8 - p, top))):
                    continue
                Vt = prefix_value(p, b0, bs)
                head = 1 + len(bs)
                what0 = "decoder::decode(%s): %s, index %s" % (q, "indexed line" if full else "name reference", label)
                s = st.clone()
                if part == 0 and s.take(T.icmp("uge", Vt, C64(99))):
                    with chk.guard(rule, what0):
                        for ok, s1, out, err, ev in run(chk, lab, d, q, s, rule, what0 + " beyond the table"):
                            if ok or any(e[0] == "literal" for e in ev):
                                chk.never(eng, rule, s1, what0 + " beyond the table: accepted", extra=(Vt,))
                            else:
                                chk.same(eng, rule, s1, lab.get(s1, err), bad, what0 + " beyond the table: error")
                for i, (n, v) in enumerate(rfc.STATIC):
                    s = st.clone()
                    if i % 4 != part:
                        continue
                    if (some or not first) and chk.tier == "quick" and i not in EDGES:
                        continue
                    if not s.take(T.icmp("eq", Vt, C64(i))):
                        continue
                    what = "decoder::decode(%s): %s %d" % (q, "indexed line" if full else "name reference", i)
                    with chk.guard(rule, what):
                        for ok, s1, out, err, ev in run(chk, lab, d, q, s, rule, what):
                            fails = [e for e in ev if e[0] == "literal" and e[1] != "ok"]
                            if not ok:
                                if not fails:
                                    chk.never(eng, rule, s1, what + ": rejected")
                                continue
                            header_bytes(chk, lab, s1, out, "name", C64(len(n)), lambda x, j: T.const(8, ord(n[j])), what, rule)
                            if full:
                                header_bytes(chk, lab, s1, out, "value", C64(len(v)), lambda x, j: T.const(8, ord(v[j])), what, rule)

    chk.parallel([lambda q=q, n=n, part=part: one(q, n == 0, part)
                  for n, q in enumerate(sequences(lab, chk.tier, kinds=("buffer", "buffers"), small=chk.tier == "quick"))
                  for part in range(4)])


def C10(chk):
    lab = make_lab()
    eng = lab.eng
    chk.use(eng)
    for started in (False, True):
        enc = Enc(lab, started)
        for what, mk, exp in (
                ("':path': '/'", lambda st: (text(lab, st, "name", ":path"), text(lab, st, "value", "/")), ("indexed",)),
                ("'x-xss-protection': '1; mode=block'",
                 lambda st: (text(lab, st, "name", "x-xss-protection"), text(lab, st, "value", "1; mode=block")), ("indexed",)),
                ("'x-frame-options': 'sameorigin'",
                 lambda st: (text(lab, st, "name", "x-frame-options"), text(lab, st, "value", "sameorigin")), ("indexed",)),
                ("'content-length': any value", lambda st: (text(lab, st, "name", "content-length"), symtext(lab, st, "value")),
                 ("indexed", "name reference")),
                ("':authority': any value", lambda st: (text(lab, st, "name", ":authority"), symtext(lab, st, "value")),
                 ("indexed", "name reference")),
                ("'user-agent': any value", lambda st: (text(lab, st, "name", "user-agent"), symtext(lab, st, "value")),
                 ("indexed", "name reference")),
                ("'origin': any value", lambda st: (text(lab, st, "name", "origin"), symtext(lab, st, "value")),
                 ("indexed", "name reference")),
                ("'x': any value", lambda st: (text(lab, st, "name", "x"), symtext(lab, st, "value")), ("literal name",)),
                ("any name: any value", lambda st: (symtext(lab, st, "name"), symtext(lab, st, "value")), None)):
            tag = what + (", section started" if started else ", first of its section")
            big = what.startswith("any")
            kinds = encode_header(chk, lab, enc, mk, tag, RULES10, exp, buf=not big or chk.tier == "thorough", raw=True)
            chk.sample({"header": tag, "forms seen": sorted(kinds)})
        sizes(chk, lab, enc, "section started" if started else "first of its section")
    upper_part(chk)
    decode_part(chk, lab)
    decode_index(chk, lab, "index decoded", True)
    chk.assumptions.append("literal::encode/decode/encoded_size behave as C09 states, header_is_lowercase as C36 (contracts)")
    return chk.finish(1500, "bit-provenance dataflow over qpack::encoder and qpack::decoder with contracts for literals",
                      expl="Encoder: each instruction form, first and later header of a section, symbolic values. Decoder: inputs "
                           "partitioned by instruction bits, index class and truncation.")


def upper_part(chk):
    """names with an upper-case letter, without a contract for the classification"""
    lab = make_lab(lower=False)
    eng = lab.eng
    chk.use(eng)
    err_ = C64(lab.err("malformed_header"))
    for started in (False, True):
        enc = Enc(lab, started)
        for n in (1, 2, 3):
            for at in range(n):
                for lo, hi, up in ((0, 0x40, 0), (0x41, 0x5a, 1), (0x5b, 0x7f, 0), (0x80, 0xff, 0)):
                    lab.lit.lits.clear()
                    st = enc.st.clone()
                    N = symtext(lab, st, "name", n, n)
                    V = symtext(lab, st, "value")
                    good = True
                    for j in range(n):
                        c = eng.byte(st, ("in", "name"), C64(j))
                        a, b = (lo, hi) if j == at else (0x61, 0x7a)
                        good = good and st.take(T.icmp("uge", c, T.const(8, a))) and st.take(T.icmp("uge", T.const(8, b), c))
                    out, err = lab.word(st, "out"), lab.word(st, "err")
                    a = [N[0], N[1], V[0], V[1]]
                    b = lab.raw(st, "buf", lab.size("buffer"))
                    for fn, args in (("encoded_size", a + [out, err]), ("encode_buf", [b] + a + [err])):
                        w = "encoder::%s(name of %d characters, character %d in [%#x,%#x])" % (fn, n, at, lo, hi)
                        with chk.guard("upper case", w):
                            for ok0, s0 in lab.call("vh_qenc_" + fn, [enc.e] + args, st):
                                for ok, s in outcome(chk, lab, s0, ok0, "upper case", w):
                                    if ok == (not up):
                                        chk.ok("upper case")
                                    else:
                                        chk.never(eng, "upper case", s, w + (": accepted" if ok else ": rejected"))
                                        continue
                                    if not ok:
                                        chk.same(eng, "upper case", s, lab.get(s, err), err_, w + ": error")
                                        for c, s3 in lab.call("vh_qenc_count", [enc.e], s):
                                            chk.same(eng, "upper case", s3, c, enc.count, w + ": count after rejection")
                                        again(chk, lab, enc, s, w, enc.started)
                            chk.exits(eng, "upper case", w)


def decode_part(chk, lab):
    eng = lab.eng
    inc, bad, mal = (C64(lab.err(x)) for x in ("incomplete", "qpack_decompression_failed", "malformed_header"))
    def one(q, todo):
        for with_prefix in todo:
            d, st0 = decoders(lab, q, with_prefix)
            qq, base = q, 0
            tag0 = "decoder::decode(%s%s)" % (q, ", section prefix first" if with_prefix else "")
            if with_prefix:
                s = st0.clone()
                if s.take(T.icmp("uge", q.size(), C64(2)), False):
                    what = tag0 + ", fewer than 2 bytes"
                    with chk.guard("section prefix", what):
                        for ok, s1, out, err, ev in run(chk, lab, d, q, s, "section prefix", what):
                            if ok:
                                chk.never(eng, "section prefix", s1, what + ": accepted")
                                continue
                            chk.same(eng, "section prefix", s1, lab.get(s1, err), inc, what + ": error")
                            done(chk, lab, d, q, s1, C64(0), C64(0), what)
                            # the prefix is still expected
                            fresh_prefix(chk, lab, d, s1, what)
                st0 = st0.clone()
                if not st0.take(T.icmp("uge", q.size(), C64(2))):
                    continue
                qq, base = View(q, 2), 2
            c0 = lab.one("vh_qdec_count", [d], st0)[0]
            for label, cons, st, check in lines(lab, qq, st0):
                what = "%s, %s" % (tag0, label)
                with chk.guard("field line", what):
                    for ok, s, out, err, ev in run(chk, lab, d, q, st, "field line", what):
                        check(chk, lab, qq, s, ok, out, err, ev, base, d, q, what, (inc, bad, mal), c0)
        chk.sample({"decoder input": q.name})

    chk.parallel([lambda q=q, w=w: one(q, (w,)) for q in sequences(lab, chk.tier, kinds=("buffer", "buffers"))
                  if q.name != "buffers[3, 2]" for w in (True, False)])


def fresh_prefix(chk, lab, d, st, what):
    st = st.clone()
    src = st.add_obj(("pre2",), "param", 3, ("const", bytes([0, 0, 0xc1])), ro=True)
    b = lab.raw(st, "prebuf2", lab.size("buffer"))
    h, err = lab.raw(st, "prehdr2", lab.size("header")), lab.word(st, "preerr2")
    for _, s in lab.call("vh_buffer_bytes", [b, src, C64(3)], st):
        for ok, s1 in lab.call("vh_qdec_decode_buffer", [d, b, h, err], s):
            chk.same(lab.eng, "section prefix", s1, ok, T.const(1, 1), what + ": then a complete section")


def done(chk, lab, d, q, s, consumed, counted, what, c0=C64(0)):
    after(chk, lab, q, s, consumed, "bytes consumed", what)
    for c, s2 in lab.call("vh_qdec_count", [d], s):
        chk.same(lab.eng, "count", s2, c, T.add(c0, counted), what + ": count")


def lines(lab, q, st0):
    """partition by instruction: (label, None, state, verdict function)"""
    s = st0.clone()
    if s.take(T.icmp("uge", q.size(), C64(1)), False):
        yield "nothing left", None, s, reject("incomplete")
    s = st0.clone()
    if not s.take(T.icmp("uge", q.size(), C64(1))):
        return
    for s1, b0 in pieces_byte(q, s, 0):
        for label, pos, w, val in (("instruction 0000", 5, 3, 0), ("indexed line, dynamic", 6, 2, 2), ("name reference, dynamic", 4, 1, 0)):
            s2 = s1.clone()
            if "name ref" in label and not s2.take(T.icmp("eq", T.slice_(b0, 6, 2), T.const(2, 1))):
                continue
            if s2.take(T.icmp("eq", T.slice_(b0, pos, w), T.const(w, val))):
                yield label, None, s2, reject("qpack_decompression_failed")
        s2 = s1.clone()
        if s2.take(T.icmp("eq", T.slice_(b0, 5, 3), T.const(3, 1))):
            yield "literal name", None, s2, literal_name
    for p, top, nm in ((6, 3, "indexed line"), (4, None, "name reference")):
        for label, s, kind, bs, b0 in prefix_classes(q, st0, p, 1):
            if b0 is None or kind == "any":
                continue
            w = 8 - p
            if top is None:
                if not (s.take(T.icmp("eq", T.slice_(b0, 6, 2), T.const(2, 1))) and s.take(T.icmp("eq", T.slice_(b0, 4, 1), T.const(1, 1)))):
                    continue
            elif not s.take(T.icmp("eq", T.slice_(b0, p, w), T.const(w, top))):
                continue
            if kind == "short":
                yield "%s, index %s" % (nm, label), None, s, reject("incomplete")
                continue
            if kind == "over":
                yield "%s, index %s" % (nm, label), None, s, reject(None)
                continue
            V = prefix_value(p, b0, bs)
            s2 = s.clone()
            if s2.take(T.icmp("uge", V, C64(99))):
                yield "%s, index %s beyond the table" % (nm, label), None, s2, reject("qpack_decompression_failed")
            for lo, hi in ((0, 1), (60, 64), (96, 98)):
                s2 = s.clone()
                if s2.take(T.icmp("uge", V, C64(lo))) and s2.take(T.icmp("uge", C64(hi), V)):
                    yield "%s, index %s in [%d,%d]" % (nm, label, lo, hi), None, s2, reference(nm, len(bs) + 1)


def reject(name):
    def f(chk, lab, qq, s, ok, out, err, ev, base, d, q, what, errs, c0):
        if ok:
            chk.never(lab.eng, "field line", s, what + ": accepted")
            return
        if name:
            chk.same(lab.eng, "field line", s, lab.get(s, err), C64(lab.err(name)), what + ": error")
        done(chk, lab, d, q, s, C64(base), C64(base), what, c0)
    return f


def failed_literal(chk, lab, s, ok, err, ev, base, d, q, what, c0, want):
    """outcome of a line whose literals are at the given (offset term, prefix) positions; True if all decoded"""
    eng = lab.eng
    lits = [e for e in ev if e[0] == "literal"]
    off = None
    for k, e in enumerate(lits):
        if k >= len(want):
            chk.never(eng, "field line", s, what + ": too many literals read")
            return None
        o, p = want[k](lits)
        chk.same(eng, "literal position", s, e[2], T.const(8, p), what + ": prefix of literal %d" % k)
        chk.same(eng, "literal position", s, e[3], T.sub(q.size(), T.add(C64(base), o)), what + ": position of literal %d" % k)
        if e[1] != "ok":
            if ok:
                chk.never(eng, "field line", s, what + ": accepted although a literal failed")
            else:
                chk.same(eng, "field line", s, lab.get(s, err), C64(lab.err(e[1])), what + ": error of a failed literal")
                done(chk, lab, d, q, s, C64(base), C64(base), what + ", literal failed", c0)
            return None
    if len(lits) != len(want):
        chk.never(eng, "field line", s, what + ": literal not read")
        return None
    return lits


def literal_name(chk, lab, qq, s, ok, out, err, ev, base, d, q, what, errs, c0):
    eng = lab.eng
    ls = failed_literal(chk, lab, s, ok, err, ev, base, d, q, what, c0,
                        [lambda l: (C64(0), 3), lambda l: (l[0][4], 7)])
    if ls is None:
        return
    low = [e[1] for e in ev if e[0] == "lower"]
    if not low:
        if ok:
            chk.never(eng, "upper case", s, what + ": name not checked for upper-case letters")
        return
    if not low[-1]:
        if ok:
            chk.never(eng, "upper case", s, what + ": upper-case name accepted")
        else:
            chk.same(eng, "upper case", s, lab.get(s, err), errs[2], what + ": error for upper-case name")
            done(chk, lab, d, q, s, C64(base), C64(base), what + ", upper-case name", c0)
        return
    if not ok:
        chk.never(eng, "field line", s, what + ": rejected")
        return
    total = T.add(C64(base), T.add(ls[0][4], ls[1][4]))
    done(chk, lab, d, q, s, total, total, what, c0)
    for k, which in enumerate(("name", "value")):
        header_bytes(chk, lab, s, out, which, ls[k][5], lambda x, j: eng.byte(x, ("ldec", ls[k][6]), j), what, "header decoded")


def reference(nm, head):
    def f(chk, lab, qq, s, ok, out, err, ev, base, d, q, what, errs, c0):
        eng = lab.eng
        total = C64(base + head)
        if nm != "indexed line":
            ls = failed_literal(chk, lab, s, ok, err, ev, base, d, q, what, c0, [lambda l: (C64(head), 7)])
            if ls is None:
                return
            total = T.add(total, ls[0][4])
        if not ok:
            if any(e == ("lower", False) for e in ev):
                return
            chk.never(eng, "field line", s, what + ": rejected")
            return
        done(chk, lab, d, q, s, total, total, what, c0)
        if nm != "indexed line":
            header_bytes(chk, lab, s, out, "value", ls[0][5], lambda x, j: eng.byte(x, ("ldec", ls[0][6]), j), what, "header decoded")
    return f
