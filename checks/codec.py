"""C01-C04: variable-length and prefix integers."""
from .lab import *


def lab_codec():
    return Lab(BASE3 + SRC["varint"] + ["bnl/http3/src/codec/qpack/prefix_int/encode.cpp",
                                        "bnl/http3/src/codec/qpack/prefix_int/decode.cpp",
                                        "bnl/http3/src/codec/qpack/literal/encode.cpp",
                                        "bnl/http3/src/codec/qpack/literal/decode.cpp",
                                        "bnl/http3/src/codec/qpack/huffman/encode.cpp",
                                        "bnl/http3/src/codec/qpack/huffman/decode.cpp"], ["h_base.cpp", "h_codec.cpp"])


CLASSES = [(0, 0x3f, 1, 0), (0x40, 0x3fff, 2, 1), (0x4000, 0x3fffffff, 4, 2), (0x40000000, (1 << 62) - 1, 8, 3)]


def big_endian(v, n, hdr):
    """the n bytes of v in network order with the two header bits"""
    out = []
    for j in range(n):
        b = T.slice_(v, 8 * (n - 1 - j), 8)
        if j == 0:
            b = T.cat(8, list(T.segs(T.slice_(b, 0, 6))) + [("k", hdr, 2)])
        out.append(b)
    return out


def outcome(chk, lab, st, ok, rule, what):
    """split a wrapper's boolean outcome; -> [(bool, state)]"""
    r = st.eval(ok)
    if r is not None:
        return [(r, st)]
    out = []
    for t in (True, False):
        s = st.clone()
        if s.take(ok, t):
            out.append((t, s))
    return out


def C01(chk):
    lab = lab_codec()
    eng = lab.eng
    chk.use(eng)
    v = T.sym(64, "v")
    chk.same(eng, "limit", State(), C64(lab.const("vh_varint_max")), C64((1 << 62) - 1), "varint::max")
    cases = [(lo, hi, n, h) for lo, hi, n, h in CLASSES] + [(1 << 62, (1 << 64) - 1, 0, None)]
    for lo, hi, n, hdr in cases:
        st = State()
        if not (st.take(T.icmp("uge", v, C64(lo))) and st.take(T.icmp("uge", C64(hi), v))):
            raise Broken("class")
        tag = "value in [%#x,%#x]" % (lo, hi)
        out, err = lab.word(st, "out"), lab.word(st, "err")
        dest = lab.raw(st, "dest", 16, ("in", "dest"))
        buf = lab.raw(st, "buf", lab.size("buffer"))
        for fn, args in (("encoded_size", [v, out, err]), ("encode_raw", [dest, v, out, err]), ("encode_buf", [buf, v, err])):
            rule = fn + ("" if hdr is not None else " overflow")
            what = "varint %s(%s)" % (fn, tag)
            seen = 0
            for ok, s0 in lab.call("vh_varint_" + fn, args, st):
                for ok, s in outcome(chk, lab, s0, ok, rule, what):
                    seen += 1
                    if hdr is None:
                        if ok:
                            chk.never(eng, rule, s, what + ": accepted", extra=(v,))
                            continue
                        chk.same(eng, rule, s, lab.get(s, err), C64(lab.err("varint_overflow")), what + ": error")
                        if fn == "encode_raw":
                            for j in range(16):
                                chk.same(eng, rule, s, lab.peek(s, dest, j), eng.byte(s, ("in", "dest"), C64(j)),
                                         what + ": byte %d must not be written" % j)
                        continue
                    if not ok:
                        chk.never(eng, rule, s, what + ": rejected", extra=(v,))
                        continue
                    exp = big_endian(v, n, hdr)
                    if fn != "encode_buf":
                        chk.same(eng, rule, s, lab.get(s, out), C64(n), what + ": length")
                    if fn == "encode_raw":
                        for j in range(16):
                            e = exp[j] if j < n else eng.byte(s, ("in", "dest"), C64(j))
                            chk.same(eng, rule, s, lab.peek(s, dest, j), e, what + ": byte %d" % j)
                    if fn == "encode_buf":
                        for r, s2 in lab.call("vh_size_buffer", [buf], s):
                            chk.same(eng, rule, s2, r, C64(n), what + ": buffer size")
                            for j in range(n):
                                for b, s3 in lab.call("vh_at_buffer", [buf, C64(j)], s2):
                                    chk.same(eng, rule, s3, b, exp[j], what + ": byte %d" % j)
            chk.exits(eng, rule, what)
            if not seen:
                chk.undec(rule, what + ": no outcome")
            chk.sample({"class": tag, "function": fn, "outcomes": seen,
                        "expected": [str(e) for e in (big_endian(v, n, hdr) if n else ["varint_overflow"])]})
    return chk.finish(80, "bit-provenance dataflow over the IR of varint::encoded_size/encode, per length class",
                      expl="Every output bit is traced to the input bit it must carry, for all 2^64 inputs split into the five "
                           "value classes; untouched destination bytes and the overflow error are part of the obligation.")


def decode_calls(chk, lab, q, name, args, st, rule, what):
    """run a decoder on q; yields (ok, state)"""
    for ok, s0 in lab.call("vh_%s_%s" % (name, q.kind), [q.ptr] + args, st):
        for okb, s in outcome(chk, lab, s0, ok, rule, what):
            yield okb, s
    chk.exits(lab.eng, rule, what)


def varint_classes(q, st):
    """partition of the inputs by what the standard says about them:
    (label, state, announced length, complete)"""
    s = st.clone()
    if s.take(T.icmp("uge", q.size(), C64(1)), False):
        yield "empty", s, None, False
    s = st.clone()
    if not s.take(T.icmp("uge", q.size(), C64(1)), True):
        return
    for s1, b0 in pieces_byte(q, s, 0):
        for h, n in ((0, 1), (1, 2), (2, 4), (3, 8)):
            s2 = s1.clone()
            if not s2.take(T.icmp("eq", T.slice_(b0, 6, 2), T.const(2, h))):
                continue
            for enough in (False, True):
                s3 = s2.clone()
                if s3.take(T.icmp("uge", q.size(), C64(n)), enough):
                    yield "first byte announces %d, %s" % (n, "complete" if enough else "short"), s3, n, enough


def varint_value(q, st, n, at=0):
    """[(state, 64-bit value the n bytes at `at` denote)]"""
    for s, bs in all_bytes(q, st, n, at):
        segs = []
        for j in reversed(range(n)):
            segs += T.segs(T.slice_(bs[j], 0, 6 if j == 0 else 8))
        yield s, T.zext(T.cat(8 * n - 2, segs), 64)


def C02(chk):
    lab = lab_codec()
    eng = lab.eng
    chk.use(eng)
    inc = C64(lab.err("incomplete"))
    for q in sequences(lab, chk.tier):
        out, err = lab.word(q.st, "out"), lab.word(q.st, "err")
        ncls = 0
        for label, st, n, complete in varint_classes(q, q.st):
            ncls += 1
            what = "varint::decode(%s), %s" % (q, label)
            seen = 0
            for ok, s in decode_calls(chk, lab, q, "varint_decode", [out, err], st, "decode", what):
                seen += 1
                if not complete:
                    spec_incomplete(chk, lab, q, s, ok, err, inc, what)
                elif not ok:
                    chk.never(eng, "decode value", s, what + ": complete varint rejected", extra=(q.size(),))
                else:
                    for s4, val in varint_value(q, s, n):
                        chk.same(eng, "decode value", s4, lab.get(s4, out), val, what + ": value")
                        after(chk, lab, q, s4, C64(n), "decode advance", what)
            if not seen:
                chk.undec("decode", what + ": no outcome")
        chk.sample({"input": q.name, "size": str(q.size()), "classes": ncls})
    return chk.finish(300, "path- and bit-precise dataflow over varint::decode<Sequence> instantiations",
                      expl="All four container instantiations over inline, heap, empty, consumed and split representations with "
                           "symbolic sizes, positions and content, one run per input class of the standard.")


def pieces_byte(q, st, i):
    """split st until byte i of q is a single term"""
    b = q.byte(st, i)
    if b.kind == "op" and b.a[0] == "ite":
        for t in (True, False):
            s = st.clone()
            if s.take(b.a[1], t):
                yield from pieces_byte(q, s, i)
        return
    yield st, b


def all_bytes(q, st, n, at=0, acc=()):
    if len(acc) == n:
        yield st, list(acc)
        return
    i = T.add(C64(at) if isinstance(at, int) else at, C64(len(acc)))
    for s, b in pieces_byte(q, st, i):
        yield from all_bytes(q, s, n, at, acc + (b,))


def spec_incomplete(chk, lab, q, st, ok, err, inc, what):
    if ok:
        chk.never(lab.eng, "decode incomplete", st, what + ": decoded although bytes are missing", extra=(q.size(),))
        return
    chk.same(lab.eng, "decode incomplete", st, lab.get(st, err), inc, what + ": error")
    after(chk, lab, q, st, C64(0), "decode no-advance", what)


# ---- prefix integers ---------------------------------------------------------------

def prefix_values(p):
    """(label, value term, state, expected bytes above the first (list) or None) per length class"""
    pm = (1 << p) - 1
    v = T.sym(64, "v")
    st = State()
    if st.take(T.icmp("ult", v, C64(pm))):
        yield "value < %d" % pm, v, st, T.slice_(v, 0, p), []
    w = T.sym(64, "w")
    for n in range(1, 11):
        lo, hi = (0 if n == 1 else 128 ** (n - 1)), min(128 ** n - 1, (1 << 64) - 1 - pm)
        st = State()
        if lo > hi or not (st.take(T.icmp("uge", w, C64(lo))) and st.take(T.icmp("uge", C64(hi), w))):
            continue
        rest = []
        for j in range(n):
            ln = min(7, 64 - 7 * j)
            top = 0 if j == n - 1 else 1
            rest.append(T.cat(8, list(T.segs(T.slice_(w, 7 * j, ln))) + ([("k", 0, 7 - ln)] if ln < 7 else []) + [("k", top, 1)]))
        yield "value - %d in [%#x,%#x]" % (pm, lo, hi), T.add(w, C64(pm)), st, T.const(p, pm), rest


def C03(chk):
    lab = lab_codec()
    eng = lab.eng
    chk.use(eng)
    for p in range(1, 9):
        P = T.const(8, p)
        for label, v, st0, low, rest in prefix_values(p):
            n = 1 + len(rest)
            tag = "prefix %d, %s" % (p, label)
            st = st0.clone()
            for r, s in lab.call("vh_prefix_int_encoded_size", [v, P], st):
                chk.same(eng, "encoded_size", s, r, C64(n), "prefix_int::encoded_size(%s)" % tag)
            dest = lab.raw(st, "dest", 24, ("in", "dest"))
            for r, s in lab.call("vh_prefix_int_encode_raw", [dest, v, P], st):
                what = "prefix_int::encode(dest, %s)" % tag
                chk.same(eng, "returned length", s, r, C64(n), what + ": length")
                d0 = eng.byte(s, ("in", "dest"), C64(0))
                for j in range(24):
                    d = eng.byte(s, ("in", "dest"), C64(j))
                    e = rest[j - 1] if 1 <= j < n else d
                    if j == 0:
                        e = T.cat(8, list(T.segs(low)) + (list(T.segs(T.slice_(d0, p, 8 - p))) if p < 8 else []))
                    chk.same(eng, "bytes", s, lab.peek(s, dest, j), e, what + ": byte %d" % j)
            chk.exits(eng, "encode raw", "prefix_int::encode(dest, %s)" % tag)
            st = st0.clone()
            buf = lab.raw(st, "buf", lab.size("buffer"))
            for _, s in lab.call("vh_prefix_int_encode_buf", [buf, v, P], st):
                what = "prefix_int::encode(%s)" % tag
                for r, s2 in lab.call("vh_size_buffer", [buf], s):
                    chk.same(eng, "buffer size", s2, r, C64(n), what + ": size")
                    for j in range(n):
                        e = rest[j - 1] if j else T.cat(8, list(T.segs(low)) + ([("k", 0, 8 - p)] if p < 8 else []))
                        for b, s3 in lab.call("vh_at_buffer", [buf, C64(j)], s2):
                            chk.same(eng, "buffer bytes", s3, b, e, what + ": byte %d" % j)
            chk.exits(eng, "encode buffer", "prefix_int::encode(%s)" % tag)
            chk.sample({"class": tag, "bytes": n})
    return chk.finish(2000, "bit-provenance dataflow over the IR of prefix_int::encoded_size/encode, per length class",
                      expl="All 2^64 values for each prefix 1..8, one run per encoded length: every output bit traced to the value "
                           "bit or the pre-existing instruction bit it must carry.")


def prefix_classes(q, st, p, kmax):
    """partition of the inputs of prefix_int::decode by RFC 7541 5.1:
    (label, state, 'ok'|'short'|'over', [continuation byte terms], first byte)"""
    pm = (1 << p) - 1
    s = st.clone()
    if s.take(T.icmp("uge", q.size(), C64(1)), False):
        yield "empty", s, "short", None, None
    s = st.clone()
    if not s.take(T.icmp("uge", q.size(), C64(1)), True):
        return
    for s1, b0 in pieces_byte(q, s, 0):
        low = T.slice_(b0, 0, p)
        s2 = s1.clone()
        if s2.take(T.icmp("eq", low, T.const(p, pm)), False):
            yield "fits the prefix", s2, "ok", [], b0
        s2 = s1.clone()
        if s2.take(T.icmp("eq", low, T.const(p, pm)), True):
            yield from continuation(q, s2, p, 0, [], b0, kmax)


def continuation(q, st, p, k, acc, b0, kmax):
    """k continuation bytes with the high bit set were read; look at byte k+1"""
    s = st.clone()
    if s.take(T.icmp("uge", q.size(), C64(k + 2)), False):
        yield "ends after %d continuation bytes" % k, s, "short", acc, b0
    s = st.clone()
    if not s.take(T.icmp("uge", q.size(), C64(k + 2)), True):
        return
    for s1, b in pieces_byte(q, s, k + 1):
        for more in (0, 1):
            s2 = s1.clone()
            if not s2.take(T.icmp("eq", T.slice_(b, 7, 1), T.const(1, more))):
                continue
            if k == 9:
                # bit 63 and beyond: the only place where an integer can stop fitting
                low = prefix_sum(p, acc)
                for fit in (True, False):
                    s3 = s2.clone()
                    if not s3.take(T.icmp("ult", T.cat(63, sum((list(T.segs(T.slice_(x, 0, 7))) for x in acc), [])),
                                          T.const(63, (1 << 63) - ((1 << p) - 1))), fit):
                        continue
                    for lo, hi in ((0, 0), (1, 1), (2, 127)):
                        s4 = s3.clone()
                        t7 = T.slice_(b, 0, 7)
                        if not (s4.take(T.icmp("uge", t7, T.const(7, lo))) and s4.take(T.icmp("uge", T.const(7, hi), t7))):
                            continue
                        ok = hi == 0 or (hi == 1 and fit)
                        tag = "10 continuation bytes, last in [%d,%d]%s%s" % (lo, hi, "" if fit else ", sum past 2^63",
                                                                            ", more announced" if more else "")
                        yield tag, s4, ("any" if more and ok else "ok" if ok else "over"), acc + [b], b0
            elif more and k + 1 <= kmax:
                yield from continuation(q, s2, p, k + 1, acc + [b], b0, kmax)
            elif not more:
                yield "%d continuation bytes" % (k + 1), s2, "ok", acc + [b], b0


def prefix_sum(p, bs):
    v = C64((1 << p) - 1)
    for j, b in enumerate(bs):
        ln = min(7, 64 - 7 * j)
        v = T.add(v, T.shl(T.zext(T.slice_(b, 0, ln), 64), 7 * j))
    return v


def prefix_value(p, b0, bs):
    return T.zext(T.slice_(b0, 0, p), 64) if not bs else prefix_sum(p, bs)


def C04(chk):
    lab = lab_codec()
    eng = lab.eng
    chk.use(eng)
    inc = C64(lab.err("incomplete"))
    for qn, q in enumerate(sequences(lab, chk.tier)):
        out, err = lab.word(q.st, "out"), lab.word(q.st, "err")
        deep = chk.tier == "thorough" or q.name in ("heap buffer", "lookahead over heap buffer at p")
        ps = range(1, 9) if deep else (3, 6)
        for p in ps:
            for label, st, kind, bs, b0 in prefix_classes(q, q.st, p, 9 if deep and (p in (3, 7, 8) or chk.tier == "thorough") else 3):
                what = "prefix_int::decode(%s, prefix %d), %s" % (q, p, label)
                for ok, s in decode_calls(chk, lab, q, "prefix_int_decode", [T.const(8, p), out, err], st, "decode", what):
                    if kind == "ok" and not ok:
                        chk.never(eng, "decode value", s, what + ": rejected", extra=(q.size(),))
                    elif kind == "ok":
                        chk.same(eng, "decode value", s, lab.get(s, out), prefix_value(p, b0, bs), what + ": value")
                        after(chk, lab, q, s, C64(1 + len(bs)), "decode advance", what)
                    elif ok and kind != "any":
                        chk.never(eng, "decode " + kind, s, what + ": accepted", extra=(q.size(),))
                    elif not ok:
                        if kind == "short":
                            chk.same(eng, "decode short", s, lab.get(s, err), inc, what + ": error")
                        elif kind == "over":
                            chk.holds(eng, "decode over", s, T.icmp("ne", lab.get(s, err), inc),
                                      what + ": an integer that does not fit must be an error other than incomplete")
                        after(chk, lab, q, s, C64(0), "decode no-advance", what)
        chk.sample({"input": q.name, "size": str(q.size()), "prefixes": list(ps)})
    return chk.finish(1500, "path- and bit-precise dataflow over prefix_int::decode<Sequence> instantiations",
                      expl="Inputs are partitioned by RFC 7541 5.1 (first byte, number of continuation bytes, truncation point, "
                           "overflow of 64 bits); one abstract run per class and container representation.")
