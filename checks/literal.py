"""C09: string literals."""
import time
from .lab import *
from .codec import outcome, decode_calls, pieces_byte, prefix_classes, prefix_value
from .huffman import SOURCES
from .contracts import Huffman, huffman_decode_hook

LITERAL_SOURCES = [s for s in SOURCES if "huffman" not in s]


def size_classes(p):
    """[(lo, hi, length bytes)]: payload sizes by the number of bytes their prefix integer takes"""
    pm = (1 << p) - 1
    out = [(0, pm - 1, 1)] if pm > 0 else []
    lo = pm
    for n in range(1, 6):
        hi = pm + 128 ** n - 1
        out.append((lo, min(hi, BIG), n + 1))
        lo = hi + 1
        if lo > BIG:
            break
    return out


def length_bytes(m, p, n, high):
    """prefix integer of m in n bytes with the bits above the prefix = high (term of 8-p bits)"""
    pm = (1 << p) - 1
    hs = list(T.segs(high)) if p < 8 else []
    if n == 1:
        return [T.cat(8, list(T.segs(T.slice_(m, 0, p))) + hs)]
    out = [T.cat(8, [("k", pm, p)] + hs)]
    w = T.sub(m, C64(pm))
    for j in range(n - 1):
        out.append(T.cat(8, list(T.segs(T.slice_(w, 7 * j, 7))) + [("k", 0 if j == n - 2 else 1, 1)]))
    return out


def C09(chk):
    hm = Huffman()
    ref = []
    lab = Lab(LITERAL_SOURCES, ["h_base.cpp", "h_codec.cpp"],
              hooks=hm.hooks() + [(r"bnl::http3::qpack::huffman::decode", huffman_decode_hook(ref))])
    ref.append(lab)
    eng = lab.eng
    chk.use(eng)
    encode_part(chk, lab, hm)
    decode_part(chk, lab)
    chk.assumptions.append("huffman::encode/decode behave as C06/C07 state (contracts)")
    return chk.finish(1500, "bit-provenance dataflow over literal::encode/encoded_size/decode with contracts for huffman and "
                            "symbolic strings", expl="Every prefix, strings of symbolic length and content split by payload size "
                                                     "class and by whether the Huffman form is shorter.")


def encode_part(chk, lab, hm):
    eng = lab.eng
    for p in range(1, 8):
        P = T.const(8, p)
        for lo, hi, nb in size_classes(p):
            for huff in (True, False):
                hm.enc.clear()
                st = State()
                n = T.sym(64, "n", 0, BIG)
                s = st.add_obj(("string",), "param", n, ("in", "s"))
                H = T.sym(64, ("H", 0), 0, 1 << 35)
                if hi == 0 and lo == 0:
                    continue
                # class: payload size m in [lo,hi]
                m = H if huff else n
                cond = [T.icmp("ult", H, n), T.icmp("uge", m, C64(lo)), T.icmp("uge", C64(hi), m)]
                if not all(st.take(c, t) for c, t in zip(cond, (huff, True, True))):
                    continue
                if huff and not st.take(T.icmp("uge", n, C64(1))):
                    continue
                tag = "prefix %d, payload in [%d,%d], %s" % (p, lo, hi, "Huffman shorter" if huff else "Huffman not shorter")
                for z in (False, True):
                    st1 = st.clone()
                    if huff and z or not st1.take(T.icmp("eq", n, C64(0)), z):
                        continue
                    one(chk, lab, hm, p, P, st1, s, n, C64(0) if z else m, huff, nb, tag + (", empty" if z else ""))


def one(chk, lab, hm, p, P, st, s, n, m, huff, nb, tag):
    eng = lab.eng
    total = T.add(C64(nb), m)
    with chk.guard("encoded size", tag):
        for r, s1 in lab.call("vh_literal_encoded_size", [s, n, P], st):
            chk.same(eng, "encoded size", s1, r, total, "literal::encoded_size(%s)" % tag)
        chk.exits(eng, "encoded size", "literal::encoded_size(%s)" % tag)
    with chk.guard("encode raw", tag):
        st1 = st.clone()
        what = "literal::encode(dest, %s)" % tag
        dest = lab.raw(st1, "dest", 1 << 40, ("in", "dest"))
        high = T.sym(8 - p - 1, "above") if p < 7 else None
        init = [("s", T.sym(p, "low"), 0, p), ("k", 0, 1)] + (list(T.segs(high)) if high is not None else [])
        eng.raw_write(st1, dest.obj, st1.mem[dest.obj], 0, 1, T.cat(8, init))
        hbits = T.cat(8 - p, [("k", int(huff), 1)] + (list(T.segs(high)) if high is not None else []))
        for r, s1 in lab.call("vh_literal_encode_raw", [dest, s, n, P], st1):
            chk.same(eng, "returned length", s1, r, total, what + ": length")
            body(chk, lab, s1, lambda x, i: lab.peek(x, dest, i), m, huff, length_bytes(m, p, nb, hbits), what, hm)
            i = T.sym(64, ("i", "after"), 0, 1 << 36)
            s2 = s1.clone()
            if s2.take(T.icmp("uge", i, total)):
                obs(chk, eng, "bytes beyond", s2, lambda x: lab.peek(x, dest, i), lambda x: eng.byte(x, ("in", "dest"), i),
                    what + ": byte beyond the literal")
        chk.exits(eng, "encode raw", what)
    with chk.guard("encode buffer", tag):
        st1 = st.clone()
        what = "literal::encode(%s)" % tag
        buf = lab.raw(st1, "buf", lab.size("buffer"))
        hbits = T.cat(8 - p, [("k", int(huff), 1)] + ([("k", 0, 7 - p)] if p < 7 else []))
        for _, s1 in lab.call("vh_literal_encode_buf", [buf, s, n, P], st1):
            for r, s2 in lab.call("vh_size_buffer", [buf], s1):
                chk.same(eng, "buffer size", s2, r, total, what + ": size")

                def at(x, i):
                    rs = lab.call("vh_at_buffer", [buf, C64(i) if isinstance(i, int) else i], x)
                    return rs
                body(chk, lab, s2, at, m, huff, length_bytes(m, p, nb, hbits), what, hm)
        chk.exits(eng, "encode buffer", what)
    chk.sample({"class": tag})


def obs(chk, eng, rule, st, actual, expected, what):
    """compare a read that may need splitting"""
    from absint.engine import Split, SplitVals
    todo = [st]
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > 64:
            chk.undec(rule, what + ": too many cases")
            return
        try:
            a = actual(s)
            rs = a if isinstance(a, list) else [(a, s)]
        except Split as e:
            for t in (True, False):
                x = s.clone()
                if x.take(e.cond, t):
                    todo.append(x)
            continue
        for v, s2 in rs:
            chk.same(eng, rule, s2, v, expected(s2), what)


def body(chk, lab, st, read, m, huff, lead, what, hm):
    eng = lab.eng
    for j, e in enumerate(lead):
        obs(chk, eng, "length and flag", st, lambda x: read(x, j), lambda x: e, what + ": byte %d" % j)
    i = T.sym(64, ("i", "payload"), 0, 1 << 36)
    s = st.clone()
    if s.take(T.icmp("ult", i, m)):
        src = ("huff", 0) if huff else ("in", "s")
        obs(chk, eng, "payload", s, lambda x: read(x, T.add(C64(len(lead)), i)), lambda x: eng.byte(x, src, i),
            what + ": payload byte")


def values(p, deep):
    pm = (1 << p) - 1
    v = {0, 1, 2, pm - 1, pm, pm + 1, pm + 2} if p <= 3 else {0, 1, 3}
    if deep and p == 7:
        v |= {126, 127, 128}
    return sorted(x for x in v if x >= 0)


def decode_part(chk, lab):
    eng = lab.eng
    inc, bad = C64(lab.err("incomplete")), C64(lab.err("qpack_decompression_failed"))

    def one(q, deep, ps):
        for p in ps:
            P = T.const(8, p)
            st0 = q.st.clone()
            out = lab.raw(st0, "out", lab.size("string"))
            err = lab.word(st0, "err")
            for label, st, kind, bs, b0 in prefix_classes(q, st0, p, 1 if not deep else 3):
                what0 = "literal::decode(%s, prefix %d), length %s" % (q, p, label)
                if kind == "any":
                    continue
                if kind in ("short", "over"):
                    with chk.guard("decode " + kind, what0):
                        for ok, s in decode_calls(chk, lab, q, "literal_decode", [P, out, err], st, "decode", what0):
                            if ok:
                                chk.never(eng, "decode " + kind, s, what0 + ": accepted", extra=(q.size(),))
                                continue
                            if kind == "short":
                                chk.same(eng, "decode short", s, lab.get(s, err), inc, what0 + ": error")
                            after(chk, lab, q, s, C64(0), "decode no-advance", what0)
                    continue
                V = prefix_value(p, b0, bs)
                head = C64(1 + len(bs))
                rest = T.sub(q.size(), head)
                # payload missing
                s = st.clone()
                if s.take(T.icmp("ult", rest, V)):
                    what = what0 + ", payload missing"
                    with chk.guard("decode short", what):
                        for ok, s1 in decode_calls(chk, lab, q, "literal_decode", [P, out, err], s, "decode", what):
                            if ok:
                                chk.never(eng, "decode short", s1, what + ": accepted", extra=(q.size(),))
                                continue
                            chk.same(eng, "decode short", s1, lab.get(s1, err), inc, what + ": error")
                            after(chk, lab, q, s1, C64(0), "decode no-advance", what)
                s = st.clone()
                if not s.take(T.icmp("uge", rest, V)):
                    continue
                # Huffman payload: any length
                s1 = s.clone()
                flag = T.icmp("eq", T.slice_(b0, p, 1), T.const(1, 1))
                if s1.take(flag, True):
                    what = what0 + ", Huffman"
                    with chk.guard("decode Huffman", what):
                        for ok, s2 in decode_calls(chk, lab, q, "literal_decode", [P, out, err], s1, "decode", what):
                            ev = [e for e in s2.events if e[0] == "huffman-decode"]
                            if len(ev) != 1 or not s2.same(ev[0][2], V):
                                chk.never(eng, "decode Huffman", s2, what + ": not decoded as Huffman payload of the announced length",
                                          extra=(q.size(),))
                                continue
                            if (ev[0][1] == "ok") != ok:
                                chk.never(eng, "decode Huffman", s2, what + ": outcome of the Huffman decoder not reported")
                                continue
                            if not ok:
                                chk.same(eng, "decode Huffman", s2, lab.get(s2, err), bad, what + ": error")
                                after(chk, lab, q, s2, C64(0), "decode no-advance", what)
                                continue
                            D = ev[0][3]
                            after(chk, lab, q, s2, T.add(head, V), "decode advance", what)
                            string_is(chk, lab, s2, out, D, lambda x, i: eng.byte(x, ("hdec", 0), i), what)
                            chk.exits(eng, "result", what)
                # plain payload
                s1 = s.clone()
                if not s1.take(flag, False):
                    continue
                for v in values(p, deep) if len(bs) < 2 else [(1 << p) - 1] if deep and p <= 5 else []:
                    s2 = s1.clone()
                    if not s2.take(T.icmp("eq", V, C64(v))):
                        continue
                    what = what0 + ", %d plain bytes" % v
                    with chk.guard("decode plain", what):
                        for ok, s3 in decode_calls(chk, lab, q, "literal_decode", [P, out, err], s2, "decode", what):
                            if not ok:
                                chk.never(eng, "decode plain", s3, what + ": rejected", extra=(q.size(),))
                                continue
                            if any(e[0] == "huffman-decode" for e in s3.events):
                                chk.never(eng, "decode plain", s3, what + ": payload Huffman decoded", extra=(q.size(),))
                                continue
                            after(chk, lab, q, s3, T.add(head, C64(v)), "decode advance", what)
                            string_is(chk, lab, s3, out, C64(v), lambda x, i: q.byte(x, T.add(head, i)), what)
                            chk.exits(eng, "result", what)
        chk.sample({"decode input": q.name, "prefixes": list(ps)})

    jobs = []
    for q in sequences(lab, chk.tier):
        if "[3, 2]" in q.name:
            continue
        deep = q.name == "heap buffer" or chk.tier == "thorough"
        for p in ((3, 7) if not deep else (2, 3, 5, 7) if chk.tier == "quick" else range(1, 8)):
            jobs.append(lambda q=q, deep=deep, p=p: one(q, deep, (p,)))
    chk.parallel(jobs)


def string_is(chk, lab, st, out, size, byte, what):
    eng = lab.eng
    for r, s in lab.call("vh_string_size", [out], st):
        chk.same(eng, "string size", s, r, size, what + ": string size")
        i = T.sym(64, ("i", "str"), 0, 1 << 34)
        n = size.a if size.kind == "const" else None
        for j in range(n) if n is not None else [i]:
            j = C64(j) if isinstance(j, int) else j
            s1 = s.clone()
            if not s1.take(T.icmp("ult", j, size)):
                continue
            for c, s2 in lab.call("vh_string_at", [out, j], s1):
                same_split(chk, lab, "string bytes", s2, c, lambda x: byte(x, j), what + ": character %s" % j)
