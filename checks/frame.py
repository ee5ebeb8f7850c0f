"""C11, C12, C13, C16: frames and settings."""
import itertools
from .lab import *
from .codec import CLASSES, big_endian, outcome, pieces_byte, all_bytes, varint_value

SOURCES = BASE3 + SRC["varint"] + ["bnl/http3/src/codec/frame/encode.cpp", "bnl/http3/src/codec/frame/decode.cpp",
                                   "bnl/http3/src/codec/frame/frame.cpp", "bnl/base/src/http3/settings.cpp"]
TYPES = {"data": 0, "headers": 1, "priority": 2, "cancel_push": 3, "settings": 4, "push_promise": 5, "goaway": 7,
         "max_push_id": 0xd, "duplicate_push": 0xe}
NAMES = {v: k for k, v in TYPES.items()}
IDS = {"list": 6, "placeholders": 9, "capacity": 1, "blocked": 7}
DEFAULTS = {"list": (1 << 62) - 1, "placeholders": 0, "capacity": 0, "blocked": 0}
ORDER = ["list", "placeholders", "capacity", "blocked"]
OVER = (1 << 62, (1 << 64) - 1, 0, None)


def make_lab():
    return Lab(SOURCES, ["h_base.cpp", "h_frame.cpp"])


def cls_sym(name, cls):
    """(value term, [constraints]) of a value class"""
    lo, hi, n, h = cls
    return T.sym(64, name, lo, hi) if lo != hi else C64(lo)


# ---- encoding ---------------------------------------------------------------------

def const_varint(v):
    for lo, hi, n, h in CLASSES:
        if lo <= v <= hi:
            return [T.const(8, b) for b in (v | (h << (8 * n - 2))).to_bytes(n, "big")]


def encode_cases(tier):
    """(label, type, [(field name, value term)], payload spec) where the payload spec is
    (field bytes, extra payload term or constant) or None for overflow.
    One abstract value per length class of each field."""
    def var(name, cls):
        lo, hi, n, h = cls
        v = T.sym(64, (name, lo), lo, hi)
        return v, (big_endian(v, n, h) if n else None)

    cl = CLASSES + [OVER]
    for t in ("data", "headers"):
        for c in cl:
            v, bs = var("size", c)
            # the length field itself is the caller-supplied size
            yield "%s, size in [%#x,%#x]" % (t, c[0], c[1]), t, [v], (bs, []) if bs else None
    for t in ("cancel_push", "goaway", "max_push_id", "duplicate_push"):
        for c in cl:
            v, bs = var("id", c)
            yield "%s, id in [%#x,%#x]" % (t, c[0], c[1]), t, [v], (const_varint(c[2]), bs) if bs else None
    for cp in cl:
        for cd in cl:
            p, pb = var("pid", cp)
            d, db = var("did", cd)
            ptt, dtt, w = T.sym(8, "pt", 0, 3), T.sym(8, "dt", 0, 3), T.sym(8, "weight")
            spec = None
            if pb and db:
                first = T.cat(8, [("k", 0, 4)] + list(T.segs(T.slice_(dtt, 0, 2))) + list(T.segs(T.slice_(ptt, 0, 2))))
                spec = (const_varint(2 + len(pb) + len(db)), [first] + pb + db + [w])
            yield "priority, ids in [%#x,%#x] [%#x,%#x]" % (cp[0], cp[1], cd[0], cd[1]), "priority", [ptt, dtt, p, d, w], spec
    base = {"list": CLASSES[3], "placeholders": CLASSES[0], "capacity": CLASSES[0], "blocked": CLASSES[0]}
    zero = (0, 0, 0, None)
    for i, k in enumerate(ORDER):
        for c in cl + ([zero] if k == "placeholders" else []):
            for other in ((CLASSES[0], CLASSES[2]) if tier == "quick" else CLASSES):
                for ph in ((None,) if k == "placeholders" else (zero, (1, 0x3f, 1, 0))):
                    sel = dict.fromkeys(ORDER, other)
                    if ph:
                        sel["placeholders"] = ph
                    sel[k] = c
                    if sel["placeholders"] == CLASSES[0]:
                        sel["placeholders"] = (1, 0x3f, 1, 0)
                    body, vals, over, pairs_ = [], [], False, []
                    for q in ORDER:
                        if sel[q] is zero:
                            vals.append(C64(0))
                            continue
                        v, bs = var(q, sel[q])
                        vals.append(v)
                        if bs is None:
                            over = True
                        else:
                            body += const_varint(IDS[q]) + bs
                            pairs_.append(const_varint(IDS[q]) + bs)
                    yield ("settings, " + " ".join("%s:[%#x,%#x]" % (q, sel[q][0], sel[q][1]) for q in ORDER), "settings", vals,
                           None if over else (const_varint(len(body)), body, pairs_))
    # push promise: the length is the size of the id plus the caller's header block
    for c in cl:
        idv, bs = var("id", c)
        n = c[2]
        for lo, hi, ln, h in CLASSES + [((1 << 62), (1 << 64) - 1 - 8, 0, None), ((1 << 64) - 8, (1 << 64) - 1, 0, None)]:
            if bs and h is not None:
                slo, shi = max(lo - n, 0), hi - n
            else:
                slo, shi = (lo, hi) if h is None else (0, 0x3f)
            if h is None and bs:
                slo = lo if hi == (1 << 64) - 1 else lo - n
            if slo > shi:
                continue
            s = T.sym(64, ("psize", slo, shi), slo, shi)
            tot = T.add(s, C64(n))
            yield ("push_promise, id in [%#x,%#x], size in [%#x,%#x]" % (c[0], c[1], slo, shi), "push_promise", [idv, s],
                   (big_endian(tot, ln, h), bs) if bs and h is not None else None)


def orders(spec, t):
    """the admissible encodings (settings may come in any order)"""
    head = const_varint(TYPES[t]) + list(spec[0])
    yield head + list(spec[1])
    if len(spec) > 2:
        for perm in itertools.permutations(spec[2]):
            yield head + [b for x in perm for b in x]


def arranged(st, exps, byte):
    """the admissible encoding that matches the bytes (the first one when none does)"""
    for e in exps:
        if all(st.same(byte(j), e[j]) for j in range(len(e))):
            return e
    return exps[0]


def encode_case(chk, lab, label, t, vals, spec, only=None):
    eng = lab.eng
    over = C64(lab.err("varint_overflow"))
    st = State()
    f = lab.raw(st, "frame", lab.size("frame"))
    with chk.guard("encode", label):
        _, st = lab.one("vh_frame_" + t, [f] + vals, st)
        out, err = lab.word(st, "out"), lab.word(st, "err")
        dest = lab.raw(st, "dest", 64, ("in", "dest"))
        buf = lab.raw(st, "buf", lab.size("buffer"))
        exps = None if spec is None else list(orders(spec, t))
        n = len(exps[0]) if exps else None
        for fn, args in (("encoded_size", [f, out, err]), ("encode_raw", [dest, f, out, err]), ("encode_buf", [buf, f, err])):
            rule = t + " " + fn
            what = "frame::%s(%s)" % (fn, label)
            seen = 0
            for ok, s0 in lab.call("vh_frame_" + fn, args, st):
                for okb, s in outcome(chk, lab, s0, ok, rule, what):
                    seen += 1
                    if exps is None:
                        if okb:
                            chk.never(eng, rule + " overflow", s, what + ": accepted although a field has no varint encoding",
                                      extra=tuple(vals))
                        else:
                            chk.same(eng, rule + " overflow", s, lab.get(s, err), over, what + ": error")
                        continue
                    if not okb:
                        chk.never(eng, rule, s, what + ": rejected", extra=tuple(vals))
                        continue
                    if fn != "encode_buf":
                        chk.same(eng, rule, s, lab.get(s, out), C64(n), what + ": length")
                    if fn == "encode_raw":
                        exp = arranged(s, exps, lambda j: lab.peek(s, dest, j))
                        for j in range(64):
                            e = exp[j] if j < n else eng.byte(s, ("in", "dest"), C64(j))
                            chk.same(eng, rule, s, lab.peek(s, dest, j), e, what + ": byte %d" % j)
                    if fn == "encode_buf":
                        for r, s2 in lab.call("vh_size_buffer", [buf], s):
                            chk.same(eng, rule, s2, r, C64(n), what + ": buffer size")
                            got = [[(b, s3) for b, s3 in lab.call("vh_at_buffer", [buf, C64(j)], s2)] for j in range(n)]
                            exp = arranged(s2, exps, lambda j: got[j][0][0])
                            for j in range(n):
                                for b, s3 in got[j]:
                                    chk.same(eng, rule, s3, b, exp[j], what + ": byte %d" % j)
            chk.exits(eng, rule, what)
            if not seen:
                chk.undec(rule, what + ": no outcome")
        chk.sample({"class": label, "bytes": n})


def C11(chk):
    lab = make_lab()
    chk.use(lab.eng)
    for case in encode_cases(chk.tier):
        encode_case(chk, lab, *case)
    return chk.finish(2500, "bit-provenance dataflow over the IR of frame::encoded_size/encode, per frame type and field length class",
                      expl="Each frame type is encoded with symbolic fields in every length class (plus the unrepresentable one); "
                           "type, length and field bytes are traced bit by bit and compared with the draft's layout.")


# ---- decoding: the specification as a partition of the inputs ------------------------

def take_varint(q, st, at):
    """read a varint at offset `at` (term): yields (label, state, value or None, length)"""
    s = st.clone()
    if s.take(T.icmp("uge", q.size(), T.add(at, C64(1))), False):
        yield "end", s, None, 0
    s = st.clone()
    if not s.take(T.icmp("uge", q.size(), T.add(at, C64(1)))):
        return
    for s1, b0 in pieces_byte(q, s, at):
        for h, n in ((0, 1), (1, 2), (2, 4), (3, 8)):
            s2 = s1.clone()
            if not s2.take(T.icmp("eq", T.slice_(b0, 6, 2), T.const(2, h))):
                continue
            s3 = s2.clone()
            if n > 1 and s3.take(T.icmp("uge", q.size(), T.add(at, C64(n))), False):
                yield "%dB cut" % n, s3, None, n
            s3 = s2.clone()
            if s3.take(T.icmp("uge", q.size(), T.add(at, C64(n)))):
                for s4, v in varint_value(q, s3, n, at):
                    yield "%dB" % n, s4, v, n


def between(st, v, lo, hi):
    s = st.clone()
    if s.take(T.icmp("uge", v, C64(lo))) and s.take(T.icmp("uge", C64(hi), v)):
        return s
    return None


def type_classes(st, v):
    """(label, state, frame name or None)"""
    for n, t in TYPES.items():
        s = between(st, v, t, t)
        if s:
            yield n, s, n
    for lo, hi in ((6, 6), (8, 0xc), (0xf, (1 << 62) - 1)):
        s = between(st, v, lo, hi)
        if s:
            yield "unknown [%#x,%#x]" % (lo, hi), s, None


def chooser(tier, wide):
    """which combinations of varint lengths are enumerated: all lengths of every varint, but (in the quick
    tier) only one of type/length/fields away from its one-byte form at a time, except field pairs"""
    lim = (1, 2, 4, 8) if wide else (1, 2)
    deep = tier == "thorough"

    def opt(key):
        if key[0] == "type":
            _, depth, n1, name = key
            if depth:
                return n1 == 1 and name in ("data", "goaway", None)
            return n1 in lim
        if key[0] == "len":
            _, depth, n1, name, n2 = key
            return n2 in lim and (n1 == 1 or n2 == 1) and not (depth and n2 > 1)
        if key[0] == "field":
            _, name, n1, n2, done, n = key
            return n in lim and ((n1 == 1 and n2 == 1) or n == 1 or deep)
        if tier == "peek" and key[0] != "sunknown":
            return key[0] not in ("slen",) or key[-1] in (0, 2)
        if key[0] == "slen":
            _, n1, n2, v = key
            if n1 + n2 > 2:
                return v == 2
            return v in ((0, 1, 2, 3, 4, 5, 9) if deep else (0, 1, 2, 3, 4, 9)) if wide else v in (0, 2, 3)
        if key[0] == "sid":
            _, ln, used, n = key
            return n == 1 or (n == 2 and used == 0 and ln <= 3) or (deep and used == 0)
        if key[0] == "sval":
            _, ln, used, n, m = key
            if ln == 9:
                return m == 8 and used == 0 and n == 1
            return m == 1 or (m == 2 and used == 0 and n == 1 and ln <= 3)
        if key[0] == "sunknown":
            return key[1] == 0 and wide or key[2] == 10
        raise KeyError(key)
    return opt


def spec(q, st, at, opt, depth=0):
    """partition of the inputs of frame::decode at `at`:
    yields (label, state, kind, data); kind: 'ok' (name, fields, end) | 'err' (set of errors, start offset)"""
    for l1, s1, ty, n1 in take_varint(q, st, at):
        if ty is None:
            yield "type " + l1, s1, "err", ({"incomplete"}, at, None)
            continue
        for lt, s2, name in type_classes(s1, ty):
            if not opt(("type", depth, n1, name)):
                continue
            for l2, s3, ln, n2 in take_varint(q, s2, T.add(at, C64(n1))):
                if not opt(("len", depth, n1, name, n2)):
                    continue
                lab = "%s(type %s) length %s" % (lt, l1, l2)
                if ln is None:
                    yield lab, s3, "err", ({"incomplete"}, at, name)
                    continue
                p = T.add(at, C64(n1 + n2))
                for l3, s4, kind, data in payload(q, s3, at, p, name, ln, opt, depth, n1, n2):
                    yield lab + l3, s4, kind, data


def payload(q, st, at, p, name, ln, opt, depth, n1, n2):
    rest = T.sub(q.size(), p)
    if name in ("data", "headers"):
        yield "", st, "ok", (name, [ln], p)
        return
    if name is None:
        # payloads of any length; over chains of several buffers: a few lengths
        todo = [("", st)] if len(q.pieces) == 1 else \
            [(" %d" % v, x) for v in (0, 1, 2, 5) for x in [between(st, ln, v, v)] if x]
        for tag, st1 in todo:
            s = st1.clone()
            if s.take(T.icmp("ult", rest, ln)):
                yield tag + ", payload cut", s, "err", ({"incomplete"}, at, name)
            s = st1.clone()
            if s.take(T.icmp("ult", rest, ln), False):
                if depth < 1:
                    # bound the work: the frame behind a skipped one is read once
                    for l, s2, kind, data in spec(q, s, T.add(p, ln), opt, depth + 1):
                        yield tag + ", skipped; " + l, s2, kind, data
                else:
                    yield tag + ", skipped", s, "more", (None, at, T.add(p, ln))
        return
    if name == "settings":
        yield from settings(q, st, at, p, ln, opt, n1, n2)
        return
    nf = 2 if name == "priority" else 1
    fixed = 1 if name == "priority" else 0
    # the payload is available or not
    for avail in (True, False):
        s = st.clone()
        if not s.take(T.icmp("uge", rest, ln), avail):
            continue
        yield from fields(q, s, at, p, name, ln, nf, [], C64(0), avail, opt, n1, n2)


def short(avail):
    # no more data helps: malformed; otherwise more data may complete the payload or prove it malformed
    return {"malformed_frame"} if avail else {"incomplete", "malformed_frame"}


def fields(q, st, at, p, name, ln, nf, acc, used, avail, opt, n1, n2):
    end = T.add(p, used)
    if name == "priority" and not acc:
        s = st.clone()
        if s.take(T.icmp("uge", q.size(), T.add(p, C64(1))), False):
            yield ", no field", s, "err", (short(avail), at, name)
        s = st.clone()
        if not s.take(T.icmp("uge", q.size(), T.add(p, C64(1)))):
            return
        for s1, b in pieces_byte(q, s, p):
            yield from fields(q, s1, at, p, name, ln, nf, [b], C64(1), avail, opt, n1, n2)
        return
    done = len(acc) - (1 if name == "priority" else 0)
    if done < nf:
        for l, s, v, n in take_varint(q, st, end):
            if not opt(("field", name, n1, n2, done, n)):
                continue
            if v is None:
                yield ", field %d %s" % (done, l), s, "err", (short(avail), at, name)
            else:
                for l2, s2, k, d in fields(q, s, at, p, name, ln, nf, acc + [v], T.add(used, C64(n)), avail, opt, n1, n2):
                    yield ", field %d %s" % (done, l) + l2, s2, k, d
        return
    if name == "priority":
        s = st.clone()
        if s.take(T.icmp("uge", q.size(), T.add(end, C64(1))), False):
            yield ", no weight", s, "err", (short(avail), at, name)
        s = st.clone()
        if not s.take(T.icmp("uge", q.size(), T.add(end, C64(1)))):
            return
        todo = [(s1, acc + [b]) for s1, b in pieces_byte(q, s, end)]
        used = T.add(used, C64(1))
        end = T.add(p, used)
    else:
        todo = [(st, acc)]
    for s, acc in todo:
        if name == "push_promise":
            s1 = s.clone()
            if s1.take(T.icmp("uge", ln, used)):
                yield ", fits", s1, "ok", (name, [acc[0], T.sub(ln, used)], end)
            s1 = s.clone()
            if s1.take(T.icmp("uge", ln, used), False):
                yield ", does not fit", s1, "err", ({"malformed_frame"}, at, name)
            continue
        for cond, tag in ((T.icmp("ult", ln, used), ", payload shorter than the fields"),
                          (T.icmp("ult", used, ln), ", payload longer than the fields")):
            s1 = s.clone()
            if s1.take(cond):
                yield tag, s1, "err", ({"malformed_frame"} if avail else {"malformed_frame", "incomplete"}, at, name)
        s1 = s.clone()
        if s1.take(T.icmp("eq", ln, used)):
            yield ", exact", s1, "ok", (name, acc, end)


def settings(q, st, at, p, ln, opt, n1, n2):
    # payload length by value: small ones exactly, the rest as one class that ends within the
    # first two settings or is left to the loop bound
    for v in (0, 1, 2, 3, 4, 5, 9):
        s = between(st, ln, v, v)
        if s is None or not opt(("slen", n1, n2, v)):
            continue
        for avail in (True, False):
            s1 = s.clone()
            if s1.take(T.icmp("uge", q.size(), T.add(p, C64(v))), avail):
                yield from pairs(q, s1, at, p, v, 0, dict(DEFAULTS), avail, opt, ", %d bytes%s" % (v, "" if avail else " cut"))


def pairs(q, st, at, p, ln, used, acc, avail, opt, tag):
    if used >= ln:
        if used > ln:
            yield tag + ", overrun", st, "err", ({"malformed_frame"} if avail else {"malformed_frame", "incomplete"}, at, "settings")
        else:
            yield tag, st, "ok", ("settings", dict(acc), T.add(p, C64(ln)))
        return
    for l, s, i, n in take_varint(q, st, T.add(p, C64(used))):
        if not opt(("sid", ln, used, n)):
            continue
        if i is None:
            yield tag + ", id %s" % l, s, "err", (short(avail), at, "settings")
            continue
        for l2, s2, v, m in take_varint(q, s, T.add(p, C64(used + n))):
            if not opt(("sval", ln, used, n, m)):
                continue
            t = tag + ", id %s value %s" % (l, l2)
            if v is None:
                yield t, s2, "err", (short(avail), at, "settings")
                continue
            for key, kid in IDS.items():
                s3 = between(s2, i, kid, kid)
                if s3:
                    a = dict(acc)
                    a[key] = v
                    yield from pairs(q, s3, at, p, ln, used + n + m, a, avail, opt, t + " " + key)
            for lo, hi in ((0, 0), (2, 5), (8, 8), (10, (1 << 62) - 1)):
                s3 = between(s2, i, lo, hi) if opt(("sunknown", used, lo)) else None
                if s3:
                    yield from pairs(q, s3, at, p, ln, used + n + m, acc, avail, opt, t + " unknown[%#x,%#x]" % (lo, hi))


GET = {"data": ["data"], "headers": ["headers"], "cancel_push": ["cancel_push"], "goaway": ["goaway"],
       "max_push_id": ["max_push_id"], "duplicate_push": ["duplicate_push"],
       "push_promise": ["push_promise_id", "push_promise_size"],
       "priority": ["priority_pt", "priority_dt", "priority_pid", "priority_did", "priority_weight"],
       "settings": ["settings_" + k for k in ORDER]}


def expected_fields(name, acc):
    if name == "settings":
        return [acc[k] if isinstance(acc[k], T.Term) else C64(acc[k]) for k in ORDER]
    if name == "priority":
        b = acc[0]
        return [T.zext(T.slice_(b, 6, 2), 8), T.zext(T.slice_(b, 4, 2), 8), acc[1], acc[2], acc[3]]
    return acc


def after_skip(chk, lab, q, st, ends, rule, what):
    """the input advanced by one of the allowed amounts (complete unknown frames may stay or go)"""
    for r, s in lab.call("vh_size_" + q.kind, [q.ptr], st):
        for e in ends:
            if s.same(r, T.sub(q.size(), e)):
                after(chk, lab, q, s, e, rule, what)
                break
        else:
            after(chk, lab, q, s, ends[-1], rule, what)


def error_in(chk, lab, st, err, allowed, rule, what):
    v = lab.get(st, err)
    if any(st.same(v, C64(lab.err(e))) for e in allowed):
        chk.ok(rule)
        return
    chk.same(lab.eng, rule, st, v, C64(lab.err(sorted(allowed)[0])), what + ": error (one of %s)" % ", ".join(sorted(allowed)))


def inputs(lab, tier):
    for q in sequences(lab, tier, small=False):
        if q.name in ("buffers[3, 2]", "lookahead over buffers[3, 2] at 1"):
            continue
        yield q, q.name in ("heap buffer", "lookahead over heap buffer at p", "buffers['hf']")


def decode_input(chk, lab, q, wide, part, parts, keep=lambda label: True):
    eng = lab.eng
    out, err = lab.raw(q.st, "out", lab.size("frame")), lab.word(q.st, "err")
    n = 0
    for label, st, kind, data in spec(q, q.st, C64(0), chooser(chk.tier, wide)):
        n += 1
        if kind == "more" or n % parts != part or not keep(label):
            continue
        what = "frame::decode(%s), %s" % (q, label)
        with chk.guard("decode", what):
            seen = 0
            for ok, s0 in lab.call("vh_frame_decode_" + q.kind, [q.ptr, out, err], st):
                for okb, s in outcome(chk, lab, s0, ok, "decode", what):
                    seen += 1
                    if kind == "err":
                        allowed, start, name = data
                        if okb:
                            chk.never(eng, "rejected", s, what + ": decoded", extra=(q.size(),))
                            continue
                        error_in(chk, lab, s, err, allowed, "error", what)
                        after_skip(chk, lab, q, s, [C64(0), start], "no advance past the unfinished frame", what)
                        continue
                    name, acc, end = data
                    if not okb:
                        chk.never(eng, "accepted", s, what + ": rejected", extra=(q.size(),))
                        continue
                    for ty, s2 in lab.call("vh_frame_type", [out], s):
                        chk.same(eng, "type", s2, ty, C64(TYPES[name]), what + ": type")
                    for g, e in zip(GET[name], expected_fields(name, acc)):
                        for v, s2 in lab.call("vh_frame_get_" + g, [out], s):
                            chk.same(eng, "fields", s2, v, e, what + ": " + g)
                    after(chk, lab, q, s, end, "advance", what)
            chk.exits(eng, "decode", what)
            if not seen:
                chk.undec("decode", what + ": no outcome")
    chk.sample({"input": q.name, "classes": n})


def spread(chk, lab, run):
    work = list(inputs(lab, chk.tier))
    work.sort(key=lambda x: (not x[1], "buffers" not in x[0].name))
    jobs = []
    for q, wide in work:
        parts = 4 if wide else 2
        jobs += [lambda q=q, wide=wide, part=part, parts=parts: run(chk, lab, q, wide, part, parts) for part in range(parts)]
    chk.parallel(jobs)


def C12(chk):
    lab = make_lab()
    chk.use(lab.eng)
    spread(chk, lab, decode_input)
    return chk.finish(15000, "path- and bit-precise dataflow over frame::decode<Sequence> instantiations, per input class of the draft",
                      expl="Inputs are partitioned by a specification parser (type, length, fields, truncation point, unknown frames "
                           "in front); one abstract run per class and container.")


def peek_input(chk, lab, q, wide, part, parts):
    eng = lab.eng
    inc = C64(lab.err("incomplete"))
    out, err = lab.word(q.st, "out"), lab.word(q.st, "err")
    n = 0
    for label, st, kind, data in spec(q, q.st, C64(0), chooser("peek", wide)):
        n += 1
        if kind == "more" or n % parts != part:
            continue
        what = "frame::peek(%s), %s" % (q, label)
        name = data[0] if kind == "ok" else data[2]
        with chk.guard("peek", what):
            seen = 0
            for ok, s0 in lab.call("vh_frame_peek_" + q.kind, [q.ptr, out, err], st):
                for okb, s in outcome(chk, lab, s0, ok, "peek", what):
                    seen += 1
                    if name is None:
                        if okb:
                            chk.never(eng, "incomplete", s, what + ": reports a type that is not there", extra=(q.size(),))
                            continue
                        chk.same(eng, "incomplete", s, lab.get(s, err), inc, what + ": error")
                    elif not okb:
                        chk.never(eng, "type", s, what + ": fails although the type is available", extra=(q.size(),))
                        continue
                    else:
                        chk.same(eng, "type", s, lab.get(s, out), C64(TYPES[name]), what + ": type")
                    after(chk, lab, q, s, C64(0), "input untouched", what)
            chk.exits(eng, "peek", what)
            if not seen:
                chk.undec("peek", what + ": no outcome")
    chk.sample({"input": q.name, "classes": n})


def C13(chk):
    lab = make_lab()
    chk.use(lab.eng)
    spread(chk, lab, peek_input)
    return chk.finish(5000, "path- and bit-precise dataflow over frame::peek<Sequence> instantiations, per input class of the draft",
                      expl="The same specification parser that decides frame::decode (C12) partitions the inputs; the type reported by "
                           "peek must be the one that parser finds, and the input must be unchanged.")


def C16(chk):
    lab = make_lab()
    eng = lab.eng
    chk.use(eng)
    for k in ORDER:
        chk.same(eng, "identifiers", State(), C64(lab.const("vh_setting_id_" + k)), C64(IDS[k]), "identifier of " + k)
    st = State()
    o = lab.raw(st, "settings", lab.size("settings"))
    _, st = lab.one("vh_settings_default", [o], st)
    for k in ORDER:
        for v, s in lab.call("vh_settings_" + k, [o], st):
            if k == "list":
                chk.holds(eng, "defaults", s, T.icmp("uge", C64((1 << 62) - 1), v), "default list size must be encodable")
            else:
                chk.same(eng, "defaults", s, v, C64(DEFAULTS[k]), "default " + k)
    for case in encode_cases(chk.tier):
        if case[1] == "settings":
            encode_case(chk, lab, *case)
    todo = [(q, w) for q, w in inputs(lab, chk.tier) if q.name in ("heap buffer", "buffers['hf']", "inline buffer")]
    chk.parallel([lambda q=q, part=part, w=w: decode_input(chk, lab, q, w, part, 4, lambda l: l.startswith("settings"))
                  for q, w in todo for part in range(4)])
    return chk.finish(3000, "constant extraction and bit-provenance dataflow over the settings writer and reader",
                      expl="Identifier constants and default member values are read off the IR; the writer must pair every identifier "
                           "with its own value (in any order) and the reader must store every known identifier in its own field.")
