"""Contracts: summaries of lower layers (each decided by its own property) used while a higher
layer is analysed.  They constrain only what the lower property guarantees."""
from .lab import *


def content_key(eng, st, p, n):
    """identity of the byte string [p, p+n): the content source when it is one piece"""
    try:
        pieces = eng.snapshot(st, p, n, None)
    except Exception:
        return None
    if len(pieces) == 1 and isinstance(pieces[0][2], Blob):
        b = pieces[0][2]
        return (b.src, st.canon(b.off), st.resolve(n))
    return (repr(p), st.resolve(n))


class Huffman:
    """huffman::{encoded_size,encode,decode} as seen by their callers: a string of n bytes has an
    encoding of H bytes (H >= 1 iff n >= 1), decoding m bytes either fails or yields a string"""

    def __init__(self):
        self.enc = {}

    def size(self, eng, st, p, n):
        n = st.resolve(n) if n.kind != "const" else n
        if n.kind == "const" and n.a == 0:
            return C64(0), None
        k = content_key(eng, st, p, n)
        for kk, h in self.enc.items():
            if kk[0] == k[0] and kk[1] is k[1] and (kk[2] is k[2] or st.same(kk[2], k[2])):
                return h, kk
        h = T.sym(64, ("H", len(self.enc)), 0, 1 << 35)
        self.enc[k] = h
        return h, k

    def bounds(self, st, h, n):
        # 5 to 30 bits per symbol
        return st.take(T.icmp("uge", T.mulc(n, 4), h)) and st.take(T.icmp("uge", T.mulc(h, 2), n))

    def encoded_size(self, eng, st, args, fn, inst):
        h, _ = self.size(eng, st, args[0], args[1])
        if not self.bounds(st, h, args[1]):
            return []
        return [(h, st)]

    def encode_raw(self, eng, st, args, fn, inst):
        if len(args) != 3:
            return None
        h, k = self.size(eng, st, args[1], args[2])
        if not self.bounds(st, h, args[2]):
            return []
        if h.kind == "const":
            return [(h, st)]
        dst, o = eng.object(st, args[0], inst, h, True)
        d = eng.drop(st, dst.obj, o, eng.un(dst.off), h)
        to = eng.un(st.resolve(dst.off) if dst.off.kind != "const" else dst.off)
        d[to] = (h, Blob(("huff",) + (self.index(k),), C64(0)))
        st.mem[dst.obj] = o.with_(cells=d, _key=None)
        return [(h, st)]

    def index(self, k):
        return list(self.enc).index(k)

    def hooks(self):
        return [(r"bnl::http3::qpack::huffman::encoded_size", self.encoded_size),
                (r"bnl::http3::qpack::huffman::encode", self.encode_raw)]


def huffman_decode_hook(lab_ref, max_symbol=64):
    """huffman::decode<Seq>(seq, n): n > size -> incomplete; otherwise a string of D bytes of
    unknown content and n bytes consumed, or a decompression failure"""

    def hook(eng, st, args, fn, inst):
        lab = lab_ref[0]
        ret, seq, n = args
        kind = seq_kind(fn)
        out = []
        for size, s0 in eng.call(lab.fn("vh_size_" + kind), [seq], st):
            for ok in (True, False):
                s = s0.clone()
                if not s.take(T.icmp("uge", size, n), ok):
                    continue
                if not ok:
                    out += [(r, x) for r, x in eng.call(lab.fn("vh_mk_result_string_err"), [ret, C64(lab.err("incomplete"))], s)]
                    continue
                s2 = s.clone()
                s2.event("huffman-decode", "fail", n)
                out += eng.call(lab.fn("vh_mk_result_string_err"), [ret, C64(lab.err("qpack_decompression_failed"))], s2)
                j = len([e for e in s.events if e[0] == "huffman-decode"])
                D = T.sym(64, ("D", j), 0, 1 << 34)
                s.event("huffman-decode", "ok", n, D)
                src = s.add_obj(("hdec", j), "param", D, ("hdec", j))
                str_ = s.add_obj(("hstr", j), "param", lab.size("string"))
                for _, s3 in eng.call(lab.fn("vh_string_bytes"), [str_, src, D], s):
                    for _, s4 in eng.call(lab.fn("vh_consume_" + kind), [seq, n], s3):
                        for r, s5 in eng.call(lab.fn("vh_mk_result_string"), [ret, str_], s4):
                            s5.mem.pop(("hdec", j), None)
                            out.append((r, s5))
        return out
    return hook


def seq_kind(fn):
    d = fn.dem
    if "buffers::lookahead" in d:
        return "bslook"
    if "buffer::lookahead" in d:
        return "blook"
    if "base::buffers" in d:
        return "buffers"
    return "buffer"


class Literal:
    """literal::{encoded_size,encode} as seen by their callers: the literal of a string with a given
    prefix is a fixed byte string of L >= 1 bytes whose first byte leaves the bits above its flag
    as they were (the flag bit itself has to be clear there)"""

    def __init__(self):
        self.lits = []

    def size(self, eng, st, p, n, prefix):
        n = st.resolve(n) if n.kind != "const" else n
        prefix = st.resolve(prefix)
        if prefix.kind != "const":
            raise Broken("literal with symbolic prefix")
        k = content_key(eng, st, p, n) if not (n.kind == "const" and n.a == 0) else ("empty",)
        for j, (kk, pp) in enumerate(self.lits):
            if pp == prefix.a and len(kk) == len(k) and all(x == y if not isinstance(x, T.Term) else x is y or st.same(x, y)
                                                           for x, y in zip(kk, k)):
                break
        else:
            j = len(self.lits)
            self.lits.append((k, prefix.a))
        L = T.sym(64, ("L", j), 1, 1 << 36)
        if not (st.take(T.icmp("uge", T.add(n, C64(11)), L)) and st.take(T.icmp("uge", T.mulc(L, 2), n))):
            return None
        return L, j, prefix.a

    def encoded_size(self, eng, st, args, fn, inst):
        if len(args) != 3:
            return None
        r = self.size(eng, st, *args)
        return [(r[0], st)] if r else []

    def encode_raw(self, eng, st, args, fn, inst):
        if len(args) != 4 or "unsigned char*" not in fn.dem:
            return None
        r = self.size(eng, st, *args[1:])
        if not r:
            return []
        L, j, p = r
        dst, o = eng.object(st, args[0], inst, L, True)
        old = eng.raw_read(st, dst.obj, o, dst.off, 1)
        new = eng.byte(st, ("lit", j), C64(0))
        if not isinstance(old, T.Term):
            old = T.sym(8, ("dirty", j))
        if T.slice_(old, p, 1).kind == "const" and T.slice_(old, p, 1).a == 0:
            w = p + 1
        else:
            w = p
        b = T.cat(8, list(T.segs(T.slice_(new, 0, w))) + list(T.segs(T.slice_(old, w, 8 - w))) if w < 8 else list(T.segs(new)))
        d = eng.drop(st, dst.obj, o, eng.un(dst.off), L)
        off = eng.un(st.resolve(dst.off) if dst.off.kind != "const" else dst.off)
        d[off] = (L, Blob(("lit", j), C64(0)))
        o = o.with_(cells=d, _key=None)
        st.mem[dst.obj] = o
        if w + 0 < 8:
            eng.raw_write(st, dst.obj, o, off, 1, b)
        st.event("literal", j, p)
        return [(L, st)]

    def hooks(self):
        return [(r"bnl::http3::qpack::literal::encoded_size", self.encoded_size),
                (r"bnl::http3::qpack::literal::encode", self.encode_raw)]


def literal_decode_hook(lab_ref):
    """literal::decode<Seq>(seq, prefix): a string of D unknown bytes from C >= 1 consumed bytes, or an
    error without consumption"""

    def hook(eng, st, args, fn, inst):
        lab = lab_ref[0]
        ret, seq, prefix = args
        kind = seq_kind(fn)
        out = []
        for size, s0 in eng.call(lab.fn("vh_size_" + kind), [seq], st):
            j = len([e for e in s0.events if e[0] == "literal"])
            for err in ("incomplete", "qpack_decompression_failed"):
                s = s0.clone()
                s.event("literal", err, prefix, size, None, None, j)
                out += eng.call(lab.fn("vh_mk_result_string_err"), [ret, C64(lab.err(err))], s)
            s = s0.clone()
            C = T.sym(64, ("C", j), 1, 1 << 35)
            D = T.sym(64, ("D", j), 0, 1 << 34)
            if not s.take(T.icmp("uge", size, C)):
                continue
            s.event("literal", "ok", prefix, size, C, D, j)
            src = s.add_obj(("ldec", j), "param", D, ("ldec", j))
            str_ = s.add_obj(("lstr", j), "param", lab.size("string"))
            for _, s3 in eng.call(lab.fn("vh_string_bytes"), [str_, src, D], s):
                for _, s4 in eng.call(lab.fn("vh_consume_" + kind), [seq, C], s3):
                    for r, s5 in eng.call(lab.fn("vh_mk_result_string"), [ret, str_], s4):
                        s5.mem.pop(("ldec", j), None)
                        out.append((r, s5))
        return out
    return hook


class QpackEncoder:
    """qpack::encoder (one per analysis) as seen by the header-section encoder: every accepted header
    adds a buffer of L >= 1 unknown bytes to the section and L to its count; a rejected one changes nothing.
    plan: a length class, or 'x' for a rejected header"""

    RANGE = {"s": (1, 3), "m": (100, 1000), "l": (20000, 1 << 26), "h": (1 << 30, 1 << 36)}

    def __init__(self, ref):
        self.ref, self.plan = ref, "s"

    def lines(self, st):
        return [e for e in st.events if e[0] == "line"]

    def encode(self, eng, st, args, fn, inst):
        if "unsigned char*" in fn.dem:
            return None
        lab = self.ref[0]
        ret, _, hv = args
        if self.plan == "x":
            return eng.call(lab.fn("vh_mk_result_buffer_err"), [ret, C64(lab.err("malformed_header"))], st)
        j = len(self.lines(st))
        L = T.sym(64, ("L", j, self.plan), *self.RANGE[self.plan])
        src = ("line", j)
        s = st.add_obj(("lsrc", j), "param", L, src)
        b = st.add_obj(("lbuf", j), "param", lab.size("buffer"))
        out = []
        for nm, s1 in eng.call(lab.fn("vh_hview_name_data"), [hv], st):
            for vl, s2 in eng.call(lab.fn("vh_hview_value_data"), [hv], s1):
                s2.event("line", L, nm, vl)
                for _, s3 in eng.call(lab.fn("vh_buffer_bytes"), [b, s, L], s2):
                    for r, s4 in eng.call(lab.fn("vh_mk_result_buffer"), [ret, b], s3):
                        out.append((r, s4))
        return out

    def count(self, eng, st, args, fn, inst):
        n = C64(0)
        for e in self.lines(st):
            n = T.add(n, e[1])
        return [(n, st)]

    def hooks(self):
        return [(r"bnl::http3::qpack::encoder::encode", self.encode), (r"bnl::http3::qpack::encoder::count", self.count)]


class QpackDecoder:
    """qpack::decoder (one per analysis) as seen by the header-section decoder: it either takes C >= 1
    bytes and returns a header of unknown name and value, or fails; a failure may leave the two bytes of
    the section prefix consumed.  count() is the number of bytes taken so far"""

    ERRORS = ("incomplete", "qpack_decompression_failed", "malformed_header", "varint_overflow")

    def __init__(self, ref):
        self.ref = ref

    def calls(self, st):
        return [e for e in st.events if e[0] == "qdec"]

    def total(self, st):
        n = C64(0)
        for e in self.calls(st):
            n = T.add(n, e[2])
        return n

    def decode(self, eng, st, args, fn, inst):
        lab = self.ref[0]
        ret, _, seq = args
        kind = seq_kind(fn)
        out = []
        j = len(self.calls(st))
        for size, s0 in eng.call(lab.fn("vh_size_" + kind), [seq], st):
            for err in self.ERRORS:
                for pre in (0, 2) if j == 0 else (0,):
                    s = s0.clone()
                    if pre and not s.take(T.icmp("uge", size, C64(pre))):
                        continue
                    s.event("qdec", err, C64(pre))
                    ss = [s] if not pre else [x for _, x in eng.call(lab.fn("vh_consume_" + kind), [seq, C64(pre)], s)]
                    for s in ss:
                        out += eng.call(lab.fn("vh_mk_result_header_err"), [ret, C64(lab.err(err))], s)
            s = s0.clone()
            C = T.sym(64, ("C", j), 1, 1 << 35)
            if not s.take(T.icmp("uge", size, C)):
                continue
            s.event("qdec", "ok", C)
            h = s.add_obj(("qhdr", j), "param", lab.size("header"))
            strs = []
            ss = [s]
            for which in ("name", "value"):
                n = T.sym(64, ("H", which, j), 16, 1 << 34)
                nxt = []
                for x in ss:
                    src = x.add_obj(("qsrc", which, j), "param", n, ("qhdr", which, j))
                    p = x.add_obj(("qstr", which, j), "param", lab.size("string"))
                    nxt += [y for _, y in eng.call(lab.fn("vh_string_bytes"), [p, src, n], x)]
                strs.append(p)
                ss = nxt
            for x in ss:
                for _, y in eng.call(lab.fn("vh_header_make"), [h] + strs, x):
                    for _, z in eng.call(lab.fn("vh_consume_" + kind), [seq, C], y):
                        out += eng.call(lab.fn("vh_mk_result_header"), [ret, h], z)
        return out

    def count(self, eng, st, args, fn, inst):
        return [(self.total(st), st)]

    def hooks(self):
        return [(r"bnl::http3::qpack::decoder::decode", self.decode), (r"bnl::http3::qpack::decoder::count", self.count)]
