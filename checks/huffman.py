"""C05-C07: Huffman tables, encoder, decoder."""
from .lab import *
from .codec import outcome, decode_calls, all_bytes
from . import rfc
from absint.engine import Obj, tbl_enum, tbl_index
from absint.llvmir import demangle

SOURCES = BASE3 + ["bnl/http3/src/codec/varint/encode.cpp", "bnl/http3/src/codec/varint/decode.cpp",
                   "bnl/http3/src/codec/qpack/prefix_int/encode.cpp", "bnl/http3/src/codec/qpack/prefix_int/decode.cpp",
                   "bnl/http3/src/codec/qpack/literal/encode.cpp", "bnl/http3/src/codec/qpack/literal/decode.cpp",
                   "bnl/http3/src/codec/qpack/huffman/encode.cpp", "bnl/http3/src/codec/qpack/huffman/decode.cpp"]
FLAG = {"accepted": 1, "symbol": 2, "failed": 4}


def lab_huffman():
    lab = Lab(SOURCES, ["h_base.cpp", "h_codec.cpp"])
    n = b"".join(b.to_bytes(1, "little") for _, b in rfc.HUFFMAN)
    c = b"".join(x.to_bytes(4, "little") for x, _ in rfc.HUFFMAN)
    lab.eng._glob[("g", "spec_len")] = Obj("global", len(n), {}, ("const", n), False, True)
    lab.eng._glob[("g", "spec_code")] = Obj("global", len(c), {}, ("const", c), False, True)
    return lab


def tables(lab, path, size):
    """constant tables of the translation unit with the given byte size: (oid, global)"""
    out = []
    for m in lab.prog.modules:
        for name, g in m.globals.items():
            if not g.is_decl and g.const and g.ty.size == size:
                oid = ("g", name, m.path) if g.linkage in (8, 9) else ("g", name)
                out.append((oid, g))
    return out


def encode_table(lab):
    """(oid, {symbol: (code, bits)}) : the constant array of 257 {code, length} records"""
    for oid, g in tables(lab, "encode", 257 * 16):
        if g.ty.kind == "array" and g.ty.count == 257 and g.ty.elem.kind == "struct":
            eng, st = lab.eng, State()
            offs = g.ty.elem.offsets
            w = [e.size for e in g.ty.elem.elems]
            return oid, g, [tuple(eng.const_bytes(st, oid, 16 * i + offs[j], w[j]) for j in (0, 1)) for i in range(257)]
    return None, None, None


def decode_table(lab):
    """(oid, rows) : the constant array of rows of 16 three-byte nodes"""
    for m in lab.prog.modules:
        for name, g in m.globals.items():
            if g.is_decl or not g.const or g.ty.kind != "array" or g.ty.elem.kind != "array" or g.ty.elem.count != 16 \
                    or g.ty.elem.size != 48 or g.ty.count < 200:
                continue
            oid = ("g", name, m.path) if g.linkage in (8, 9) else ("g", name)
            eng, st = lab.eng, State()
            rows = [[tuple(eng.const_bytes(st, oid, 48 * r + 3 * c + k, 1) for k in range(3)) for c in range(16)]
                    for r in range(g.ty.count)]
            return oid, g, rows
    return None, None, None


def C05(chk):
    lab = lab_huffman()
    chk.use(lab.eng)
    oid, g, enc = encode_table(lab)
    if enc is None:
        raise Broken("Huffman encoding table not found")
    where = "bnl/http3/src/codec/qpack/huffman/encode_generated.cpp"
    for i, (got, exp) in enumerate(zip(enc, rfc.HUFFMAN)):
        if got == exp:
            chk.ok("encoding table")
        else:
            chk.fail("encoding table", "symbol %d is encoded as %#x/%d bits, the standard says %#x/%d bits" %
                     (i, got[0], got[1], exp[0], exp[1]), where, {"symbol": i})
    # ---- decoding automaton: simulate it against the code tree
    oid, g, rows = decode_table(lab)
    if rows is None:
        raise Broken("Huffman decoding table not found")
    where = "bnl/http3/src/codec/qpack/huffman/decode_generated.cpp"
    leaf = {}
    for s, (code, n) in enumerate(rfc.HUFFMAN):
        leaf[format(code, "0%db" % n)] = s
    todo, seen = [(0, "", 0)], {(0, "", 0)}
    cells = 0
    trail = {(0, "", 0): ""}
    while todo:
        node = todo.pop()
        state, pend, parity = node
        if state >= len(rows):
            chk.fail("decoding table", "state %d does not exist (after bits %s)" % (state, trail[node]), where)
            continue
        for nib in range(16):
            cells += 1
            nxt, flags, sym = rows[state][nib]
            bits, out, eos = pend, [], False
            for b in format(nib, "04b"):
                bits += b
                if bits in leaf:
                    if leaf[bits] == 256:
                        eos = True
                        break
                    out.append(leaf[bits])
                    bits = ""
            path = trail[node] + format(nib, "04b")
            ctx = "state %d, nibble %#x (input bits %s)" % (state, nib, path[-40:])
            w = {"bits": path}
            if eos:
                if flags & FLAG["failed"]:
                    chk.ok("decoding end of string")
                else:
                    chk.fail("decoding end of string", ctx + ": end-of-string code not rejected", where, w)
                continue
            if flags & FLAG["failed"]:
                chk.fail("decoding transition", ctx + ": valid code rejected", where, w)
                continue
            if len(out) > 1:
                chk.fail("decoding transition", ctx + ": two symbols in one nibble", where, w)
                continue
            got = [sym] if flags & FLAG["symbol"] else []
            if got != out:
                chk.fail("decoding transition", ctx + ": emits %s, the standard code emits %s" % (got, out), where, w)
            else:
                chk.ok("decoding transition")
            if parity == 1:
                acc = bool(flags & FLAG["accepted"])
                exp = len(bits) <= 7 and set(bits) <= {"1"}
                if acc != exp:
                    chk.fail("decoding acceptance", ctx + ": %s with padding bits %r" %
                             ("accepted" if acc else "not accepted", bits), where, w)
                else:
                    chk.ok("decoding acceptance")
            n = (nxt, bits, 1 - parity)
            if n not in seen:
                if len(seen) > 4000:
                    chk.fail("decoding transition", "the table is not the automaton of the code: %s" % ctx, where, w)
                    todo = []
                    break
                seen.add(n)
                trail[n] = path
                todo.append(n)
    chk.notes["automaton cells compared"] = cells
    chk.notes["automaton states reached"] = len({s for s, _, _ in seen})
    chk.sample({"encoding entries": 257, "decoding (state, pending bits, parity) triples": len(seen), "cells": cells})
    return chk.finish(3000, "table extraction from compiler IR and simulation of the decoding automaton against the RFC 7541 "
                            "code tree", expl="All 257 code entries compared; every automaton state reachable from 0 is paired "
                                              "with the pending bits it must stand for and all its 16 transitions compared.")


# ---- encoder ---------------------------------------------------------------------

LENGTHS = sorted({n for _, n in rfc.HUFFMAN[:256]})


def spec_len(b):
    return T.op(8, "tbl", ("g", "spec_len"), T.zext(b, 64), 1)


def spec_code(b):
    return T.op(32, "tbl", ("g", "spec_code"), T.shl(T.zext(b, 64), 2), 4)


def spec_bytes(st, chars, lens):
    """the Huffman encoding of chars (8-bit terms) whose code lengths are lens, as byte terms"""
    segs = []                       # most significant bit first: list of (term, lo, n)
    for b, n in zip(chars, lens):
        segs.append((spec_code(b), 0, n))
    total = sum(lens)
    pad = -total % 8
    if pad:
        segs.append((T.const(32, (1 << pad) - 1), 0, pad))
    bits = []                       # msb first, one entry per bit run
    for t, lo, n in segs:
        for k in reversed(range(n)):
            bits.append((t, lo + k))
    out = []
    for j in range(0, len(bits), 8):
        ss = []
        for t, k in reversed(bits[j:j + 8]):
            ss += T.segs(T.slice_(t, k, 1))
        out.append(T.cat(8, ss))
    return out


def strings(chk):
    """tuples of code lengths covering every length at every bit offset"""
    by_res = {}
    for n in LENGTHS:
        by_res.setdefault(n % 8, n)
    out = [()] + [(n,) for n in LENGTHS]
    for r in sorted(by_res):
        for n in LENGTHS:
            out.append((by_res[r], n))
    out += [(5, 28, 6), (30, 30, 30), (7, 6, 5), (8, 8, 8), (5, 5, 6), (13, 19, 15, 20), (6, 6, 6, 6, 5, 5, 7), (28,) * 9]
    if chk.tier == "thorough":
        for a in sorted(by_res.values()):
            for n in LENGTHS:
                for m in (5, 8, 13, 30):
                    out.append((a, n, m))
    return out


def C06(chk):
    lab = lab_huffman()
    eng = lab.eng
    chk.use(eng)
    for lens in strings(chk):
        tag = "string with code lengths %s" % (list(lens),)
        with chk.guard("encode", tag):
            st = State()
            n = len(lens)
            s = lab.raw(st, "string", max(n, 1), ("in", "s"))
            chars = [eng.byte(st, ("in", "s"), C64(j)) for j in range(n)]
            for b, l in zip(chars, lens):
                if not st.take(T.icmp("eq", spec_len(b), T.const(8, l))):
                    raise Broken("class")
            exp = spec_bytes(st, chars, lens)
            N = len(exp)
            for r, s1 in lab.call("vh_huffman_encoded_size", [s, C64(n)], st):
                chk.same(eng, "encoded size", s1, r, C64(N), "huffman::encoded_size(%s)" % tag)
            chk.exits(eng, "encoded size", "huffman::encoded_size(%s)" % tag)
            dest = lab.raw(st, "dest", N + 8, ("in", "dest"))
            what = "huffman::encode(dest, %s)" % tag
            for r, s1 in lab.call("vh_huffman_encode_raw", [dest, s, C64(n)], st):
                chk.same(eng, "bytes written", s1, r, C64(N), what + ": length")
                for j in range(N + 8):
                    e = exp[j] if j < N else eng.byte(s1, ("in", "dest"), C64(j))
                    chk.same(eng, "code bits" if j < N else "bytes beyond", s1, lab.peek(s1, dest, j), e, what + ": byte %d" % j)
            chk.exits(eng, "encode raw", what)
            if n <= 2 or chk.tier == "thorough":
                what = "huffman::encode(%s)" % tag
                buf = lab.raw(st, "buf", lab.size("buffer"))
                for _, s1 in lab.call("vh_huffman_encode_buf", [buf, s, C64(n)], st):
                    for r, s2 in lab.call("vh_size_buffer", [buf], s1):
                        chk.same(eng, "buffer size", s2, r, C64(N), what + ": size")
                        for j in range(N):
                            for b, s3 in lab.call("vh_at_buffer", [buf, C64(j)], s2):
                                chk.same(eng, "buffer code bits", s3, b, exp[j], what + ": byte %d" % j)
                chk.exits(eng, "encode buffer", what)
            chk.sample({"class": tag, "bytes": N})
    return chk.finish(1500, "bit-provenance dataflow over huffman::encode/encoded_size, per class of code lengths",
                      expl="Every code length at every bit offset with symbolic characters: each output bit is compared with the "
                           "bit of the RFC 7541 code it must carry; stale destination bytes are symbolic.")


# ---- decoder ---------------------------------------------------------------------

def C07(chk):
    lab = lab_huffman()
    eng = lab.eng
    chk.use(eng)
    inc, bad = C64(lab.err("incomplete")), C64(lab.err("qpack_decompression_failed"))
    oid, g, rows = decode_table(lab)
    if rows is None:
        raise Broken("Huffman decoding table not found")

    def cell(state, nib, k):
        off = T.add(T.add(T.mulc(T.zext(state, 64), 48), T.mulc(T.zext(nib, 64), 3)), C64(k))
        return T.op(8, "tbl", oid, off, 1) if off.kind != "const" else T.const(8, eng.const_bytes(State(), oid, off.a, 1))

    def walk(st, nibs, state, syms, flags):
        """[(state, kind, symbols, last flags)]: partition by what the automaton says"""
        if not nibs:
            if flags is None:
                yield st, "ok", syms
                return
            for acc in (True, False):
                s = st.clone()
                if s.take(T.icmp("eq", T.slice_(flags, 0, 1), T.const(1, 1)), acc):
                    yield s, "ok" if acc else "not accepted", syms
            return
        nib = nibs[0]
        f = cell(state, nib, 1)
        bits = set(tbl_enum(eng, st, f).values()) if f.kind == "op" and tbl_index(f) and f.a[0] == "tbl" else None
        s = st.clone()
        if (not bits or any(x & 4 for x in bits)) and s.take(T.icmp("eq", T.slice_(f, 2, 1), T.const(1, 1)), True):
            yield s, "failed", syms
        s = st.clone()
        if not s.take(T.icmp("eq", T.slice_(f, 2, 1), T.const(1, 1)), False):
            return
        for sym in (True, False):
            s2 = s.clone()
            if bits and not any((x & 2 != 0) == sym and not x & 4 for x in bits):
                continue
            if s2.take(T.icmp("eq", T.slice_(f, 1, 1), T.const(1, 1)), sym):
                yield from walk(s2, nibs[1:], cell(state, nib, 0), syms + ([cell(state, nib, 2)] if sym else []), f)

    for q in sequences(lab, chk.tier):
        deep = q.name in ("heap buffer", "buffers[1, 'h']", "lookahead over heap buffer at p") or chk.tier == "thorough"
        for n in (0, 1, 2, 3) if q.name == "heap buffer" and chk.tier == "thorough" else (0, 1, 2) if deep else (0, 1):
            N = C64(n)
            tag = "huffman::decode(%s, %d bytes)" % (q, n)
            with chk.guard("decode", tag):
                st0 = q.st.clone()
                out = lab.raw(st0, "out", lab.size("string"))
                err = lab.word(st0, "err")
                s = st0.clone()
                if s.take(T.icmp("uge", q.size(), N), False):
                    what = tag + " short input"
                    for ok, s1 in decode_calls(chk, lab, q, "huffman_decode", [N, out, err], s, "decode short", what):
                        if ok:
                            chk.never(eng, "decode short", s1, what + ": accepted", extra=(q.size(),))
                        else:
                            chk.same(eng, "decode short", s1, lab.get(s1, err), inc, what + ": error")
                            after(chk, lab, q, s1, C64(0), "decode no-advance", what)
                s = st0.clone()
                if not s.take(T.icmp("uge", q.size(), N), True):
                    continue
                for s0, bs in all_bytes(q, s, n):
                    nibs = [T.slice_(b, lo, 4) for b in bs for lo in (4, 0)]
                    for s1, kind, syms in walk(s0, nibs, T.const(8, 0), [], None):
                        what = tag + " automaton: %s, %d symbols" % (kind, len(syms))
                        for ok, s2 in decode_calls(chk, lab, q, "huffman_decode", [N, out, err], s1, "decode", what):
                            if kind == "ok" and not ok:
                                chk.never(eng, "decode accepts", s2, what + ": rejected", extra=tuple(nibs))
                            elif kind != "ok" and ok:
                                chk.never(eng, "decode rejects", s2, what + ": accepted", extra=tuple(nibs))
                            elif not ok:
                                chk.same(eng, "decode rejects", s2, lab.get(s2, err), bad, what + ": error")
                                after(chk, lab, q, s2, C64(0), "decode no-advance", what)
                            else:
                                for r, s3 in lab.call("vh_string_size", [out], s2):
                                    chk.same(eng, "decoded size", s3, r, C64(len(syms)), what + ": string size")
                                    for j, y in enumerate(syms):
                                        for c, s4 in lab.call("vh_string_at", [out, C64(j)], s3):
                                            chk.same(eng, "decoded symbols", s4, c, y, what + ": character %d" % j)
                                after(chk, lab, q, s2, N, "decode advance", what)
                                chk.exits(eng, "result", what)
        chk.sample({"input": q.name, "size": str(q.size())})
    # announced length is symbolic and larger than the input
    for q in sequences(lab, chk.tier, small=True):
        N = T.sym(64, "N")
        st = q.st.clone()
        if not st.take(T.icmp("uge", q.size(), N), False):
            continue
        out = lab.raw(st, "out", lab.size("string"))
        err = lab.word(st, "err")
        what = "huffman::decode(%s, N > size)" % q
        with chk.guard("decode short", what):
            for ok, s1 in decode_calls(chk, lab, q, "huffman_decode", [N, out, err], st, "decode short", what):
                if ok:
                    chk.never(eng, "decode short", s1, what + ": accepted", extra=(q.size(),))
                else:
                    chk.same(eng, "decode short", s1, lab.get(s1, err), inc, what + ": error")
                    after(chk, lab, q, s1, C64(0), "decode no-advance", what)
    return chk.finish(500, "dataflow over huffman::decode<Sequence> with the automaton as an uninterpreted transition table",
                      expl="The decoder is compared with the fold of the table over the nibbles for every outcome of the table "
                           "look-ups (failed / symbol / no symbol / accepted), so it holds for every input of the covered "
                           "lengths; container kinds as in C02.")
