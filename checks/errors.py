"""C34: error enumerations as std::error_code."""
from .lab import *

SOURCES = ["bnl/base/src/base/system_error.cpp"]
# draft-ietf-quic-http-19 8.1, draft-ietf-quic-qpack-07 6
HTTP3 = {"no_error": 0x0, "internal": 0x3, "wrong_stream": 0xa, "closed_critical_stream": 0xf, "missing_settings": 0x12,
         "unexpected_frame": 0x13, "malformed_frame": 0x100, "qpack_decompression_failed": 0x200, "incomplete": None, "idle": None,
         "delegate": None, "not_implemented": None, "varint_overflow": None, "malformed_header": None, "stream_closed": None,
         "invalid_handle": None}
QUIC = {"no_error": 0x0, "internal": 0x1, "incomplete": None, "idle": None, "delegate": None, "finished": None,
        "not_implemented": None, "handshake": None, "crypto": None, "ngtcp2": None, "path_validation": None,
        "stream_not_found": None, "stream_id_blocked": None, "stream_data_blocked": None}




def text_of(lab, st, p):
    """constant character string at p"""
    out = ""
    p = lab.eng.to_ptr(p) if isinstance(p, T.Term) else p
    for i in range(200):
        c = lab.eng.raw_read(st, p.obj, st.mem[p.obj] if p.obj in st.mem else lab.eng.gobj(p.obj, st), T.add(p.off, C64(i)), 1)
        if not isinstance(c, T.Term) or c.kind != "const":
            raise Broken("text is not constant")
        if c.a == 0:
            return out
        out += chr(c.a)
    raise Broken("text too long")


def message(chk, lab, p, v):
    st = State()
    s = st.add_obj(("message",), "param", lab.size("string"))
    r = lab.call("vh_%s_message" % p, [s, C64(v)], st)
    chk.exits(lab.eng, "message", "%s error 0x%x" % (p, v))
    if len(r) != 1:
        raise Broken("message has %d outcomes" % len(r))
    _, st = r[0]
    n = lab.one("vh_string_size", [s], st)[0]
    return "".join(chr(lab.one("vh_string_at", [s, C64(i)], st)[0].a) for i in range(n.a))


def C34(chk):
    lab = Lab(SOURCES, ["h_base.cpp", "h_error.cpp"])
    chk.use(lab.eng)
    eng = lab.eng

    def expect(rule, cond, what, **w):
        if cond:
            chk.ok(rule)
        else:
            chk.fail(rule, what, "bnl/base/src/base/system_error.cpp", w)

    cats, names = {}, {}
    for p, table, get in (("http3", HTTP3, "vh_err_"), ("quic", QUIC, "vh_qerr_")):
        values, codes, texts = {}, {}, {}
        for n, wire in table.items():
            with chk.guard("values", "%s::error::%s" % (p, n)):
                v = lab.const(get + n)
                if wire is not None:
                    expect("wire values", v == wire, "%s::error::%s is 0x%x, the draft says 0x%x" % (p, n, v, wire), error=n)
                else:
                    expect("wire values", v >= 1 << 62, "internal %s::error::%s is 0x%x, a value that fits the wire" % (p, n, v), error=n)
                expect("distinct", v not in values, "%s::error::%s and %s have the same value" % (p, n, values.get(v)), error=n)
                values[v] = n
        for v, n in values.items():
            what = "%s::error::%s" % (p, n)
            with chk.guard("codes", what):
                out = {}
                for f in ("value", "category", "set"):
                    r = lab.call("vh_%s_%s" % (p, f), [C64(v)], State())
                    chk.exits(eng, "codes", what)
                    if len(r) != 1:
                        raise Broken("%s: %d outcomes" % (f, len(r)))
                    out[f] = r[0][0]
                own = lab.one("vh_%s_own" % p, [], State())[0]
                cats.setdefault(p, own)
                expect("category", out["category"] == own, "%s does not convert to its own category" % what, error=n)
                c = out["value"].a
                expect("distinct", c not in codes, "%s and %s convert to the same code 0x%x" % (what, codes.get(c), c), error=n)
                codes[c] = n
                expect("falsy", bool(out["set"].a) == (n != "no_error"), "%s converts to a %s code" %
                       (what, "truthy" if out["set"].a else "falsy"), error=n)
                expect("comparison", bool(out["set"].a) == (c != 0), "%s: truth of the code disagrees with its value" % what, error=n)
        unknown = None
        with chk.guard("message", p):
            unknown = message(chk, lab, p, 0x3abc)
        words = {x.replace("_", " "): x for x in table}
        for v, n in values.items():
            what = "%s::error::%s" % (p, n)
            with chk.guard("message", what):
                m = message(chk, lab, p, v)
                expect("message", m.strip() != "" and m != unknown, "%s has the message of an unknown error (%r)" % (what, m), error=n)
                expect("message", m not in texts, "%s and %s have the same message %r" % (what, texts.get(m), m), error=n)
                o = words.get(m.lower().strip())
                expect("message", o is None or o == n, "%s has the message of %s" % (what, o), error=n)
                texts[m] = n
        with chk.guard("category name", p):
            r, st = lab.one("vh_%s_name" % p, [], State())
            names[p] = text_of(lab, st, r)
        chk.sample({"protocol": p, "errors": len(values), "codes": {n: hex(c) for c, n in codes.items()}, "name": names.get(p)})
    if len(cats) == 2:
        expect("category", cats["http3"] != cats["quic"], "both protocols use the same category")
    if len(names) == 2:
        expect("category name", names["http3"] != names["quic"] and all(names.values()),
               "the categories of both protocols are named %r" % names["quic"])
    return chk.finish(150, "constant propagation over the conversion of every enumerator, table comparison with the drafts",
                      expl="Every enumerator of both error types: value, std::error_code value, category, truth and message.")
