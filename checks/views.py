"""C36, C37: views, header names, addresses."""
from .lab import *
from .events import string_arg

VIEW_SOURCES = ["bnl/base/src/base/buffer_view.cpp", "bnl/base/src/base/string_view.cpp", "bnl/base/src/http3/header.cpp"]
IP_SOURCES = VIEW_SOURCES + ["bnl/base/src/ip/address.cpp", "bnl/base/src/ip/endpoint.cpp", "bnl/base/src/ip/host.cpp",
                             "bnl/base/src/quic/path.cpp", "bnl/base/src/ip/address/ipv4.cpp", "bnl/base/src/ip/address/ipv6.cpp"]
ONE1, ZERO1 = T.const(1, 1), T.const(1, 0)
T_, F_ = True, False


def new(lab, st, name, kind):
    return st.add_obj((name,), "param", lab.size(kind))


def content_of(lab, st, tag, n):
    return st.add_obj(("src", tag), "param", n, ("in", tag))


def calls(chk, lab, name, args, st, rule, what):
    r = lab.call(name, args, st.clone())
    chk.exits(lab.eng, rule, what)
    return r


def points(chk, lab, rule, st, p, obj, off, what):
    """pointer value p is obj+off"""
    p = lab.eng.to_ptr(p) if isinstance(p, T.Term) else p
    if not isinstance(p, Ptr) or p.obj != obj.obj:
        chk.never(lab.eng, rule, st, "%s is %s" % (what, p))
    else:
        chk.same(lab.eng, rule, st, p.off, T.add(obj.off, off), what)


def view_is(chk, lab, kind, v, st, p, n, what, rule="view", deep=True):
    eng = lab.eng
    for f, off in (("data", C64(0)), ("begin", C64(0)), ("end", n)):
        for r, s in calls(chk, lab, "vh_%s_%s" % (kind, f), [v], st, rule, what):
            points(chk, lab, rule, s, r, p, off, "%s.%s()" % (what, f))
    for r, s in calls(chk, lab, "vh_%s_size" % kind, [v], st, rule, what):
        chk.same(eng, rule, s, r, n, what + ".size()")
    for r, s in calls(chk, lab, "vh_%s_empty" % kind, [v], st, rule, what):
        chk.same(eng, rule, s, r, T.icmp("eq", n, C64(0)), what + ".empty()")
    if not deep:
        return
    src = st.mem[p.obj].default
    i = T.sym(64, ("i", "obs"), 0, BIG)
    s0 = st.clone()
    if s0.take(T.icmp("ult", i, n)):
        for r, s in calls(chk, lab, "vh_%s_at" % kind, [v, i], s0, rule, what):
            chk.same(eng, rule, s, r, eng.byte(s, src, T.add(p.off, i)), what + "[i]")
    s0 = st.clone()
    if s0.take(T.icmp("ult", C64(0), n)):
        for r, s in calls(chk, lab, "vh_%s_front" % kind, [v], s0, rule, what):
            chk.same(eng, rule, s, r, eng.byte(s, src, p.off), "*" + what)


SIZES = [C64(0), C64(1), C64(5), T.sym(64, ("n", "view"), 1, BIG)]


def views(chk, lab):
    eng = lab.eng
    for kind in ("bv", "sv"):
        for n in SIZES:
            what = "%s of %s bytes" % ({"bv": "buffer_view", "sv": "string_view"}[kind], n)
            with chk.guard("view", what):
                st = State()
                p = content_of(lab, st, "a", n)
                v, w = new(lab, st, "v", kind), new(lab, st, "w", kind)
                for _, s in calls(chk, lab, "vh_%s_make" % kind, [v, p, n], st, "view", what):
                    view_is(chk, lab, kind, v, s, p, n, what)
                    for _, s2 in calls(chk, lab, "vh_%s_copy" % kind, [w, v], s, "view", what):
                        view_is(chk, lab, kind, w, s2, p, n, "copy of " + what)
                    for _, s2 in calls(chk, lab, "vh_%s_default" % kind, [w], s, "view", what):
                        for r, s3 in calls(chk, lab, "vh_%s_size" % kind, [w], s2, "view", what):
                            chk.same(eng, "view", s3, r, C64(0), "default view size")
                        for _, s3 in calls(chk, lab, "vh_%s_assign" % kind, [w, v], s2, "view", what):
                            view_is(chk, lab, kind, w, s3, p, n, "assigned " + what)
    for n in SIZES:
        what = "buffer_view_mut of %s bytes" % n
        with chk.guard("view", what):
            st = State()
            p = content_of(lab, st, "a", n)
            m, v = new(lab, st, "m", "bvm"), new(lab, st, "v", "bv")
            for _, s in calls(chk, lab, "vh_bvm_make", [m, p, n], st, "view", what):
                view_is(chk, lab, "bvm", m, s, p, n, what, deep=False)
                for _, s2 in calls(chk, lab, "vh_bv_of_bvm", [v, m], s, "view", what):
                    view_is(chk, lab, "bv", v, s2, p, n, "buffer_view of " + what)
    for n in (C64(0), C64(15), T.sym(64, ("n", "str"), 16, BIG)):
        what = "string_view of a string of %s" % n
        with chk.guard("view", what):
            st, sp, (n_, at) = string_arg(lab, State(), n, "s")
            v = new(lab, st, "v", "sv")
            for _, s in calls(chk, lab, "vh_sv_string", [v, sp], st, "view", what):
                for r, s2 in calls(chk, lab, "vh_sv_size", [v], s, "view", what):
                    chk.same(eng, "view", s2, r, n, what + ": size")
                i = T.sym(64, ("i", "obs"), 0, BIG)
                s3 = s.clone()
                if s3.take(T.icmp("ult", i, n)):
                    for r, s4 in calls(chk, lab, "vh_sv_at", [v, i], s3, "view", what):
                        same_split(chk, lab, "view", s4, r, lambda x: at(x, i), what + "[i]")
    for text in (b"", b"x", b"accept", bytes(range(1, 60))):
        what = "string_view of %d literal characters" % len(text)
        with chk.guard("view", what):
            st = State()
            p = st.add_obj(("lit",), "param", len(text) + 1, ("const", text + b"\0"), ro=True)
            v = new(lab, st, "v", "sv")
            for _, s in calls(chk, lab, "vh_sv_cstring", [v, p], st, "view", what):
                view_is(chk, lab, "sv", v, s, p, C64(len(text)), what, deep=False)


# ---- equality ------------------------------------------------------------------------------

def decided(chk, eng, rule, s, r, want, what, given=None):
    """the answer r is `want`; given: an additional condition under which that is claimed"""
    if given is not None:
        s2 = s.clone()
        if not s2.take(T.icmp("eq", r, T.const(1, int(not want)))) or not s2.take(given):
            return chk.ok(rule)
        if not s.take(given):
            return chk.ok(rule)
    chk.same(eng, rule, s, r, T.const(1, int(want)), what)


def differing(eng, st, n, j, same=True):
    """two contents a, b of n bytes, equal except at j"""
    for i in range(n):
        if i != j and same:
            x, y = eng.byte(st, ("in", "a"), C64(i)), eng.byte(st, ("in", "b"), C64(i))
            if not st.take(T.icmp("eq", x, y)):
                return None
    x, y = eng.byte(st, ("in", "a"), C64(j)), eng.byte(st, ("in", "b"), C64(j))
    return [T.icmp("ult", x, y), T.icmp("ult", y, x)]


def equality(chk, lab, kind, tier):
    eng = lab.eng
    rule = "equality"
    nm = {"bv": "buffer_view", "sv": "string_view"}[kind]

    def pair(n, m, same=False):
        st = State()
        a = content_of(lab, st, "a", n)
        b = content_of(lab, st, "a" if same else "b", m)
        v, w = new(lab, st, "v", kind), new(lab, st, "w", kind)
        _, st = lab.one("vh_%s_make" % kind, [v, a, n], st)
        _, st = lab.one("vh_%s_make" % kind, [w, b, m], st)
        return st, v, w

    def ask(st, v, w, want, what, given=None):
        for x, y in ((v, w), (w, v)):
            for f, t in (("eq", want), ("ne", not want)):
                with chk.guard(rule, what):
                    for r, s in calls(chk, lab, "vh_%s_%s" % (kind, f), [x, y], st, rule, what):
                        decided(chk, eng, rule, s, r, t, "%s %s: %s" % (nm, f, what), given)

    ns = [0, 1, 2, 3, 7, 16] if tier == "quick" else [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]
    for n in ns:
        for m in ns:
            if n != m:
                st, v, w = pair(C64(n), C64(m), same=True)
                ask(st, v, w, False, "same bytes, lengths %d and %d" % (n, m))
        st, v, w = pair(C64(n), C64(n))
        for i in range(n):
            st.take(T.icmp("eq", eng.byte(st, ("in", "a"), C64(i)), eng.byte(st, ("in", "b"), C64(i))))
        ask(st, v, w, True, "%d equal bytes" % n)
        for j in sorted({0, n // 2, n - 1}) if n else []:
            for same in (True, False):
                st, v, w = pair(C64(n), C64(n))
                for g in differing(eng, st, n, j, same):
                    ask(st, v, w, False, "%d bytes differing at %d, others %s" % (n, j, "equal" if same else "any"), g)
    # any lengths that differ
    x, y = T.sym(64, ("n", "a"), 0, BIG), T.sym(64, ("n", "b"), 0, BIG)
    st, v, w = pair(x, y, same=True)
    for c in (T.icmp("ult", x, y), T.icmp("ult", y, x)):
        ask(st, v, w, False, "different lengths", c)
    # any length, the same bytes
    st, v, w = pair(x, x, same=True)
    ask(st, v, w, True, "the same bytes of any length")


def headers(chk, lab, tier):
    eng = lab.eng
    rule = "headers"

    def make(st, tag, n, src):
        p = st.add_obj(("src", tag), "param", n, ("in", src))
        v = new(lab, st, "view" + tag, "sv")
        _, st = lab.one("vh_sv_make", [v, p, n], st)
        return st, v, p

    for n, k in ((0, 0), (1, 1), (3, 2), (2, 5)):
        for dn in (None, "length", 0, n - 1):
            for dv in (None, "length", 0, k - 1):
                if (isinstance(dn, int) and not 0 <= dn < n) or (isinstance(dv, int) and not 0 <= dv < k):
                    continue
                st = State()
                # names n and m, values v and w: equal except as asked
                st, a, pa = make(st, "n", C64(n), "a")
                st, b, pb = make(st, "v", C64(k), "b")
                st, c, pc = make(st, "m", C64(n + (dn == "length")), "a" if not isinstance(dn, int) else "c")
                st, d, pd = make(st, "w", C64(k + (dv == "length")), "b" if not isinstance(dv, int) else "d")
                given = []
                ok = True
                for diff, ln, x, y in ((dn, n, "a", "c"), (dv, k, "b", "d")):
                    if isinstance(diff, int):
                        for i in range(ln):
                            p, q = eng.byte(st, ("in", x), C64(i)), eng.byte(st, ("in", y), C64(i))
                            if i == diff:
                                given.append(T.icmp("ult", p, q))
                            else:
                                ok = ok and st.take(T.icmp("eq", p, q))
                what = "headers of %d/%d characters, names differ: %s, values differ: %s" % (n, k, dn, dv)
                want = dn is None and dv is None
                with chk.guard(rule, what):
                    for f, t in (("eq", want), ("ne", not want)):
                        for args in ([a, b, c, d], [c, d, a, b]):
                            for r, s in calls(chk, lab, "vh_header_" + f, args, st, rule, what):
                                decided(chk, eng, rule, s, r, t, "%s: %s" % (f, what), given[0] if given else None)
    # views of views and of headers
    for n, k in ((C64(0), C64(0)), (C64(5), T.sym(64, ("n", "v"), 0, BIG)), (T.sym(64, ("n", "m"), 0, BIG), C64(3))):
        with chk.guard(rule, "header_view"):
            st = State()
            st, a, pa = make(st, "n", n, "a")
            st, b, pb = make(st, "v", k, "b")
            o = new(lab, st, "o", "sv")
            for f, p, l in (("name", pa, n), ("value", pb, k)):
                for _, s in calls(chk, lab, "vh_header_view_" + f, [o, a, b], st, rule, "header_view"):
                    view_is(chk, lab, "sv", o, s, p, l, "header_view." + f, rule)
    for n, k in ((C64(0), C64(0)), (C64(5), T.sym(64, ("n", "v"), 16, BIG)), (T.sym(64, ("n", "m"), 16, BIG), C64(15))):
        with chk.guard(rule, "header"):
            st, a, av = string_arg(lab, State(), n, "name")
            st, b, bv_ = string_arg(lab, st, k, "value")
            h = [new(lab, st, "h%d" % i, "header") for i in range(2)]
            o = new(lab, st, "o", "sv")
            for _, s in calls(chk, lab, "vh_header_make", [h[0], a, b], st, rule, "header"):
                for f in ("copy", "move"):
                    for _, s2 in calls(chk, lab, "vh_header_" + f, [h[1], h[0]], s, rule, "header " + f):
                        for g in ("name", "value", "asview_name", "asview_value"):
                            want = av if "name" in g else bv_
                            for _, s3 in calls(chk, lab, "vh_header_" + g, [o, h[1]], s2, rule, "header " + g):
                                what = "%s of a %s header" % (g, f)
                                for r, s4 in calls(chk, lab, "vh_sv_size", [o], s3, rule, what):
                                    chk.same(eng, rule, s4, r, want[0], what + ": size")
                                i = T.sym(64, ("i", "obs"), 0, BIG)
                                s5 = s3.clone()
                                if s5.take(T.icmp("ult", i, want[0])):
                                    for r, s6 in calls(chk, lab, "vh_sv_at", [o, i], s5, rule, what):
                                        same_split(chk, lab, rule, s6, r, lambda x: want[1](x, i), what)


# ranges of characters around and inside A-Z
RANGES = ((0, 0x3f, F_), (0x40, 0x40, F_), (0x41, 0x41, T_), (0x42, 0x59, T_), (0x5a, 0x5a, T_), (0x5b, 0x5b, F_),
          (0x5c, 0x7f, F_), (0x80, 0xc0, F_), (0xc1, 0xda, F_), (0xdb, 0xff, F_))


def lowercase(chk, lab, tier):
    eng = lab.eng
    rule = "lower case"
    vals = (("no value", C64(0)), ("any value", T.sym(64, ("n", "value"), 0, BIG)))
    cases = [(n, at) for n in ((1, 2, 3, 4, 9, 17, 33) if tier == "quick" else tuple(range(1, 34)) + (64, 100))
             for at in sorted({0, 1, n // 2, n - 2, n - 1} if n < 9 else {0, n // 2, n - 1}) if 0 <= at < n]
    for n, at in cases + [(0, None)]:
        for lo, hi, up in RANGES if n else ((0, 0, F_),):
            for lo2, hi2 in ((0x5b, 0xff), (0, 0x40)):
                for vn, vs in vals[1:] if n > 4 else vals:
                    st = State()
                    name, value = content_of(lab, st, "name", C64(n)), content_of(lab, st, "value", vs)
                    for j in range(n):
                        c = eng.byte(st, ("in", "name"), C64(j))
                        a, b = (lo, hi) if j == at else (lo2, hi2)
                        st.take(T.icmp("uge", c, T.const(8, a)))
                        st.take(T.icmp("uge", T.const(8, b), c))
                    what = "name of %d characters, character %s in [%#x,%#x], others in [%#x,%#x], %s" % (n, at, lo, hi, lo2, hi2, vn)
                    with chk.guard(rule, what):
                        for r, s in calls(chk, lab, "vh_header_lower", [name, C64(n), value, vs], st, rule, what):
                            chk.same(eng, rule, s, r, T.const(1, int(not up)), what + ": lower case")
    # upper-case letters everywhere
    for n in (2, 3, 8):
        st = State()
        name, value = content_of(lab, st, "name", C64(n)), content_of(lab, st, "value", C64(1))
        for j in range(n):
            c = eng.byte(st, ("in", "name"), C64(j))
            st.take(T.icmp("uge", c, T.const(8, 0x41)))
            st.take(T.icmp("uge", T.const(8, 0x5a), c))
        with chk.guard(rule, "all upper"):
            for r, s in calls(chk, lab, "vh_header_lower", [name, C64(n), value, C64(1)], st, rule, "all upper"):
                chk.same(eng, rule, s, r, ZERO1, "%d upper-case characters: lower case" % n)


def C36(chk):
    lab = Lab(VIEW_SOURCES, ["h_base.cpp", "h_view.cpp"])
    chk.use(lab.eng)
    lab.eng.no_merge = True
    t = chk.tier
    chk.parallel([lambda: views(chk, lab), lambda: equality(chk, lab, "bv", t), lambda: equality(chk, lab, "sv", t),
                  lambda: headers(chk, lab, t), lambda: lowercase(chk, lab, t)])
    return chk.finish(800, "symbolic content tracking and value-range partition of the comparison and classification functions",
                      expl="Views of every size, equality for equal, differing (at every tested position, others equal or arbitrary) "
                           "and different-length contents, classification per character range and position.")


# ---- addresses -----------------------------------------------------------------------------------

def address_is(chk, lab, a, st, n, at, what, rule="address"):
    eng = lab.eng
    for f, want in (("is_ipv4", n == 4), ("is_ipv6", n == 16)):
        for r, s in calls(chk, lab, "vh_address_" + f, [a], st, rule, what):
            chk.same(eng, rule, s, r, T.const(1, int(want)), "%s: %s" % (what, f))
    for r, s in calls(chk, lab, "vh_address_size", [a], st, rule, what):
        chk.same(eng, rule, s, r, C64(n), what + ": number of bytes")
    for r, s in calls(chk, lab, "vh_address_data", [a], st, rule, what):
        p = eng.to_ptr(r) if isinstance(r, T.Term) else r
        if not isinstance(p, Ptr):
            chk.never(eng, rule, s, what + ": no bytes")
            continue
        for i in range(n):
            chk.same(eng, rule, s, lab.peek(s, p, i), at(s, i), "%s: byte %d" % (what, i))
    chk.exits(eng, rule, what)


MAKERS = (("vh_address_bytes", 4), ("vh_address_bytes", 16), ("vh_address_ipv4", 4), ("vh_address_ipv4v", 4), ("vh_address_ipv4w", 4),
          ("vh_address_ipv6", 16), ("vh_address_ipv6v", 16))


def address(lab, st, tag, maker, n):
    """[(state, object, i-th byte)]"""
    a = new(lab, st, "addr" + tag, "address")
    at = lambda s, i: lab.eng.byte(s, ("in", tag), C64(i))
    if maker.endswith("w"):
        w = T.sym(32, ("w", tag), 0, (1 << 32) - 1)
        at = lambda s, i: T.slice_(w, 8 * i, 8)
        r = lab.call(maker, [a, w], st)
    else:
        p = content_of(lab, st, tag, C64(n))
        r = lab.call(maker, [a, p] + ([C64(n)] if maker.endswith("bytes") else []), st)
    return [(s, a, at) for _, s in r]


def addresses(chk, lab):
    eng = lab.eng
    for mk, n in MAKERS:
        what = "%s of %d bytes" % (mk[3:], n)
        with chk.guard("address", what):
            for st, a, at in address(lab, State(), "a", mk, n):
                chk.exits(eng, "address", what)
                address_is(chk, lab, a, st, n, at, what)
                src = st.mem.get(("src", "a"))
                if src is not None:     # a copy of the bytes, not a view
                    s = st.clone()
                    s.mem[("src", "a")] = src.with_(cells={}, freed=True, _key=None)
                    address_is(chk, lab, a, s, n, at, what + ", source gone")
                b = new(lab, st, "copy", "address")
                for _, s in calls(chk, lab, "vh_address_copy", [b, a], st, "address", what):
                    address_is(chk, lab, b, s, n, at, "copy of " + what)
                for mk2, n2 in MAKERS[:2]:
                    for st2, c, _ in address(lab, st.clone(), "z", mk2, n2):
                        for _, s in calls(chk, lab, "vh_address_assign", [c, a], st2, "address", what):
                            address_is(chk, lab, c, s, n, at, "%s assigned over %d bytes" % (what, n2))
                ends(chk, lab, st, a, n, at, what)
    with chk.guard("address", "default"):
        st = State()
        a = new(lab, st, "a", "address")
        for _, s in calls(chk, lab, "vh_address_default", [a], st, "address", "default"):
            address_is(chk, lab, a, s, 4, lambda s, i: T.const(8, 0), "default address")


def ends(chk, lab, st, a, n, at, what):
    """endpoints and paths keep what they are made of"""
    eng = lab.eng
    rule = "endpoint"
    port, port2 = T.sym(16, ("port", 1), 0, 65535), T.sym(16, ("port", 2), 0, 65535)

    def endpoint_is(e, s, n, at, port, what):
        for r, s2 in calls(chk, lab, "vh_endpoint_port", [e], s, rule, what):
            chk.same(eng, rule, s2, r, port, what + ": port")
        for r, s2 in calls(chk, lab, "vh_endpoint_address", [e], s, rule, what):
            address_is(chk, lab, r, s2, n, at, what, rule)

    for mk2, n2 in (("vh_address_ipv4", 4), ("vh_address_ipv6", 16)):
        for st2, b, bat in address(lab, st.clone(), "peer", mk2, n2):
            e, f, g = (new(lab, st2, x, "endpoint") for x in ("e", "f", "g"))
            p, q = new(lab, st2, "p", "path"), new(lab, st2, "q", "path")
            for _, s in calls(chk, lab, "vh_endpoint_make", [e, a, port], st2, rule, what):
                endpoint_is(e, s, n, at, port, "endpoint at " + what)
                for _, s2 in calls(chk, lab, "vh_endpoint_copy", [g, e], s, rule, what):
                    endpoint_is(g, s2, n, at, port, "copied endpoint at " + what)
                for _, s2 in calls(chk, lab, "vh_endpoint_make", [f, b, port2], s, rule, what):
                    for _, s3 in calls(chk, lab, "vh_path_make", [p, e, f], s2, rule, what):
                        for _, s4 in calls(chk, lab, "vh_path_copy", [q, p], s3, rule, what):
                            for x in (p, q):
                                for r, s5 in calls(chk, lab, "vh_path_local", [x], s4, rule, what):
                                    endpoint_is(r, s5, n, at, port, "local end of a path, " + what)
                                for r, s5 in calls(chk, lab, "vh_path_peer", [x], s4, rule, what):
                                    endpoint_is(r, s5, n2, bat, port2, "peer of a path, " + what)


def address_pairs(chk, lab):
    eng = lab.eng
    rule = "address equality"
    for n in (4, 16):
        for j in [None] + list(range(n)):
            for same in (True, False) if j is not None else (True,):
                st = State()
                a = address(lab, st, "a", "vh_address_bytes", n)
                b = address(lab, a[0][0], "b", "vh_address_bytes", n)
                if len(a) != 1 or len(b) != 1:
                    raise Broken("address construction branches")
                st = b[0][0]
                given = [None]
                if j is None:
                    for i in range(n):
                        st.take(T.icmp("eq", eng.byte(st, ("in", "a"), C64(i)), eng.byte(st, ("in", "b"), C64(i))))
                else:
                    given = differing(eng, st, n, j, same)
                what = "addresses of %d bytes, differing at %s, others %s" % (n, j, "equal" if same else "any")
                for g in given:
                    with chk.guard(rule, what):
                        for x, y in ((a[0][1], b[0][1]), (b[0][1], a[0][1])):
                            for r, s in calls(chk, lab, "vh_address_eq", [x, y], st, rule, what):
                                decided(chk, eng, rule, s, r, j is None, what, g)
    with chk.guard(rule, "families"):
        a = address(lab, State(), "a", "vh_address_bytes", 4)
        b = address(lab, a[0][0], "a", "vh_address_bytes", 16)
        st = b[0][0]
        st2 = State()
        x = address(lab, st2, "a", "vh_address_bytes", 4)[0]
        p = x[0].add_obj(("src", "wide"), "param", C64(16), ("in", "a"))
        y = new(lab, x[0], "wide", "address")
        for _, s in calls(chk, lab, "vh_address_bytes", [y, p, C64(16)], x[0], rule, "families"):
            for args in ([x[1], y], [y, x[1]]):
                for r, s2 in calls(chk, lab, "vh_address_eq", args, s, rule, "families"):
                    decided(chk, eng, rule, s2, r, False, "addresses of different families")


def hosts(chk, lab):
    eng = lab.eng
    for n in (C64(0), C64(15), T.sym(64, ("n", "host"), 16, BIG)):
        what = "host of %s characters" % n
        with chk.guard("host", what):
            st, sp, (_, at) = string_arg(lab, State(), n, "s")
            h, g, o = new(lab, st, "h", "host"), new(lab, st, "g", "host"), new(lab, st, "o", "sv")
            for _, s in calls(chk, lab, "vh_host_string", [h, sp], st, "host", what):
                for _, s1 in calls(chk, lab, "vh_host_copy", [g, h], s, "host", what):
                    for x in (h, g):
                        for _, s2 in calls(chk, lab, "vh_host_name", [o, x], s1, "host", what):
                            for r, s3 in calls(chk, lab, "vh_sv_size", [o], s2, "host", what):
                                chk.same(eng, "host", s3, r, n, what + ": size")
                            i = T.sym(64, ("i", "obs"), 0, BIG)
                            if s2.take(T.icmp("ult", i, n)):
                                for r, s3 in calls(chk, lab, "vh_sv_at", [o, i], s2, "host", what):
                                    same_split(chk, lab, "host", s3, r, lambda y: at(y, i), what)


def C37(chk):
    lab = Lab(IP_SOURCES, ["h_base.cpp", "h_view.cpp"])
    chk.use(lab.eng)
    lab.eng.no_merge = True
    chk.parallel([lambda: addresses(chk, lab), lambda: address_pairs(chk, lab), lambda: hosts(chk, lab)])
    return chk.finish(400, "symbolic content tracking of addresses, endpoints and paths, and symbolic comparison",
                      expl="Every constructor with symbolic bytes, copies and assignments across families, equality per differing byte.")
