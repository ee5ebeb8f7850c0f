"""C33: events and frames as tagged unions."""
from .lab import *
from . import frame as FR
from .buffers import History, V, content, bury, segments, total, from_source, fresh, empty

SOURCES = BASE3 + ["bnl/base/src/http3/header.cpp", "bnl/base/src/http3/event.cpp", "bnl/base/src/http3/settings.cpp",
                   "bnl/base/src/quic/event.cpp", "bnl/http3/src/codec/frame/frame.cpp"]
FIELDS = {
    "q.data": ("data_id", "data_fin", "data_buffer"), "q.error": ("error_type", "error_id", "error_value"),
    "h.settings": ("settings_list", "settings_placeholders", "settings_capacity", "settings_blocked"),
    "h.header": ("header_id", "header_fin", "header_name", "header_value"), "h.body": ("body_id", "body_fin", "body_buffer"),
    "h.finished": ("finished_id",),
}


def buffer_arg(lab, st, spec, tag="b"):
    b = fresh(lab, st, tag)
    if spec == "d":
        _, st = lab.one("vh_buffer_default", [b], st)
        return st, b, empty(b)
    segs = segments(tag, spec)
    src = ("in", tag)
    s = st.add_obj(("src", tag), "param", total(segs), src)
    _, st = lab.one("vh_buffer_bytes", [b, s, total(segs)], st)
    return st, b, V(b, segs, from_source(lab, src))


def string_arg(lab, st, n, tag):
    src = ("in", tag)
    s = st.add_obj(("src", tag), "param", n, src)
    p = st.add_obj((tag,), "param", lab.size("string"))
    _, st = lab.one("vh_string_bytes", [p, s, n], st)
    return st, p, (n, lambda x, i: lab.eng.byte(x, src, i))


def kinds(lab):
    """(label, family, kind, state, args, expected fields, inputs to destroy)"""
    eng = lab.eng
    u = lambda n, w=64: T.sym(w, ("f", n), 0, (1 << w) - 1)
    for spec in ("d", (7,), ("l",)):
        for fam, k in (("q", "data"), ("h", "body")):
            st, b, v = buffer_arg(lab, State(), spec)
            i, f = u("id"), u("fin", 1)
            yield "%s.%s with %s" % (fam, k, spec), fam, k, st, [i, f, b], [i, f, v], [(b, "buffer")]
    for t in range(3):
        i, x = u("id"), u("value")
        yield "q.error %d" % t, "q", "error", State(), [T.const(32, t), i, x], [T.const(32, t), i, x], []
    vs = [u(n) for n in ("list", "placeholders", "capacity", "blocked")]
    yield "h.settings", "h", "settings", State(), list(vs), list(vs), []
    i = u("id")
    yield "h.finished", "h", "finished", State(), [i], [i], []
    for a, b in ((C64(0), C64(0)), (C64(15), T.sym(64, ("n", "value"), 16, BIG)), (T.sym(64, ("n", "name"), 16, BIG), C64(3)),
                 (C64(4), C64(16))):
        st, n, nv = string_arg(lab, State(), a, "name")
        st, v, vv = string_arg(lab, st, b, "value")
        i, f = u("id"), u("fin", 1)
        yield "h.header %s/%s" % (a, b), "h", "header", st, [i, f, n, v], [i, f, nv, vv], [(n, "string"), (v, "string")]


def reads(chk, lab, fam, kind, p, st, want, what):
    """the event is of its kind and its payload reads back"""
    eng = lab.eng
    pre = "vh_%sev_" % fam
    for r, s in lab.call(pre + "kind", [p], st.clone()):
        chk.same(eng, "kind", s, r, T.const(32, lab.const(pre + "kind_" + kind)), what + ": kind")
    for f, e in zip(FIELDS[fam + "." + kind], want):
        if isinstance(e, V):
            for r, s in lab.call(pre + f, [p], st.clone()):
                content(chk, lab, "payload", s, "buffer", V(r, e.segs, e.at), what + ": " + f)
        elif isinstance(e, tuple):
            n, at = e
            for r, s in lab.call(pre + f + "_size", [p], st.clone()):
                chk.same(eng, "payload", s, r, n, what + ": " + f + " size")
                i = T.sym(64, ("i", "obs"), 0, BIG)
                if s.take(T.icmp("ult", i, n)):
                    for c, s2 in lab.call(pre + f + "_at", [p, i], s):
                        same_split(chk, lab, "payload", s2, c, lambda x: at(x, i), what + ": " + f)
        else:
            for r, s in lab.call(pre + f, [p], st.clone()):
                chk.same(eng, "payload", s, r, e, what + ": " + f)
    if fam == "q":
        for r, s in lab.call("vh_qev_id", [p], st.clone()):
            chk.same(eng, "payload", s, r, want[0] if kind == "data" else want[1], what + ": id()")
    chk.exits(eng, "payload", what)


def destroyed(chk, lab, st, objs, what):
    """destroying everything in this order releases everything exactly once"""
    eng = lab.eng
    ss = [st]
    for p, t in objs:
        nxt = []
        for s in ss:
            for _, s2 in lab.call("vh_%s_destroy" % t, [p], s):
                bury(s2, p)
                nxt.append(s2)
        ss = nxt
    chk.exits(eng, "released once", what)
    for s in ss:
        live = [k for k, o in s.mem.items() if o.kind == "heap" and not o.freed]
        if live:
            chk.never(eng, "released once", s, "%s: %d block(s) of the payload never released" % (what, len(live)))
        else:
            chk.ok("released once")


def orders(objs):
    yield objs
    yield objs[::-1]
    if len(objs) > 2:
        yield objs[1:] + objs[:1]


def life(chk, lab, case):
    label, fam, kind, st, args, want, ins = case
    eng = lab.eng
    pre = "vh_%sev_" % fam
    t = fam + "ev"
    e = [st.add_obj(("ev", i), "param", lab.size(t)) for i in range(3)]
    with chk.guard("payload", label):
        for _, s in lab.call(pre + kind, [e[0]] + args, st):
            chk.exits(eng, "payload", label)
            what = label + " made"
            reads(chk, lab, fam, kind, e[0], s, want, what)
            for o in orders([(e[0], t)] + ins):
                destroyed(chk, lab, s.clone(), o, what)
            for _, s1 in lab.call(pre + "move", [e[1], e[0]], s.clone()):
                chk.exits(eng, "payload", label)
                what = label + " moved"
                reads(chk, lab, fam, kind, e[1], s1, want, what)
                for o in orders([(e[0], t), (e[1], t)] + ins):
                    destroyed(chk, lab, s1.clone(), o, what)
                # the moved-from event may go first without hurting the new one
                for _, s2 in lab.call(pre + "destroy", [e[0]], s1.clone()):
                    bury(s2, e[0])
                    reads(chk, lab, fam, kind, e[1], s2, want, what + ", source gone")
                    for _, s3 in lab.call(pre + "move", [e[2], e[1]], s2):
                        what = label + " moved twice"
                        reads(chk, lab, fam, kind, e[2], s3, want, what)
                        for o in orders([(e[1], t), (e[2], t)] + ins):
                            destroyed(chk, lab, s3.clone(), o, what)
                chk.exits(eng, "payload", label)
            if fam == "h":
                through_result(chk, lab, label, kind, s, e, want, ins)
    chk.sample({"event": label, "fields": len(want)})


def through_result(chk, lab, label, kind, s, e, want, ins):
    """handed on inside a result"""
    eng = lab.eng
    r = [s.add_obj(("res", i), "param", lab.size("rhev")) for i in range(2)]
    for _, s1 in lab.call("vh_rhev_make", [r[0], e[0]], s.clone()):
        for _, s2 in lab.call("vh_rhev_move", [r[1], r[0]], s1):
            for h, s3 in lab.call("vh_rhev_has", [r[1]], s2.clone()):
                chk.same(eng, "kind", s3, h, T.const(1, 1), label + " in a result: has a value")
            for _, s3 in lab.call("vh_rhev_take", [e[1], r[1]], s2):
                what = label + " through a result"
                reads(chk, lab, "h", kind, e[1], s3, want, what)
                for o in orders([(e[0], "hev"), (r[0], "rhev"), (r[1], "rhev"), (e[1], "hev")] + ins):
                    destroyed(chk, lab, s3.clone(), o, what)
    chk.exits(eng, "payload", label + " through a result")


def frame_pairs(chk, lab):
    """== holds exactly when type and every field are equal"""
    eng = lab.eng
    names = list(FR.GET)

    def build(st, tag, name, vals):
        f = st.add_obj(("frame", tag), "param", lab.size("frame"))
        _, st = lab.one("vh_frame_" + name, [f] + vals, st)
        return st, f

    def values(name, tag):
        out = []
        for g in FR.GET[name]:
            w = 8 if g in ("priority_pt", "priority_dt", "priority_weight") else 64
            out.append(T.sym(w, ("v", tag, g), 0, (1 << w) - 1))
        return out

    def compare(st, a, b, want, what, given=None):
        for f, v in (("vh_frame_eq", want), ("vh_frame_ne", not want)):
            for x, y in ((a, b), (b, a)):
                for r, s in lab.call(f, [x, y], st.clone()):
                    if given is not None:
                        # the wrong answer must contradict the difference
                        s2 = s.clone()
                        if not s2.take(T.icmp("eq", r, T.const(1, int(not v)))) or not s2.take(given):
                            chk.ok("frame equality")
                            continue
                        if not s.take(given):
                            continue
                    chk.same(eng, "frame equality", s, r, T.const(1, int(v)), what + ": " + f[9:])
                chk.exits(eng, "frame equality", what)

    def one(n):
        with chk.guard("frame equality", n):
            va = values(n, "a")
            st, a = build(State(), "a", n, va)
            st2, b = build(st, "b", n, va)
            compare(st2, a, b, True, "%s, all fields equal" % n)
            c = st2.add_obj(("frame", "c"), "param", lab.size("frame"))
            for _, s in lab.call("vh_frame_copy", [c, a], st2.clone()):
                compare(s, a, c, True, "%s and its copy" % n)
            for j, g in enumerate(FR.GET[n]):
                vb = values(n, "b")
                for others in ("equal", "any"):
                    vv = [vb[j] if i == j or others == "any" else x for i, x in enumerate(va)]
                    vv = [vb[i] if others == "any" or i == j else va[i] for i in range(len(va))]
                    for x, y in ((va[j], vb[j]), (vb[j], va[j])):
                        st2, b = build(st.clone(), "b", n, vv)
                        compare(st2, a, b, False, "%s differing in %s, other fields %s" % (n, g, others), T.icmp("ult", x, y))
        for m in names:
            if m != n:
                with chk.guard("frame equality", n + "/" + m):
                    va = values(n, "a")
                    st, a = build(State(), "a", n, va)
                    st, b = build(st, "b", m, (va * 5)[:len(values(m, "b"))] if n not in ("priority",) and m != "priority" else values(m, "b"))
                    compare(st, a, b, False, "%s and %s" % (n, m))
    return [lambda n=n: one(n) for n in names]


def C33(chk):
    lab = Lab(SOURCES, ["h_base.cpp", "h_event.cpp", "h_frame.cpp"])
    chk.use(lab.eng)
    lab.eng.no_merge = True
    cases = list(kinds(lab))
    chk.parallel([lambda c=c: life(chk, lab, c) for c in cases] + frame_pairs(chk, lab))
    return chk.finish(800, "ownership and tag typestate over the abstract heap for every kind of event, and symbolic comparison of "
                           "every pair of frame types",
                      expl="Every kind with symbolic fields and payloads of every representation: made, moved, moved again, handed "
                           "through results, destroyed in different orders; frames equal in all fields, differing in each field, "
                           "of different types.")
