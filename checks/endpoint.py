"""C21-C25: control streams, request streams, stream handles."""
import itertools
from .lab import *
from .codec import CLASSES, big_endian, outcome
from .buffers import V, content, total, from_source, fresh, empty, bury
from .frame import const_varint, TYPES, IDS, DEFAULTS, ORDER
from .contracts import QpackEncoder
from .sections import given, flag, Node, emitted_header, explore
from .qpack import text
from . import frame as FR

Z = C64(0)
HARNESS = ["h_base.cpp", "h_qpack.cpp", "h_frame.cpp", "h_section.cpp", "h_event.cpp", "h_endpoint.cpp"]
ROLES = {"c": "client", "s": "server"}
OWN = {"c": 2, "s": 3}      # the endpoint's own control stream
PEER = {"c": 3, "s": 2}


def make_lab(hooks=()):
    lab = Lab(F.lib_sources("http3") + F.BASE, HARNESS, hooks=hooks)
    lab.eng.no_merge = True
    return lab


def data_event(chk, lab, rule, st, ev, sid, fin, expect, what):
    """the QUIC event is data on that stream with that flag and exactly these bytes (terms)"""
    eng = lab.eng
    for r, s in lab.call("vh_qev_kind", [ev], st.clone()):
        chk.same(eng, rule, s, r, T.const(32, lab.const("vh_qev_kind_data")), what + ": kind of event")
    for r, s in lab.call("vh_qev_data_id", [ev], st.clone()):
        chk.same(eng, rule, s, r, C64(sid) if isinstance(sid, int) else sid, what + ": stream id")
    if fin is not None:
        for r, s in lab.call("vh_qev_data_fin", [ev], st.clone()):
            chk.same(eng, rule, s, r, T.const(1, int(fin)), what + ": end of stream")
    if expect is not None:
        bytes_are(chk, lab, rule, st, ev, expect, what)
    chk.exits(eng, rule, what)


def read(lab, st, buf):
    """the bytes (terms) of a buffer of constant size, None if its size is not constant"""
    n, st = lab.one("vh_size_buffer", [buf], st.clone())
    n = st.resolve(n)
    if n.kind != "const" or n.a > 4096:
        return None
    out = []
    for j in range(n.a):
        b, _ = lab.one("vh_at_buffer", [buf, C64(j)], st.clone())
        out.append(st.resolve(b))
    return out


def bytes_are(chk, lab, rule, st, ev, exps, what):
    """exactly one of these byte strings (settings may come in any order)"""
    b, st = lab.one("vh_qev_data_buffer", [ev], st.clone())
    got = read(lab, st, b)
    if got is None or len(got) != len(exps[0]):
        chk.same(lab.eng, rule, st, C64(len(got) if got is not None else 0), C64(len(exps[0])), what + ": number of bytes")
        return
    e = FR.arranged(st, exps, lambda j: got[j])
    for j, x in enumerate(got):
        chk.same(lab.eng, rule, st, x, e[j], what + ": byte %d" % j)


# ---- outgoing control stream ---------------------------------------------------------------

class Failing:
    """the encoders fail at the given calls (and are themselves everywhere else)"""

    def __init__(self):
        self.plan = ()

    def hook(self, lab_ref):
        def run(eng, st, args, fn, inst):
            k = len([e for e in st.events if e[0] == "encode"])
            st.event("encode", k)
            lab = lab_ref[0]
            if k in self.plan:
                return eng.call(lab.fn("vh_mk_result_buffer_err"), [args[0], C64(lab.err("varint_overflow"))], st)
            if fn.is_decl:
                raise Broken("encoder without body")
            return eng.exec_fn(fn, args, st, inst)
        return run


def settings_bytes():
    pairs = [const_varint(IDS[k]) + const_varint(DEFAULTS[k]) for k in ORDER if k != "placeholders" or DEFAULTS[k]]
    n = sum(map(len, pairs))
    return [const_varint(TYPES["settings"]) + const_varint(n) + [b for p in perm for b in p]
            for perm in itertools.permutations(pairs)]


def C21(chk):
    ref = []
    fl = Failing()
    h = fl.hook(ref)
    lab = make_lab([(r"bnl::http3::varint::encode\(unsigned long\)", h), (r"bnl::http3::frame::encode\(bnl::http3::frame const&\)", h)])
    ref.append(lab)
    chk.use(lab.eng)
    eng = lab.eng
    pieces = [[const_varint(0)], settings_bytes()]

    def run(role, plan, moves):
        fl.plan = plan
        n = 0
        st = State()
        s0 = lab.raw(st, "s0", lab.size(role + "csend"))
        what = "%s control stream" % ROLES[role] + (", encoders failing at %s" % (plan,) if plan else "")
        with chk.guard("sequence", what):
            _, st = lab.one("vh_%scsend_make" % role, [s0], st)
            todo = [(st, s0, 0)]
            for k in range(6):
                nxt = []
                for st, s, at in todo:
                    if k in moves:
                        s2 = lab.raw(st, "m%d" % k, lab.size(role + "csend"))
                        if k % 2:
                            _, st = lab.one("vh_%scsend_make" % role, [s2], st)
                            _, st = lab.one("vh_%scsend_assign" % role, [s2, s], st)
                        else:
                            _, st = lab.one("vh_%scsend_move" % role, [s2, s], st)
                        s = s2
                    st = st.clone()
                    out, err = lab.raw(st, "out%d" % k, lab.size("qev")), lab.word(st, "err%d" % k)
                    w = "%s: send %d" % (what, k + 1)
                    failing = len([e for e in st.events if e[0] == "encode"]) in plan
                    for ok0, s1 in lab.call("vh_%scsend_send" % role, [s, out, err], st):
                        for ok, s2 in outcome(chk, lab, s1, ok0, "sequence", w):
                            if at == 2:
                                if ok:
                                    chk.never(eng, "idle", s2, w + ": more after the SETTINGS frame")
                                else:
                                    chk.same(eng, "idle", s2, lab.get(s2, err), C64(lab.err("idle")), w + ": error")
                                    nxt.append((s2, s, at))
                            elif failing and len(s2.events) > len(st.events):
                                if ok:
                                    chk.never(eng, "retried", s2, w + ": succeeds although encoding failed")
                                else:
                                    chk.same(eng, "retried", s2, lab.get(s2, err), C64(lab.err("varint_overflow")), w + ": error")
                                    nxt.append((s2, s, at))
                            elif not ok:
                                chk.never(eng, "sequence", s2, w + ": fails")
                            else:
                                data_event(chk, lab, "opening", s2, out, OWN[role], False, pieces[at], w)
                                nxt.append((s2, s, at + 1))
                    chk.exits(eng, "sequence", w)
                todo = nxt
            if not todo:
                chk.undec("sequence", what + ": not completed")
        chk.sample({"sequence": what, "moves": moves})
    jobs = []
    for role in ROLES:
        for plan in ((), (0,), (1,), (0, 1), (0, 2), (1, 2), (0, 2, 3), (0, 1, 2)):
            for moves in ((), (0,), (1,), (2,), (1, 2), (0, 1, 2, 3)):
                jobs.append(lambda r=role, p=plan, m=moves: run(r, p, m))
    chk.parallel(jobs)
    return chk.finish(500, "typestate dataflow over the control stream sender in both roles, the encoders failing at chosen calls",
                      expl="Every sequence of send() with moves of the sender in between; the opening compared byte by byte with the "
                           "stream type and the default SETTINGS.")


# ---- incoming control stream ---------------------------------------------------------------

def parse_varint(st, bs, i):
    """(value term, next) of the varint at i of the byte terms; None if cut"""
    if i >= len(bs):
        return None
    top = T.slice_(bs[i], 6, 2)
    if top.kind != "const":
        raise Broken("varint of unknown length")
    n = 1 << top.a
    if i + n > len(bs):
        return None
    parts = []
    for j in reversed(range(n)):
        b = bs[i + j]
        parts += list(T.segs(T.slice_(b, 0, 6) if j == 0 else b))
    return T.zext(T.cat(8 * n - 2, parts), 64) if n < 8 else T.zext(T.cat(62, parts), 64), i + n


class Frames:
    """builds byte strings of frames; the specification keeps them as (name, bytes, fields, malformed)"""

    def __init__(self, tag=""):
        self.tag = tag

    def var(self, name, cls):
        lo, hi, n, h = cls
        v = T.sym(64, (self.tag, name, n), lo, hi)
        return v, big_endian(v, n, h)

    def make(self, name, cls=CLASSES[0], n1=None):
        ty = const_varint(TYPES[name])
        if name in ("data", "headers"):
            v, b = self.var(name, cls)
            return dict(name=name, bytes=ty + b, fields=[v])
        if name == "priority":
            v, b = self.var("pid", cls)
            d, db = self.var("did", CLASSES[1])
            body = [T.const(8, 0x10)] + b + db + [T.sym(8, (self.tag, "w"), 0, 255)]
        elif name == "settings":
            body, f = [], {}
            for i, k in enumerate(ORDER):
                v, b = self.var(k, cls if i % 2 else CLASSES[(CLASSES.index(cls) + 1) % 4])
                f[k] = v
                body += const_varint(IDS[k]) + b
            return dict(name=name, bytes=ty + const_varint(len(body)) + body, fields=f)
        else:
            v, b = self.var("id", cls)
            body = b
        return dict(name=name, bytes=ty + const_varint(len(body)) + body, fields=[])

    def settings(self, which):
        body, f = [], dict((k, C64(DEFAULTS[k])) for k in ORDER)
        for k, cls in which:
            if isinstance(k, int):
                v, b = self.var("unknown%d" % k, cls)
                body += const_varint(k) + b
            else:
                v, b = self.var(k, cls)
                f[k] = v
                body += const_varint(IDS[k]) + b
        return dict(name="settings", bytes=const_varint(4) + const_varint(len(body)) + body, fields=f)

    def unknown(self, ty, n):
        return dict(name=None, bytes=const_varint(ty) + const_varint(n) +
                    [T.sym(8, (self.tag, "u", j), 0, 255) for j in range(n)], fields=[])

    def bad(self, name):
        """a frame whose fields do not fill its payload"""
        f = self.make(name)
        b = list(f["bytes"])
        b[1] = T.const(8, b[1].a + 1)
        return dict(name=name, bytes=b + [T.const(8, 0)], fields=[], bad=True)


WRONG = ("headers", "data", "push_promise", "duplicate_push")
REFUSED = {"c": ("max_push_id", "priority"), "s": ("goaway",)}


class Incoming:
    """drives control::receiver of a role; the specification: the items not yet processed"""

    def __init__(self, chk, lab, role):
        self.chk, self.lab, self.role, self.eng = chk, lab, role, lab.eng

    def start(self):
        lab = self.lab
        st = State()
        r = lab.raw(st, "recv", lab.size(self.role + "crecv"))
        _, st = lab.one("vh_%screcv_make" % self.role, [r], st)
        return st, r

    def recv(self, st, r, bs, fin, k, what):
        """[state] in which the bytes were accepted"""
        chk, lab = self.chk, self.lab
        st = st.clone()
        b = given(lab, st, "in%d" % k, bs) if bs else None
        if b is None:
            p = fresh(lab, st, "in%d" % k)
            _, st = lab.one("vh_buffer_default", [p], st)
        else:
            st, p = b.st, b.ptr
        err = lab.word(st, "rerr%d" % k)
        out = []
        for ok0, s0 in lab.call("vh_%screcv_recv" % self.role, [r, C64(PEER[self.role]), T.const(1, int(fin)), p, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                if fin:
                    if ok:
                        chk.never(self.eng, "closed", s, what + ": closing the control stream accepted")
                    else:
                        chk.same(self.eng, "closed", s, lab.get(s, err), C64(lab.err("closed_critical_stream")), what + ": error")
                elif not ok:
                    chk.never(self.eng, "sequence", s, what + ": data refused")
                else:
                    out.append(s)
        chk.exits(self.eng, "sequence", what)
        return out

    def expected(self, phase, bs, items, whole):
        """(set of admissible errors | 'settings' fields, items left) for the bytes available so far;
        items: the frames still to be processed; whole: how many of them are completely available"""

    def process(self, st, r, k, what):
        chk, lab = self.chk, self.lab
        st = st.clone()
        out, err = lab.raw(st, "ev%d" % k, lab.size("hev")), lab.word(st, "perr%d" % k)
        res = []
        for ok0, s0 in lab.call("vh_%screcv_process" % self.role, [r, out, err], st):
            res += [(ok, s, out, err) for ok, s in outcome(chk, lab, s0, ok0, "sequence", what)]
        chk.exits(self.eng, "sequence", what)
        if not res:
            chk.undec("sequence", what + ": no outcome")
        return res

    def errors(self, s, err, allowed, rule, what):
        """the error is one of these"""
        v = s.resolve(self.lab.get(s, err))
        for a in allowed:
            if s.same(v, C64(self.lab.err(a))):
                self.chk.ok(rule)
                return
        self.chk.same(self.eng, rule, s, v, C64(self.lab.err(sorted(allowed)[0])), what + ": error")

    def verdict(self, phase, f, cut):
        """admissible outcomes of processing frame f (cut: not completely available): set of errors, or
        'settings' for the event; the unexpected ones may be noticed before the frame is complete"""
        name, role = f["name"], self.role
        if cut and name is None:
            return {"incomplete"}
        if phase == "settings":
            out = "settings" if name == "settings" else {"missing_settings"}
        elif name in WRONG:
            out = {"wrong_stream"}
        elif name == "settings" or name in REFUSED[role]:
            out = {"unexpected_frame"}
        else:
            out = "other"
        if cut:
            return {"incomplete"} | (out if isinstance(out, set) else set()) | ({"malformed_frame"} if f.get("bad") else set())
        if f.get("bad"):
            return {"malformed_frame"} | (out if isinstance(out, set) else set())
        return out

    def run(self, label, kind, frames, chunks, close=False, move=None):
        """the stream: type bytes, frames; delivered in chunks (byte counts); process() after each chunk
        until it has nothing more to say"""
        chk, lab, eng = self.chk, self.lab, self.eng
        what = "%s control stream: %s" % (ROLES[self.role], label)
        with chk.guard("sequence", what):
            self._run(what, kind, frames, chunks, close, move)
        chk.sample({"case": label, "chunks": len(chunks)})

    def _run(self, what, kind, frames, chunks, close, move):
        chk, lab, eng = self.chk, self.lab, self.eng
        stream = list(kind[0])
        spans = []
        for f in frames:
            spans.append((len(stream), len(stream) + len(f["bytes"])))
            stream += f["bytes"]
        st, r = self.start()
        for x, s in lab.call("vh_%screcv_id" % self.role, [r], st.clone()):
            chk.same(eng, "stream id", s, x, C64(PEER[self.role]), what + ": id()")
        todo = [(st, "type", 0, False)]
        pos = 0
        k = 0
        for c in chunks:
            w = "%s; bytes %d..%d" % (what, pos, min(pos + c, len(stream)))
            bs = stream[pos:pos + c]
            pos = min(pos + c, len(stream))
            nxt = []
            for st, phase, at, dead in todo:
                if move is not None and k == move:
                    st = st.clone()
                    r2 = lab.raw(st, "recv%d" % k, lab.size(self.role + "crecv"))
                    _, st = lab.one("vh_%screcv_move" % self.role, [r2, r], st)
                else:
                    r2 = r
                for s in self.recv(st, r2, bs, False, k, w):
                    if close:
                        self.recv(s, r2, [], True, 1000 + k, w + "; closed")
                        self.recv(s, r2, [T.const(8, 0)], True, 2000 + k, w + "; closed with data")
                    nxt += self.drain(s, r2, phase, at, dead, kind, frames, spans, pos, 10 * k, w)
            if move is not None and k == move:
                r = r2
            todo = nxt
            k += 1
        if not todo:
            chk.undec("sequence", what + ": not completed")

    def drain(self, st, r, phase, at, dead, kind, frames, spans, pos, k, what):
        """process() until incomplete; [(state, phase, next frame, dead)]"""
        chk, lab, eng = self.chk, self.lab, self.eng
        out = []
        work = [(st, phase, at, dead, 0)]
        while work:
            st, phase, at, dead, n = work.pop()
            if n > 4:
                chk.undec("sequence", what + ": never needs more data")
                continue
            w = "%s; process" % what
            res = self.process(st, r, k + n, w)
            for ok, s, ev, err in res:
                if dead:
                    # after a connection error anything but an abort is fine
                    chk.ok("no abort")
                    out.append((s, phase, at, True))
                    continue
                ph, i = phase, at
                if ph == "type":
                    if pos < len(kind[0]):
                        self.refusal(ok, s, err, {"incomplete"}, "incomplete", w)
                        if not ok:
                            out.append((s, ph, i, False))
                        continue
                    if kind[1] != "control":
                        self.refusal(ok, s, err, {"wrong_stream"}, "stream type", w)
                        out.append((s, ph, i, True))
                        continue
                    ph = "settings"
                # the frame this call has to look at; unknown ones are skipped
                allowed = None
                while i < len(frames):
                    cut = pos < spans[i][1]
                    if pos <= spans[i][0]:
                        allowed = {"incomplete"}
                        break
                    f = frames[i]
                    if f["name"] is None and ph == "settings":
                        # whether an unknown frame may precede SETTINGS is left open
                        allowed = "open" if not cut else {"incomplete", "missing_settings"}
                        if not cut and ok:
                            allowed = None
                            i += 1
                            continue
                        break
                    if f["name"] is None and not cut:
                        i += 1
                        continue
                    allowed = self.verdict(ph, f, cut)
                    break
                else:
                    allowed = {"incomplete"}
                if allowed == "settings":
                    if not ok:
                        chk.never(eng, "settings", s, w + ": SETTINGS refused")
                        continue
                    self.settings(s, ev, frames[i]["fields"], w)
                    work.append((s, "active", i + 1, False, n + 1))
                    continue
                if allowed == "open":
                    self.refusal(ok, s, err, {"missing_settings", "incomplete"}, "settings", w)
                    out.append((s, ph, i, True))
                    continue
                if allowed == "other":
                    # for this role to handle: never refused as a protocol violation
                    if ok:
                        chk.ok("role")
                        work.append((s, ph, i + 1, False, n + 1))
                    else:
                        v = s.resolve(lab.get(s, err))
                        bad = [x for x in ("unexpected_frame", "wrong_stream", "malformed_frame", "missing_settings", "incomplete",
                                           "internal", "idle", "delegate") if s.same(v, C64(lab.err(x)))]
                        if bad:
                            chk.never(eng, "role", s, w + ": %s reported as %s" % (frames[i]["name"], bad[0]))
                        else:
                            chk.ok("role")
                        work.append((s, ph, i + 1, True, n + 1))
                    continue
                if ok:
                    chk.never(eng, "refused", s, w + ": an event instead of %s" % sorted(allowed))
                    continue
                self.errors(s, err, allowed, "refused" if allowed != {"incomplete"} else "incomplete", w)
                if s.same(lab.get(s, err), C64(lab.err("incomplete"))):
                    out.append((s, ph, i, False))
                else:
                    work.append((s, ph, i, True, n + 1))
        return out

    def refusal(self, ok, s, err, allowed, rule, what):
        if ok:
            self.chk.never(self.eng, rule, s, what + ": an event instead of %s" % sorted(allowed))
        else:
            self.errors(s, err, allowed, rule, what)

    def settings(self, s, ev, fields, what):
        chk, lab, eng = self.chk, self.lab, self.eng
        for x, s1 in lab.call("vh_hev_kind", [ev], s.clone()):
            chk.same(eng, "settings", s1, x, T.const(32, lab.const("vh_hev_kind_settings")), what + ": kind of event")
        for k in ORDER:
            for x, s1 in lab.call("vh_hev_settings_" + k, [ev], s.clone()):
                chk.same(eng, "settings", s1, x, fields[k], what + ": " + k)
        chk.exits(eng, "settings", what)


def control_cases(tier):
    """(label, type bytes and meaning, frames)"""
    fr = Frames("a")
    control = ([T.const(8, 0)], "control")
    long = ([T.const(8, 0x40), T.const(8, 0)], "control")
    cls = CLASSES if tier == "thorough" else CLASSES[:1] + CLASSES[2:]
    for c in cls:
        yield "settings %x" % c[0], control, [fr.make("settings", c)]
    yield "long type, no settings", long, [fr.settings([])]
    yield "some settings", control, [fr.settings([("blocked", CLASSES[1]), (0x21, CLASSES[0]), ("list", CLASSES[0])])]
    for k in ORDER:
        yield "only " + k, control, [fr.settings([(k, CLASSES[1])])]
    for v, n in ((1, 1), (2, 1), (3, 1), (0x3f, 1), (0x40, 2), (0x54, 2), (0x4000, 4), (1 << 30, 8), ((1 << 62) - 1, 8)):
        yield "stream type %#x" % v, (const_varint(v), "other"), [fr.settings([])]
    for lo, hi, n, h in CLASSES:
        v = T.sym(64, ("type", n), max(lo, 1), hi)
        yield "any %d-byte stream type" % n, (big_endian(v, n, h), "other"), [fr.settings([])]
    for name in TYPES:
        if name != "settings":
            for c in cls:
                yield "first frame %s %x" % (name, c[0]), control, [fr.make(name, c), fr.settings([])]
    yield "first frame unknown", control, [fr.unknown(0x21, 3), fr.settings([])]
    fs = Frames("s")
    for name in TYPES:
        for c in (CLASSES if name not in ("settings",) else CLASSES[:1]):
            yield "settings, %s %x" % (name, c[0]), control, [fs.settings([]), fr.make(name, c)]
        yield "settings, unknown, %s" % name, control, [fs.settings([]), fs.unknown(0x21, 2), fr.make(name)]
        if name not in ("data", "headers", "push_promise"):
            yield "settings, bad %s" % name, control, [fs.settings([]), fr.bad(name)]
            yield "bad %s first" % name, control, [fr.bad(name), fs.settings([])]
    for ty in (6, 8, 9, 0xf, 0x21, 0x40, 0x4000):
        yield "settings, unknown %#x" % ty, control, [fs.settings([]), fs.unknown(ty, 0), fs.unknown(ty, 4)]


def cuts(n, tier):
    """ways to deliver n bytes: all at once, byte by byte, in two parts"""
    yield [n]
    yield [1] * n
    for a in range(0, n):
        if tier == "thorough" or a in (0, 1, 2, 3, 4, n // 2, n - 1):
            yield [a, n - a]


def C22(chk):
    lab = make_lab()
    chk.use(lab.eng)
    jobs = []
    for role in ROLES:
        drv = Incoming(chk, lab, role)
        for i, (label, kind, frames) in enumerate(control_cases(chk.tier)):
            n = len(kind[0]) + sum(len(f["bytes"]) for f in frames)
            for j, c in enumerate(cuts(n, chk.tier)):
                if n > 24 and len(c) == n and chk.tier == "quick" and i % 3:
                    continue
                jobs.append(lambda d=drv, l=label, k=kind, f=frames, c=c, j=j, i=i: d.run(l, k, f, c, j == 0, 1 if (i + j) % 3 == 0 else None))
    chk.parallel(jobs)
    return chk.finish(2000, "typestate dataflow over the control stream receiver in both roles, frames of every type with symbolic fields",
                      expl="Streams of a stream type and up to three frames (every type, symbolic fields of every length class, unknown "
                           "and malformed ones), delivered in one piece, byte by byte and cut everywhere; the outcome of every "
                           "process() call compared with the protocol.")


# ---- outgoing messages -----------------------------------------------------------------------

class Message:
    """drives request::sender; the specification: lines to send, sealed, body buffers, ended, what was
    emitted (due: payload of the first body buffer), over (FIN emitted)"""
    ops = ("header", "header rejected", "body", "body empty", "start", "fin", "send", "move")
    plan = {"header": "s", "header long": "m", "header rejected": "x"}
    range = {"body": (9, 20), "body long": (100, 16000), "body huge": (1 << 30, BIG)}

    def __init__(self, chk, lab, role="c"):
        self.chk, self.lab, self.role = chk, lab, role
        self.id = T.sym(64, "id", 0, (1 << 64) - 1)

    def start(self):
        st = State()
        e = self.lab.raw(st, "s0", self.lab.size(self.role + "rsend"))
        _, st = self.lab.one("vh_%srsend_make" % self.role, [e, self.id], st)
        # phase: (sealed, headers due, ended, payload due, over)
        return Node(st, e, ((), ()), ("open", False, False, False), "new;")

    def step(self, nd, op):
        chk, lab, eng = self.chk, self.lab, self.lab.eng
        pre = "vh_%srsend_" % self.role
        what = "%s request::sender: %s %s" % (ROLES[self.role], nd.text, op)
        st = nd.st.clone()
        out = []
        hp, ended, due, over = nd.phase          # hp: open | frame | lines | done
        lines, body = nd.todo
        if op == "move":
            if nd.moved > 1:
                return []
            e = lab.raw(st, "s%d" % (nd.moved + 1), lab.size(self.role + "rsend"))
            fn = pre + "move"
            if nd.moved:
                _, st = lab.one(pre + "make", [e, C64(77)], st)
                fn = pre + "assign"
            for _, s in lab.call(fn, [e, nd.e], st):
                out.append(nd.next(s, op, e=e, moved=nd.moved + 1))
            chk.exits(eng, "sequence", what)
            return out
        err = lab.word(st, "err%d" % nd.k)
        nx = lambda s, **kw: out.append(nd.next(s, op, k=nd.k + 1, **kw))

        def refused(ok, s, rule="refused", e=None):
            if ok:
                chk.never(eng, rule, s, what + ": accepted")
                return
            if e:
                chk.same(eng, rule, s, lab.get(s, err), C64(lab.err(e)), what + ": error")
            else:
                chk.ok(rule)
            nx(s)
        if op.startswith("header"):
            lab.contract.plan = self.plan[op]
            n, nn = text(lab, st, "name%d" % nd.k, "n%d" % nd.k)
            v, vn = text(lab, st, "value%d" % nd.k, "v")
            for ok0, s0 in lab.call(pre + "header", [nd.e, n, nn, v, vn, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    ls = lab.contract.lines(s)
                    if hp != "open":
                        refused(ok, s)
                    elif op == "header rejected":
                        refused(ok, s, e="malformed_header")
                    elif not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    elif len(ls) != len(lines) + 1 or ls[-1][2].obj != n.obj or ls[-1][3].obj != v.obj:
                        chk.never(eng, "order", s, what + ": the header was not encoded")
                    else:
                        nx(s, todo=(lines + ((ls[-1][1], ("line", len(ls) - 1)),), body))
        elif op.startswith("body"):
            b = fresh(lab, st, "in%d" % nd.k)
            if op == "body empty":
                _, st = lab.one("vh_buffer_default", [b], st)
                x = ((), None)
            else:
                seg = (T.sym(64, ("n", nd.k, op), *self.range[op]),)
                s = st.add_obj(("src", nd.k), "param", seg[0], ("in", nd.k))
                _, st = lab.one("vh_buffer_bytes", [b, s, seg[0]], st)
                x = (seg, ("in", nd.k))
            for ok0, s0 in lab.call(pre + "body", [nd.e, b, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if ended:
                        refused(ok, s)
                    elif not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    else:
                        nx(s, todo=(lines, body + (x,)))
        elif op == "start":
            for ok0, s0 in lab.call(pre + "start", [nd.e, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if hp != "open":
                        refused(ok, s)
                    elif not lines:
                        # a section without headers never starts a message
                        if ok:
                            out.append(nd.next(s, op, k=nd.k + 1, phase=("void", ended, due, over)))
                            chk.ok("refused")
                        else:
                            refused(ok, s)
                    elif not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    else:
                        nx(s, phase=("frame", ended, due, over))
        elif op == "fin":
            for ok0, s0 in lab.call(pre + "fin", [nd.e, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    if not ended and not ok:
                        chk.never(eng, "sequence", s, what + ": refused")
                    else:
                        nx(s, phase=(hp, True, due, over))
        else:
            ev = lab.raw(st, "ev%d" % nd.k, lab.size("qev"))
            for ok0, s0 in lab.call(pre + "send", [nd.e, ev, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                    self.sent(nd, s, ok, ev, err, what, out)
        chk.exits(eng, "sequence", what)
        for n in out:
            if n.phase[0] != "void":
                flag(chk, lab, "finished", n, pre + "finished", n.phase[3], what + ": finished()")
        return out

    def sent(self, nd, s, ok, ev, err, what, out):
        chk, lab, eng = self.chk, self.lab, self.lab.eng
        hp, ended, due, over = nd.phase
        lines, body = nd.todo
        real = [x for x in body if x[0]]
        nothing = hp == "open" or hp == "done" and not body and not ended
        if hp == "void":
            if ok:
                chk.never(eng, "no empty section", s, what + ": a message without headers")
            else:
                chk.ok("no empty section")
                out.append(nd.next(s, "send", k=nd.k + 1))
            return
        if over:
            if ok:
                chk.never(eng, "refused", s, what + ": something sent after the end of the stream")
            else:
                e = s.resolve(lab.get(s, err))
                if s.same(e, C64(lab.err("incomplete"))) or s.same(e, C64(lab.err("delegate"))):
                    chk.never(eng, "refused", s, what + ": reported as %s" % e)
                else:
                    chk.ok("refused")
                out.append(nd.next(s, "send", k=nd.k + 1))
            return
        if nothing or hp == "done" and not real and not ok and not (ended and not body):
            if ok:
                chk.never(eng, "idle", s, what + ": something sent although nothing is ready")
                return
            chk.same(eng, "idle", s, lab.get(s, err), C64(lab.err("idle")), what + ": error")
            out.append(nd.next(s, "send", k=nd.k + 1, todo=(lines, () if hp == "done" and not real else body),
                               phase=(hp, ended, due and bool(real), over)))
            return
        if not ok:
            chk.never(eng, "stuck", s, what + ": nothing sent although something is due")
            return
        for r, s1 in lab.call("vh_qev_kind", [ev], s.clone()):
            chk.same(eng, "stream", s1, r, T.const(32, lab.const("vh_qev_kind_data")), what + ": kind of event")
        for r, s1 in lab.call("vh_qev_data_id", [ev], s.clone()):
            chk.same(eng, "stream", s1, r, self.id, what + ": stream id")
        b, s = lab.one("vh_qev_data_buffer", [ev], s)
        fin, s = lab.one("vh_qev_data_fin", [ev], s)
        fin = s.eval(T.icmp("eq", fin, T.const(1, 1)))
        if fin is None:
            chk.undec("fin", what + ": flag unknown")
            return
        # what was sent
        nl, nb, nd_, hp2 = lines, body, due, hp
        if hp == "frame":
            emitted_header(chk, lab, "order", s, b, 1, total([x for x, _ in lines]), what)
            hp2 = "lines"
        elif hp == "lines":
            content(chk, lab, "order", s, "buffer", V(b, [lines[0][0]], from_source(lab, lines[0][1])), what + ": line", deep=False)
            nl = lines[1:]
            hp2 = "lines" if nl else "done"
        elif not body:
            n, s = lab.one("vh_size_buffer", [b], s)
            chk.same(eng, "order", s, n, Z, what + ": size of the final piece")
            if not fin:
                chk.never(eng, "fin", s, what + ": an empty piece that does not end the stream")
                return
        else:
            n, s = lab.one("vh_size_buffer", [b], s)
            if due and body[0][0]:
                content(chk, lab, "order", s, "buffer", V(b, body[0][0], from_source(lab, body[0][1])), what + ": payload", deep=False)
                nb, nd_ = body[1:], False
            elif s.eval(T.icmp("eq", n, Z)) is True:
                # payload of an empty buffer, or a separate end
                if due:
                    nb, nd_ = body[1:], False
                elif not fin:
                    chk.never(eng, "order", s, what + ": an empty piece although a frame header is due")
                    return
                else:
                    nb = tuple(real)
            else:
                todo = body[1:] if due else body
                i = 0
                while i < len(todo) and not todo[i][0]:
                    x, _ = lab.one("vh_at_buffer", [b, C64(1)], s)
                    if s.eval(T.icmp("eq", x, T.const(8, 0))) is True:
                        break
                    i += 1
                if i >= len(todo):
                    chk.never(eng, "order", s, what + ": something sent although nothing is queued")
                    return
                emitted_header(chk, lab, "order", s, b, 0, total(todo[i][0]), what)
                nb, nd_ = todo[i:], True
                if not todo[i][0] and fin:
                    nb, nd_ = todo[i + 1:], False
        left = hp2 != "done" or any(x[0] for x in nb)
        if fin and (left or not ended):
            chk.never(eng, "fin", s, what + ": the stream is ended too early")
            return
        chk.ok("fin")
        if fin:
            nb, nd_ = (), False
        out.append(nd.next(s, "send", k=nd.k + 1, todo=(nl, nb), phase=(hp2, ended, nd_, fin)))




def C23(chk):
    ref = []
    c = QpackEncoder(ref)
    lab = make_lab(c.hooks())
    ref.append(lab)
    lab.contract = c
    chk.use(lab.eng)

    def keep(nd, op):
        lines, body = nd.todo
        if op == "header" and nd.phase[0] == "open" and len(lines) >= 2:
            return False
        if op == "header rejected" and nd.phase[0] != "open":
            return False
        if op.startswith("body") and not nd.phase[1] and len(body) >= 2:
            return False
        if op == "body empty" and nd.phase[1]:
            return False
        if op == "fin" and nd.text.endswith("fin"):
            return False
        return not (op == "move" and nd.text.endswith("move"))
    deep = 5 if chk.tier == "quick" else 7
    # messages in which the pieces are ready at different times
    chains = []
    for nh in (1, 2, 4):
        for bodies in ([], ["body"], ["body long", "body"], ["body", "body empty", "body huge"], ["body empty"]):
            tail = ["send"] * (nh + 3 * len(bodies) + 3)
            h = ["header", "header long"] * nh
            h = h[:nh]
            chains.append(h + bodies + ["start", "fin"] + tail + ["fin", "body"])
            chains.append(["fin"] + h + ["start"] + tail) if not bodies else chains.append(bodies + ["fin", "send"] + h + ["start"] + tail)
            chains.append(h + ["start"] + tail + bodies + tail + ["fin"] + tail)
            chains.append(h + ["start"] + ["send"] * nh + bodies + ["fin"] + tail)
            chains.append(h + ["start", "send", "move"] + ["send"] * nh + ["fin"] + tail) if not bodies else None
            for cut in range(1, 2 * len(bodies) + 1):
                chains.append(h + bodies + ["start"] + ["send"] * (nh + 1 + cut) + ["fin", "move"] + tail)
                if cut % 2 == 0:
                    chains.append(h + bodies[:1] + ["start"] + ["send"] * (nh + 1 + cut) + bodies[1:] + ["fin"] + tail)
    for role in ROLES:
        drv = Message(chk, lab, role)
        explore(chk, drv, deep if role == "c" else 3, keep, [x for x in chains if x])
    return chk.finish(4000, "typestate dataflow over the request sender: every call sequence up to a bound and long scripts, field lines and "
                            "buffers of symbolic size and content",
                      expl="Calls: header (accepted, rejected), body (inline, heap, empty), start, fin, send, move; every emitted piece is "
                           "compared with the piece of the message that is due, its stream id and its end-of-stream flag.")


# ---- incoming messages -------------------------------------------------------------------------

def chars(t):
    return [T.const(8, ord(c)) for c in t]


def line_indexed():
    return [T.const(8, 0xd1)], chars(":method"), chars("GET")


def line_named(tag, n):
    v = [T.sym(8, ("v", tag, j), 0, 255) for j in range(n)]
    return [T.const(8, 0x51), T.const(8, n)] + v, chars(":path"), v


def line_literal(tag, n):
    v = [T.sym(8, ("l", tag, j), 0, 255) for j in range(n)]
    return [T.const(8, 0x22)] + chars("xy") + [T.const(8, n)] + v, chars("xy"), v


def headers_frame(lines):
    body = [T.const(8, 0), T.const(8, 0)]
    ends = []
    for b, n, v in lines:
        body += b
        ends.append(len(body))
    head = const_varint(1) + const_varint(len(body))
    return dict(name="headers", bytes=head + body, head=len(head), lines=lines, ends=[len(head) + e for e in ends], fields=[])


def data_frame(tag, n):
    head = const_varint(0) + const_varint(n)
    return dict(name="data", bytes=head + [T.sym(8, ("d", tag, j), 0, 255) for j in range(n)], head=len(head), n=n, fields=[])


STREAM = ("settings", "max_push_id", "cancel_push", "goaway")
CONTROL = ("incomplete", "idle", "delegate")


def message_role(role, name, started):
    """what the role prescribes for a frame other than HEADERS/DATA: an error, or None (for it to handle)"""
    if name in STREAM:
        return "wrong_stream"
    if role == "c":
        return "unexpected_frame" if name == "priority" else None
    if name == "priority" and not started:
        return None
    return "unexpected_frame"


class Receiving:
    """drives request::receiver on a stream of frames cut anywhere; position of the specification:
    (phase, frame, line or payload bytes delivered)"""

    def __init__(self, chk, lab, role):
        self.chk, self.lab, self.role, self.eng = chk, lab, role, lab.eng
        self.id = T.sym(64, "id", 0, (1 << 64) - 1)

    def run(self, label, items, chunks, fin, batch=1, move=None):
        """fin: None (no end), 'with' (flag on the last chunk), 'after' (own empty chunk)"""
        what = "%s request::receiver: %s, end %s" % (ROLES[self.role], label, fin)
        with self.chk.guard("sequence", what):
            self._run(what, items, chunks, fin, batch, move)
        self.chk.sample({"case": label, "chunks": len(chunks), "end": fin})

    def recv(self, st, r, bs, fin, k, what, refuse=False):
        chk, lab = self.chk, self.lab
        st = st.clone()
        if bs:
            b = given(lab, st, "in%d" % k, bs)
            st, p = b.st, b.ptr
        else:
            p = fresh(lab, st, "in%d" % k)
            _, st = lab.one("vh_buffer_default", [p], st)
        err = lab.word(st, "rerr%d" % k)
        out = []
        for ok0, s0 in lab.call("vh_%srrecv_recv" % self.role, [r, self.id, T.const(1, int(fin)), p, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "sequence", what):
                if refuse:
                    if ok:
                        chk.never(self.eng, "after the end", s, what + ": data after the end of the stream accepted")
                    else:
                        chk.ok("after the end")
                elif not ok:
                    chk.never(self.eng, "sequence", s, what + ": data refused")
                else:
                    out.append(s)
        chk.exits(self.eng, "sequence", what)
        return out

    def process(self, st, r, k, what):
        chk, lab = self.chk, self.lab
        st = st.clone()
        out, err = lab.raw(st, "ev%s" % k, lab.size("hev")), lab.word(st, "perr%s" % k)
        res = []
        for ok0, s0 in lab.call("vh_%srrecv_process" % self.role, [r, out, err], st):
            res += [(ok, s, out, err) for ok, s in outcome(chk, lab, s0, ok0, "sequence", what)]
        chk.exits(self.eng, "sequence", what)
        if not res:
            chk.undec("sequence", what + ": no outcome")
        return res

    def flags(self, st, r, closed, finished, what):
        for fn, want in (("closed", closed), ("finished", finished)):
            if want is None:
                continue
            for x, s in self.lab.call("vh_%srrecv_%s" % (self.role, fn), [r], st.clone()):
                self.chk.same(self.eng, "flags", s, x, T.const(1, int(want)), what + ": %s()" % fn)

    def _run(self, what, items, chunks, fin, batch, move):
        chk, lab, eng = self.chk, self.lab, self.eng
        self.items = items
        stream, self.spans = [], []
        for f in items:
            self.spans.append((len(stream), len(stream) + len(f["bytes"])))
            stream += f["bytes"]
        total_ = sum(chunks)
        pre = "vh_%srrecv_" % self.role
        st = State()
        r = lab.raw(st, "recv", lab.size(self.role + "rrecv"))
        _, st = lab.one(pre + "make", [r, self.id], st)
        self.flags(st, r, True, False, what + "; made")
        for ok, s, ev, err in self.process(st, r, "c", what + "; before start"):
            if ok:
                chk.never(eng, "flags", s, what + ": an event before start")
            else:
                chk.ok("flags")
        err = lab.word(st, "serr")
        ok, st = lab.one(pre + "start", [r, err], st)
        chk.same(eng, "flags", st, ok, T.const(1, 1), what + ": start()")
        self.flags(st, r, False, False, what + "; started")
        plan = [(c, False) for c in chunks]
        if fin == "with" and plan:
            plan[-1] = (plan[-1][0], True)
        elif fin:
            plan.append((0, True))
        todo = [(st, ("headers", 0, 0), False)]
        pos = 0
        for k, (c, last) in enumerate(plan):
            bs = stream[pos:pos + c]
            pos += c
            w = "%s; up to byte %d%s" % (what, pos, " (end)" if last else "")
            nxt = []
            r2 = r
            for st, at, dead in todo:
                if move is not None and k == move:
                    st = st.clone()
                    r2 = lab.raw(st, "recv%d" % k, lab.size(self.role + "rrecv"))
                    _, st = lab.one(pre + "move", [r2, r], st)
                for s in self.recv(st, r2, bs, last, k, w):
                    if last:
                        self.recv(s, r2, [T.const(8, 0)], False, 1000 + k, w + "; more", refuse=True)
                        self.recv(s, r2, [], True, 2000 + k, w + "; ended again", refuse=True)
                    if (k + 1) % batch == 0 or k == len(plan) - 1:
                        nxt += self.drain(s, r2, at, dead, pos, last, k, w)
                    else:
                        nxt.append((s, at, dead))
            r = r2
            todo = nxt
        if not todo:
            chk.undec("sequence", what + ": not completed")

    def drain(self, st, r, at, dead, pos, fin, k, what):
        chk, lab, eng = self.chk, self.lab, self.eng
        out = []
        work = [(st, at, dead, 0)]
        while work:
            st, at, dead, n = work.pop()
            w = "%s; process %d" % (what, n + 1)
            if n > 40:
                chk.never(eng, "terminates", st, what + ": never stops producing events")
                continue
            for ok, s, ev, err in self.process(st, r, "%d.%d" % (k, n), w):
                if dead:
                    # after a stream error anything but an abort is fine
                    chk.ok("no abort")
                    out.append((s, at, True))
                    continue
                r2 = self.judge(s, ok, ev, err, at, pos, fin, w)
                if r2 is None:
                    continue
                verdict, at2 = r2
                if verdict == "wait":
                    self.flags(s, r, False, at2[0] == "over", w)
                    out.append((s, at2, False))
                elif verdict == "dead":
                    work.append((s, at2, True, n + 1))
                elif verdict == "finished":
                    self.flags(s, r, False, True, w)
                    if at2[2] < 1:
                        work.append((s, ("over", 0, at2[2] + 1), False, n + 1))
                    else:
                        out.append((s, at2, False))
                else:
                    self.flags(s, r, False, at2[0] == "over" or (None if at2[0] == "maybe" else False), w)
                    work.append((s, at2, False, n + 1))
        return out

    # -- the specification
    def judge(self, s, ok, ev, err, at, pos, fin, what):
        """compares an outcome with what is due; ('wait'|'event'|'finished'|'dead', position) or None"""
        chk, lab, eng = self.chk, self.lab, self.eng
        phase, i, d = at
        kind = None
        if ok:
            x, _ = lab.one("vh_hev_kind", [ev], s.clone())
            x = s.resolve(x)
            for kk in ("settings", "header", "body", "finished"):
                if s.same(x, T.const(32, lab.const("vh_hev_kind_" + kk))):
                    kind = kk
            if kind is None:
                chk.undec("kind", what)
                return None
        if phase == "over":
            if kind != "finished":
                chk.never(eng, "finished", s, what + ": %s instead of finished" % (kind or self.name(s, err)))
                return None
            self.tagged(s, ev, "finished", what)
            return "finished", at
        if kind in ("settings",):
            chk.never(eng, "order", s, what + ": a %s event" % kind)
            return None
        if phase == "maybe":
            # everything was delivered and the stream has ended: finished, or one empty last body event before it
            if kind == "finished":
                self.tagged(s, ev, "finished", what)
                return "finished", ("over", 0, 0)
            if kind == "body" and self.body(s, ev, [], True, what) is True:
                return "event", ("over", 0, 0)
            if kind != "body":
                chk.never(eng, "finished", s, what + ": %s instead of finished" % (kind or self.name(s, err)))
            return None
        if kind == "finished":
            chk.never(eng, "finished", s, what + ": finished although something is still due")
            return None
        items, spans = self.items, self.spans
        # skip what produces nothing
        while i < len(items) and not d:
            f = items[i]
            if f["name"] is None and pos >= spans[i][1]:
                i += 1
                continue
            if phase == "body" and f["name"] == "data" and f["n"] == 0 and pos >= spans[i][1] and \
                    not (kind == "body" and not self.rest(i + 1, pos)):
                # an empty DATA frame may yield an empty event
                if kind == "body" and self.size(s, ev) == 0:
                    return ("event", (phase, i + 1, 0)) if self.body(s, ev, [], False, what) is not None else None
                i += 1
                continue
            break
        if i == len(items) or pos <= spans[i][0] and not d:
            # nothing (more) has arrived
            if not fin:
                return self.must(ok, s, err, ("incomplete",), "incomplete", what, kind, "wait", (phase, i, 0))
            if phase == "body":
                if kind != "body":
                    chk.never(eng, "finished", s, what + ": %s instead of the end of the message" % (kind or self.name(s, err)))
                    return None
                if self.body(s, ev, [], True, what) is not True:
                    return None
                return "event", ("over", 0, 0)
            # ended without headers
            if ok:
                chk.never(eng, "malformed", s, what + ": an event out of nothing")
                return None
            for c in CONTROL:
                if s.same(lab.get(s, err), C64(lab.err(c))):
                    chk.never(eng, "malformed", s, what + ": %s although the stream has ended" % c)
                    return None
            chk.ok("malformed")
            return "dead", at
        f = items[i]
        name = f["name"]
        cut = pos < spans[i][1]
        head = pos >= spans[i][0] + f.get("head", len(f["bytes"]))
        short = ("malformed_frame",) if fin else ("incomplete",)
        if name is None:
            return self.must(ok, s, err, short, "cut", what, kind, "dead" if fin else "wait", (phase, i, 0))
        if name == "headers" and phase == "headers":
            if f.get("empty"):
                return self.must(ok, s, err, ("malformed_frame",) if head else short, "cut", what, kind, "dead" if fin or head else "wait", at)
            end = spans[i][0] + f["ends"][d]
            if pos < end:
                return self.must(ok, s, err, short, "cut", what, kind, "dead" if fin else "wait", (phase, i, d))
            if kind != "header":
                chk.never(eng, "headers", s, what + ": %s instead of a header" % (kind or self.name(s, err)))
                return None
            last = d + 1 == len(f["lines"])
            self.tagged(s, ev, "header", what)
            self.header(s, ev, f["lines"][d], last, what)
            if not last:
                return "event", (phase, i, d + 1)
            return "event", ("maybe" if fin and not self.rest(i + 1, pos) else "body", i + 1, 0)
        if name == "data" and phase == "body":
            a = spans[i][0] + f["head"] + d
            n = min(pos, spans[i][1]) - a
            if not head or n <= 0 and f["n"]:
                return self.must(ok, s, err, short, "cut", what, kind, "dead" if fin else "wait", (phase, i, d))
            if fin and cut and not ok:
                # ends inside the frame
                return self.must(ok, s, err, ("malformed_frame",), "cut", what, kind, "dead", at)
            if kind != "body":
                chk.never(eng, "body", s, what + ": %s instead of body data" % (kind or self.name(s, err)))
                return None
            m = self.size(s, ev)
            if m is None or m > n or m == 0 and f["n"]:
                chk.never(eng, "body", s, what + ": %s bytes although %d are due" % (m, n))
                return None
            done = d + m == f["n"]
            final = fin and done and not self.rest(i + 1, pos)
            off = a - spans[i][0]
            flag_ = self.body(s, ev, f["bytes"][off:off + m], None if final else False, what)
            if flag_ is None:
                return None
            if flag_:
                return "event", ("over", 0, 0)
            return "event", (phase, i + 1, 0) if done else (phase, i, d + m)
        # a frame that does not belong here
        if name == "data":
            want = "unexpected_frame"
        elif name == "headers":
            if ok:
                if not head or kind != "body" or self.body(s, ev, [], True, what) is not True:
                    chk.never(eng, "trailers", s, what + ": %s" % kind)
                    return None
                return "event", ("over", 0, 0)
            return self.must(ok, s, err, short, "cut", what, kind, "dead" if fin else "wait", at) if cut else \
                self.must(ok, s, err, (), "trailers", what, kind, "dead", at)
        else:
            want = message_role(self.role, name, phase != "headers")
        if f.get("bad") and not cut:
            return self.must(ok, s, err, ("malformed_frame",) + ((want,) if want else ()), "refused", what, kind, "dead", at)
        if want is None and not cut:
            if ok:
                chk.ok("role")
                return "event", (phase, i + 1, 0)
            v = s.resolve(lab.get(s, err))
            bad = [x for x in ("unexpected_frame", "wrong_stream", "malformed_frame", "internal") + CONTROL if s.same(v, C64(lab.err(x)))]
            if bad:
                chk.never(eng, "role", s, what + ": %s reported as %s" % (name, bad[0]))
            else:
                chk.ok("role")
            return "dead", at
        allowed = (want,) if not cut else short + ((want,) if want else ()) + (("malformed_frame",) if f.get("bad") else ())
        return self.must(ok, s, err, allowed, "refused", what, kind, None, (phase, i, 0))

    def rest(self, i, pos):
        """does anything follow that has arrived"""
        return i < len(self.items) and pos > self.spans[i][0]

    def name(self, s, err):
        v = s.resolve(self.lab.get(s, err))
        return self.lab.err_name(v.a) if v.kind == "const" else str(v)

    def must(self, ok, s, err, allowed, rule, what, kind, verdict, at):
        if ok:
            self.chk.never(self.eng, rule, s, what + ": a %s event instead of %s" % (kind, "/".join(allowed)))
            return None
        v = s.resolve(self.lab.get(s, err))
        for a in allowed:
            if s.same(v, C64(self.lab.err(a))):
                self.chk.ok(rule)
                return verdict or ("wait" if a == "incomplete" else "dead"), at
        if not allowed:
            self.chk.never(self.eng, rule, s, what + ": refused with %s" % self.name(s, err))
            return None
        self.chk.same(self.eng, rule, s, v, C64(self.lab.err(allowed[0])), what + ": error")
        return None

    def tagged(self, s, ev, kind, what):
        for x, s1 in self.lab.call("vh_hev_%s_id" % kind, [ev], s.clone()):
            self.chk.same(self.eng, "stream", s1, x, self.id, what + ": stream id of the event")

    def header(self, s, ev, line, last, what):
        lab, chk, eng = self.lab, self.chk, self.eng
        for x, s1 in lab.call("vh_hev_header_fin", [ev], s.clone()):
            chk.same(eng, "headers", s1, x, T.const(1, int(last)), what + ": last header flag")
        for f, want in (("name", line[1]), ("value", line[2])):
            for x, s1 in lab.call("vh_hev_header_%s_size" % f, [ev], s.clone()):
                if chk.same(eng, "headers", s1, x, C64(len(want)), what + ": size of the %s" % f) is not True:
                    continue
                for j, b in enumerate(want):
                    for y, s2 in lab.call("vh_hev_header_%s_at" % f, [ev, C64(j)], s1.clone()):
                        chk.same(eng, "headers", s2, y, b, what + ": %s byte %d" % (f, j))
        chk.exits(eng, "headers", what)

    def size(self, s, ev):
        b, s = self.lab.one("vh_hev_body_buffer", [ev], s.clone())
        n, s = self.lab.one("vh_size_buffer", [b], s)
        n = s.resolve(n)
        return n.a if n.kind == "const" else None

    def body(self, s, ev, want, fin, what):
        """checks id and bytes; the flag has to be `fin` (None: either); returns the flag"""
        lab, chk, eng = self.lab, self.chk, self.eng
        self.tagged(s, ev, "body", what)
        x, _ = lab.one("vh_hev_body_fin", [ev], s.clone())
        got = s.eval(T.icmp("eq", x, T.const(1, 1)))
        if fin is not None and got is not fin:
            chk.same(eng, "end flag", s, x, T.const(1, int(fin)), what + ": end flag of the body event")
            return None
        b, s = lab.one("vh_hev_body_buffer", [ev], s.clone())
        bs = read(lab, s, b)
        if bs is None or len(bs) != len(want):
            chk.never(eng, "body", s, what + ": %s bytes instead of %d" % (len(bs) if bs is not None else "?", len(want)))
            return None
        for j, y in enumerate(want):
            chk.same(eng, "body", s, bs[j], y, what + ": body byte %d" % j)
        return got


def message_cases(tier):
    """(label, frames)"""
    h1 = headers_frame([line_indexed()])
    h2 = headers_frame([line_indexed(), line_named("a", 3)])
    h3 = headers_frame([line_literal("b", 2), line_indexed(), line_named("c", 0)])
    d = lambda n, t="0": data_frame(t, n)
    fr = Frames("m")
    u = fr.unknown(0x21, 2)
    u0 = fr.unknown(0x40, 0)
    yield "headers", [h1], 2
    yield "two headers", [h2], 2
    yield "three headers", [h3], 2
    yield "headers, data", [h2, d(3)], 2
    yield "headers, data, data", [h1, d(1, "0"), d(4, "1")], 2
    yield "headers, empty data", [h1, d(0)], 2
    yield "headers, empty data, data", [h1, d(0), d(2)], 2
    yield "headers, data, empty data", [h1, d(2), d(0)], 2
    yield "unknown, headers, unknown, data, unknown", [u, h1, u0, d(2), u], 2
    yield "headers, unknown", [h1, u], 2
    yield "headers, long data", [h1, d(70)], 1
    yield "nothing", [], 2
    yield "unknown only", [u], 2
    yield "empty section", [dict(name="headers", bytes=const_varint(1) + const_varint(0), head=2, lines=[], ends=[], empty=True, fields=[]), d(1)], 1
    yield "data first", [d(2), h1], 1
    yield "trailers", [h1, d(1), h2], 1
    yield "headers, trailers", [h1, h1], 1
    yield "trailers, data", [h1, d(1), h1, d(2)], 1
    for name in ("priority", "cancel_push", "settings", "push_promise", "goaway", "max_push_id", "duplicate_push"):
        for c in CLASSES if tier == "thorough" else (CLASSES[0],):
            yield "%s %x first" % (name, c[0]), [fr.make(name, c), h1], 0
            yield "headers, %s %x" % (name, c[0]), [h1, fr.make(name, c), d(1)], 0
            yield "headers, data, %s %x" % (name, c[0]), [h1, d(1), fr.make(name, c), d(1, "1")], 0
        if name != "push_promise":
            yield "bad %s first" % name, [fr.bad(name), h1], 0
            yield "headers, bad %s" % name, [h1, fr.bad(name)], 0
        yield "unknown, %s" % name, [u, fr.make(name), h1], 0
    yield "headers, data, unknown cut", [h1, d(1), fr.unknown(0x4000, 70)], 0


def C24(chk):
    lab = make_lab()
    chk.use(lab.eng)
    jobs = []
    i = 0
    for role in ROLES:
        drv = Receiving(chk, lab, role)
        for label, items, deep in message_cases(chk.tier):
            n = sum(len(f["bytes"]) for f in items)
            ways = [([n], 1), ([1] * n, 1)] if n else [([], 1)]
            if n and n < 40:
                ways += [([1] * n, n + 2), ([1] * n, 3)]
            quick = chk.tier == "quick"
            # the roles differ in the frames they refuse only
            step = 1 if not quick else (1 if role == "c" else 3) if deep == 2 else max(1, n // 4)
            ways += [([a, n - a], 1) for a in range(1, n, step)]
            for chunks, batch in ways:
                if len(chunks) > 60 and quick:
                    continue
                for fin in ("with", "after", None):
                    i += 1
                    if fin is None and len(chunks) not in (0, 1) or quick and not deep and i % 2 and len(chunks) > 1:
                        continue
                    jobs.append(lambda d=drv, l=label, it=items, c=chunks, f=fin, b=batch, i=i: d.run(l, it, c, f, b, 1 if i % 4 == 0 else None))
            # the stream ends early
            for a in range(1, n, step):
                for fin in ("with", "after") if deep == 2 or not quick else (("with", "after")[a % 2],):
                    jobs.append(lambda d=drv, l=label + " ending at %d" % a, it=items, a=a, f=fin: d.run(l, it, [a], f))
                    if deep == 2 and a > 2 and (role == "c" or not quick):
                        jobs.append(lambda d=drv, l=label + " ending at %d" % a, it=items, a=a, f=fin: d.run(l, it, [a // 2, a - a // 2], f))
    chk.parallel(jobs)
    return chk.finish(4000, "typestate dataflow over the request receiver in both roles, messages of symbolic content cut everywhere",
                      expl="Streams of up to five frames (HEADERS of several lines, DATA, unknown, every other type, malformed), delivered "
                           "in one piece, byte by byte, cut at every position, ended with the data, after it, or early at every "
                           "position; the outcome of every process() call compared with the protocol.")


# ---- stream handles ------------------------------------------------------------------------------

class World:
    """senders and handles by name; the specification: which stream every sender is, which stream every
    handle was made for (None: none), which handle is the newest of a stream"""

    def __init__(self, st, senders, handles, newest, ids, text):
        self.st, self.senders, self.handles, self.newest, self.ids, self.text = st, senders, handles, newest, ids, text

    def copy(self, st, text):
        return World(st, dict(self.senders), dict(self.handles), dict(self.newest), dict(self.ids),
                     self.text + "; " + text if self.text else text)


class Handles:
    def __init__(self, chk, lab):
        self.chk, self.lab, self.eng = chk, lab, lab.eng

    def obj(self, st, name):
        return Ptr((name,), C64(0))

    def call(self, w, fn, args, text):
        out = self.lab.call(fn, args, w.st.clone())
        self.chk.exits(self.eng, "lifetime", "%s; %s" % (w.text, text) if w.text else text)
        return [s for _, s in out]

    def add(self, w, name, kind):
        st = w.st.clone()
        p = self.lab.raw(st, name, self.lab.size(kind))
        return World(st, w.senders, w.handles, w.newest, w.ids, w.text), p

    def sender(self, w, name, sid):
        w, p = self.add(w, name, "crsend")
        t = "%s=sender(%d)" % (name, sid)
        for s in self.call(w, "vh_crsend_make", [p, C64(sid)], t):
            w2 = w.copy(s, t)
            w2.senders[name] = (p, name)
            w2.ids[name] = sid
            yield w2

    def ops(self, w):
        """(text, thunk -> [World])"""
        hs, ss = w.handles, w.senders
        free_h = next((n for n in "XYZ" if n not in hs and ("dead", n) not in w.newest), None)
        free_s = next((n for n in "CDE" if n not in ss and ("dead", n) not in w.newest), None)
        if free_h:
            for s, (p, tok) in ss.items():
                if tok is not None:
                    yield lambda s=s, p=p, tok=tok: self.make(w, free_h, s, p, tok)
            for h in hs:
                yield lambda h=h: self.hmove(w, free_h, h)
        for a in hs:
            for b in hs:
                yield lambda a=a, b=b: self.hassign(w, a, b)
            yield lambda a=a: self.hdestroy(w, a)
        for s, (p, tok) in ss.items():
            if free_s and tok is not None:
                yield lambda s=s: self.smove(w, free_s, s)
            for d in ss:
                if ss[s][1] is not None or d == s:
                    yield lambda s=s, d=d: self.sassign(w, d, s)
            yield lambda s=s: self.sdestroy(w, s)

    def make(self, w, h, s, sp, tok):
        w, p = self.add(w, h, "handle")
        t = "%s=handle(%s)" % (h, s)
        for st in self.call(w, "vh_handle_make", [p, sp], t):
            w2 = w.copy(st, t)
            w2.handles[h] = (p, tok)
            w2.newest[tok] = h
            yield w2

    def hmove(self, w, h, o):
        w, p = self.add(w, h, "handle")
        t = "%s=move(%s)" % (h, o)
        for st in self.call(w, "vh_handle_move", [p, w.handles[o][0]], t):
            w2 = w.copy(st, t)
            self.passed(w2, o, h, p)
            yield w2

    def passed(self, w, o, h, p):
        tok = w.handles[o][1]
        w.handles[h] = (p, tok)
        w.handles[o] = (w.handles[o][0], None)
        if tok is not None and w.newest.get(tok) == o:
            w.newest[tok] = h

    def hassign(self, w, a, b):
        t = "%s<-move(%s)" % (a, b)
        for st in self.call(w, "vh_handle_assign", [w.handles[a][0], w.handles[b][0]], t):
            w2 = w.copy(st, t)
            if a != b:
                old = w2.handles[a][1]
                if old is not None and w2.newest.get(old) == a:
                    del w2.newest[old]
                self.passed(w2, b, a, w2.handles[a][0])
            yield w2

    def hdestroy(self, w, h):
        t = "~%s" % h
        for st in self.call(w, "vh_handle_destroy", [w.handles[h][0]], t):
            w2 = w.copy(st, t)
            p, tok = w2.handles.pop(h)
            if tok is not None and w2.newest.get(tok) == h:
                del w2.newest[tok]
            w2.newest[("dead", h)] = True
            bury(w2.st, p)
            yield w2

    def smove(self, w, d, s):
        w, p = self.add(w, d, "crsend")
        t = "%s=move(%s)" % (d, s)
        for st in self.call(w, "vh_crsend_move", [p, w.senders[s][0]], t):
            w2 = w.copy(st, t)
            w2.senders[d] = (p, w2.senders[s][1])
            w2.senders[s] = (w2.senders[s][0], None)
            yield w2

    def sassign(self, w, d, s):
        t = "%s<-move(%s)" % (d, s)
        for st in self.call(w, "vh_crsend_assign", [w.senders[d][0], w.senders[s][0]], t):
            w2 = w.copy(st, t)
            if d != s:
                w2.senders[d] = (w2.senders[d][0], w2.senders[s][1])
                w2.senders[s] = (w2.senders[s][0], None)
            yield w2

    def sdestroy(self, w, s):
        t = "~%s" % s
        for st in self.call(w, "vh_crsend_destroy", [w.senders[s][0]], t):
            w2 = w.copy(st, t)
            p, _ = w2.senders.pop(s)
            w2.newest[("dead", s)] = True
            bury(w2.st, p)
            yield w2

    def reach(self, w):
        """every handle reaches exactly its own stream or is invalid"""
        chk, lab, eng = self.chk, self.lab, self.eng
        inv = C64(lab.err("invalid_handle"))
        for h, (p, tok) in w.handles.items():
            what = "%s: handle %s" % (w.text, h)
            own = [s for s, (_, t) in w.senders.items() if t == tok] if tok is not None else []
            must = bool(own) and w.newest.get(tok) == h
            alive = None
            for s in [None] + sorted(w.senders):
                st = w.st.clone()
                err = lab.word(st, "err")
                todo = [st]
                if s is not None:
                    # close that stream's body: from now on adding to it fails
                    todo = [x for _, x in lab.call("vh_crsend_fin", [w.senders[s][0], err], st)]
                for st in todo:
                    b = fresh(lab, st, "body")
                    _, st = lab.one("vh_buffer_default", [b], st)
                    for ok0, s0 in lab.call("vh_handle_body", [p, b, err], st):
                        for ok, s1 in outcome(chk, lab, s0, ok0, "reach", what):
                            valid = ok or not s1.same(lab.get(s1, err), inv)
                            if s is None:
                                alive = ok
                                if must and not ok:
                                    chk.never(eng, "reach", s1, what + " does not reach its stream")
                                elif ok and not own:
                                    chk.never(eng, "reach", s1, what + " reaches a stream although its own is gone")
                                else:
                                    chk.ok("reach")
                                if not ok:
                                    chk.same(eng, "invalid", s1, lab.get(s1, err), inv, what + ": error")
                            elif alive:
                                if ok == (s in own):
                                    chk.never(eng, "reach", s1, "%s reaches %s stream" % (what, "another" if s not in own else "not its own"))
                                else:
                                    chk.ok("reach")
                            elif valid:
                                chk.never(eng, "reach", s1, what + " is valid only sometimes")
            if alive and own:
                for x, s1 in lab.call("vh_handle_id", [p], w.st.clone()):
                    chk.same(eng, "id", s1, x, C64(w.ids[tok]), what + ": id()")
            if not alive:
                for fn in ("start", "fin", "header"):
                    st = w.st.clone()
                    err = lab.word(st, "err")
                    args = [p, err]
                    if fn == "header":
                        n, nn = text(lab, st, "name", "n")
                        args = [p, n, nn, n, nn, err]
                    for ok0, s0 in lab.call("vh_handle_" + fn, args, st):
                        for ok, s1 in outcome(chk, lab, s0, ok0, "invalid", what):
                            if ok:
                                chk.never(eng, "invalid", s1, what + ": %s() on a dead handle accepted" % fn)
                            else:
                                chk.same(eng, "invalid", s1, lab.get(s1, err), inv, what + ": error of %s()" % fn)
            chk.exits(eng, "lifetime", what)

    def explore(self, w, depth):
        with self.chk.guard("lifetime", w.text):
            self.reach(w)
            if depth:
                for op in self.ops(w):
                    for w2 in op():
                        self.explore(w2, depth - 1)


def C25(chk):
    ref = []
    c = QpackEncoder(ref)
    lab = make_lab(c.hooks())
    ref.append(lab)
    lab.contract = c
    chk.use(lab.eng)
    drv = Handles(chk, lab)
    jobs = []
    deep = 4 if chk.tier == "quick" else 5
    base = World(State(), {}, {}, {}, {}, "")
    one = [w for w in drv.sender(base, "A", 10)]
    two = [x for w in one for x in drv.sender(w, "B", 20)]
    xs = [x for w in two for x in drv.make(w, "X", "A", *w.senders["A"])]
    ys = [x for w in xs for x in drv.make(w, "Y", "B", *w.senders["B"])]
    yy = [x for w in xs for x in drv.make(w, "Y", "A", *w.senders["A"])]
    for ws, d in ((two, deep - 1), (ys, deep), (yy, deep), (xs, deep)):
        for w in ws:
            with chk.guard("lifetime", w.text):
                drv.reach(w)
                n = len(list(drv.ops(w)))
            for j in range(n):
                def job(w=w, j=j, d=d):
                    for w2 in list(drv.ops(w))[j]():
                        drv.explore(w2, d - 2)
                jobs.append(job)
    chk.sample({"start": [w.text for w in two + xs + ys + yy], "depth": deep})
    chk.parallel(jobs)
    return chk.finish(4000, "lifetime typestate over streams and handles in compiler IR: every sequence of operations up to a bound, "
                            "dead objects made inaccessible",
                      expl="Operations: make, move, assign (also to itself) and destroy handles and senders; after each sequence every "
                           "handle is asked which stream it reaches.")
