"""C26-C28: connections of both roles and the iteration of their events."""
from .lab import *
from .codec import outcome
from .buffers import fresh
from .frame import const_varint
from .sections import given
from .endpoint import read, chars, HARNESS, ROLES, line_indexed, line_named, line_literal, headers_frame, data_frame, Frames, settings_bytes

KINDS = ("settings", "header", "body", "finished")
HARNESS = HARNESS + ["h_connection.cpp"]


def make_lab(hooks=()):
    lab = Lab(F.lib_sources("http3") + F.BASE, HARNESS, hooks=hooks)
    lab.eng.no_merge = True
    return lab


def kind_of(lab, st, ev):
    x, _ = lab.one("vh_hev_kind", [ev], st.clone())
    x = st.resolve(x)
    for k in KINDS:
        if st.same(x, T.const(32, lab.const("vh_hev_kind_" + k))):
            return k
    return None


# ---- generator -----------------------------------------------------------------------------

PRODUCED = ("settings", "header", "body", "finished")
ERRORS = ("internal", "malformed_frame", "delegate", "idle", "stream_closed")


class Iteration:
    """a generator over a connection whose next outcomes are arbitrary"""

    def __init__(self, chk):
        self.chk = chk
        self.plan = None
        self.lab = make_lab([(r"vh_mock::process\(unsigned long\)", self.process)])
        self.eng = self.lab.eng
        self.id = T.sym(64, "stream", 0, (1 << 64) - 1)

    def process(self, eng, st, args, fn, inst):
        lab = self.lab
        k = len([e for e in st.events if e[0] == "process"])
        st = st.clone()
        if not st.same(args[2], self.id):
            st.event("other", k)
        st.event("process", k)
        what = self.plan
        if what in PRODUCED:
            st, ev = self.produced(st, what, k)
            return [(None, s) for _, s in lab.call("vh_rhev_make", [args[0], ev], st)]
        return [(None, s) for _, s in lab.call("vh_rhev_err", [args[0], C64(lab.err(what))], st)]

    def produced(self, st, what, k):
        lab = self.lab
        ev = lab.raw(st, "made%d" % k, lab.size("hev"))
        tag = T.sym(64, ("tag", k), 0, (1 << 64) - 1)
        if what == "settings":
            _, st = lab.one("vh_hev_settings", [ev, tag, C64(1), C64(2), C64(3)], st)
        elif what == "header":
            ss = []
            for f in "nv":
                n = C64(2 if f == "n" else 30)
                p = st.add_obj(("text", f, k), "param", n, ("in", "%s%d" % (f, k)))
                s = lab.raw(st, "str%s%d" % (f, k), lab.size("string"))
                _, st = lab.one("vh_string_bytes", [s, p, n], st)
                ss.append(s)
            _, st = lab.one("vh_hev_header", [ev, tag, T.const(1, k % 2)] + ss, st)
        elif what == "body":
            b = given(lab, st, "body%d" % k, [T.sym(8, ("b", k, j), 0, 255) for j in range(25)])
            _, st = lab.one("vh_hev_body", [ev, tag, T.const(1, k % 2), b.ptr], b.st)
        else:
            _, st = lab.one("vh_hev_finished", [ev, tag], st)
        return st, ev

    # situation: (state, generator, pending (kind, k) or None or "any", finished, number of process calls, ops)
    def start(self):
        lab = self.lab
        st = State()
        g, c = lab.raw(st, "gen", lab.size("mgen")), lab.raw(st, "mock", 8)
        _, st = lab.one("vh_mgen_make", [g, self.id, c], st)
        return (st, g, None, False, 0, "", 0)

    def check(self, s, ev, want, what):
        """the event is the produced one"""
        chk, lab, eng = self.chk, self.lab, self.eng
        kind, k = want
        got = kind_of(lab, s, ev)
        if got != kind:
            chk.never(eng, "each once", s, what + ": %s instead of %s" % (got, kind))
            return
        tag = T.sym(64, ("tag", k), 0, (1 << 64) - 1)
        f = {"settings": "vh_hev_settings_list", "header": "vh_hev_header_id", "body": "vh_hev_body_id", "finished": "vh_hev_finished_id"}
        for x, s1 in lab.call(f[kind], [ev], s.clone()):
            chk.same(eng, "each once", s1, x, tag, what + ": identity of the event")
        if kind == "body":
            b, s1 = lab.one("vh_hev_body_buffer", [ev], s.clone())
            bs = read(lab, s1, b)
            if bs is None or len(bs) != 25:
                chk.never(eng, "each once", s1, what + ": size of the body")
                return
            for j, x in enumerate(bs):
                chk.same(eng, "each once", s1, x, T.sym(8, ("b", k, j), 0, 255), what + ": body byte %d" % j)
        if kind == "header":
            for f, n in (("name", 2), ("value", 30)):
                for x, s1 in lab.call("vh_hev_header_%s_size" % f, [ev], s.clone()):
                    if chk.same(eng, "each once", s1, x, C64(n), what + ": size of the %s" % f) is True:
                        for j in range(n):
                            for y, s2 in lab.call("vh_hev_header_%s_at" % f, [ev, C64(j)], s1.clone()):
                                src = lab.eng.byte(s2, ("in", "%s%d" % (f[0], k)), C64(j))
                                chk.same(eng, "each once", s2, y, src, what + ": %s byte %d" % (f, j))

    def step(self, sit, op):
        chk, lab, eng = self.chk, self.lab, self.eng
        st, g, pending, over, calls, txt, moved = sit
        what = txt + " " + op
        st = st.clone()
        out = []
        if op == "move":
            g2 = lab.raw(st, "gen%d" % moved, lab.size("mgen"))
            for _, s in lab.call("vh_mgen_move", [g2, g], st):
                _, s = lab.one("vh_mgen_destroy", [g], s)
                out.append((s, g2, pending, over, calls, what, moved + 1))
        elif op == "get":
            n = what.count("get")
            ev, err = lab.raw(st, "got%d" % n, lab.size("hev")), lab.word(st, "err%d" % n)
            for ok0, s0 in lab.call("vh_mgen_get", [g, ev, err], st):
                for ok, s in outcome(chk, lab, s0, ok0, "take", what):
                    if isinstance(pending, tuple) and pending[0] in PRODUCED:
                        if not ok:
                            if over and not txt.endswith("next finished") and "next" in txt[-24:]:
                                chk.ok("take")
                            else:
                                chk.never(eng, "each once", s, what + ": an error instead of the event")
                                continue
                        else:
                            self.check(s, ev, pending, what)
                            _, s = lab.one("vh_hev_destroy", [ev], s)
                    elif ok:
                        chk.never(eng, "take", s, what + ": an event although there is none")
                        continue
                    elif pending is not None:
                        chk.same(eng, "each once", s, lab.get(s, err), C64(lab.err(pending[0])), what + ": error")
                    else:
                        e = s.resolve(lab.get(s, err))
                        if s.same(e, C64(lab.err("no_error"))):
                            chk.never(eng, "take", s, what + ": the error says success")
                        else:
                            chk.ok("take")
                    out.append((s, g, None, over, calls, what, moved))
        else:
            self.plan = op.split(" ")[1] if " " in op else "body"
            for r, s in lab.call("vh_mgen_next", [g], st):
                done = len([e for e in s.events if e[0] == "process"])
                if [e for e in s.events if e[0] == "other"]:
                    chk.never(eng, "stream", s, what + ": asks for the events of another stream")
                    continue
                want = not over and self.plan != "incomplete"
                chk.same(eng, "stop", s, r, T.const(1, int(want)), what + ": next()")
                if over:
                    if done != calls:
                        chk.never(eng, "stop", s, what + ": goes on after the finished event")
                        continue
                elif done != calls + 1:
                    chk.never(eng, "each once", s, what + ": %d results taken from the connection" % (done - calls))
                    continue
                chk.ok("each once")
                p = pending if over else (self.plan, calls) if want else None
                out.append((s, g, p, over or self.plan == "finished", done, what, moved))
        chk.exits(eng, "sequence", what)
        return out

    def walk(self, sit, depth, ops):
        if not depth:
            self.close(sit)
            return
        for op in ops:
            st, g, pending, over, calls, txt, moved = sit
            if op == "move" and (moved > 1 or txt.endswith("move")):
                continue
            if over and op.startswith("next") and op != "next body" or op == "get" and txt.endswith("get get"):
                continue
            with self.chk.guard("sequence", txt + " " + op):
                for x in self.step(sit, op):
                    self.walk(x, depth - 1, ops)

    def close(self, sit):
        st, g, pending, over, calls, txt, moved = sit
        with self.chk.guard("sequence", txt + " destroy"):
            for _, s in self.lab.call("vh_mgen_destroy", [g], st.clone()):
                self.chk.ok("destroy")
            self.chk.exits(self.eng, "sequence", txt + " destroy")


def C28(chk):
    it = Iteration(chk)
    chk.use(it.eng)
    ops = ["next " + k for k in PRODUCED + ("incomplete", "malformed_frame")] + ["get", "move"]
    deep = 5 if chk.tier == "quick" else 6
    jobs = []
    for op in ops:
        for op2 in ops:
            if op == op2 == "move" or op == "next finished" and op2.startswith("next") and op2 != "next body":
                continue

            def job(op=op, op2=op2):
                with chk.guard("sequence", op + ", " + op2):
                    for x in it.step(it.start(), op):
                        for y in it.step(x, op2):
                            it.walk(y, deep - 2, ops)
            jobs.append(job)
    # every error, and longer streams
    chains = [["next " + e, "get", "get", "next body", "get"] for e in ERRORS]
    chains += [["next header", "get"] * 4 + ["next body", "get"] * 4 + ["next finished", "get", "next body", "get", "next body"],
               ["next header", "get", "next incomplete", "next body", "get", "next incomplete", "next incomplete", "next finished", "get"]
               + ["next body"] * 4,
               ["next body", "move", "get", "move", "next malformed_frame", "get", "next body", "get", "next finished", "move", "get", "next body"]]
    for seq in chains:
        def job(seq=seq):
            sits = [it.start()]
            for op in seq:
                with chk.guard("sequence", " ".join(seq)):
                    sits = [y for x in sits for y in it.step(x, op)]
            for x in sits:
                it.close(x)
            if not sits:
                chk.undec("sequence", "not completed: " + " ".join(seq))
        jobs.append(job)
    chk.sample({"operations": ops, "depth": deep, "scripts": chains})
    chk.parallel(jobs)
    return chk.finish(4000, "typestate dataflow over generator<Connection>: every sequence of next/get/move up to a bound, against a connection "
                            "whose every outcome is enumerated",
                      expl="The connection's process() is replaced by one producing each kind of event or error; each take is compared with "
                           "the result it has to hand out, byte for byte.")


# ---- connections ---------------------------------------------------------------------------

OWN, PEER = {"c": 2, "s": 3}, {"c": 3, "s": 2}
CONTROL = ("incomplete", "idle", "delegate", "no_error")


class Out:
    """what an application writes on a stream and the bytes that have to leave"""

    def __init__(self, tag, steps):
        self.tag, self.steps = tag, steps     # steps: tuple of tuples of ("header", n, v) | ("body", n) | "start" | "fin"

    def payload(self, j, n):
        return [T.sym(8, ("out", self.tag, j, x), 0, 255) for x in range(n)]

    def apply(self, lab, st, obj, fns, prefix, k):
        """performs step k on the object (sender or handle); (state, accepted) """
        res = [(st, True)]
        for j, op in enumerate(self.steps[k]):
            nxt = []
            for st, good in res:
                st = st.clone()
                err = lab.word(st, "e%s%d%d" % (prefix, k, j))
                if op[0] == "header":
                    a = []
                    for x in op[1:]:
                        b = x.encode("latin1")
                        a += [st.add_obj(("txt", x), "param", len(b), ("const", b), ro=True), C64(len(b))]
                    rs = lab.call(fns + "header", [obj] + a + [err], st)
                elif op[0] == "body":
                    b = given(lab, st, "%s%d%d" % (prefix, k, j), self.payload((k, j), op[1]))
                    rs = lab.call(fns + "body", [obj, b.ptr, err], b.st)
                else:
                    rs = lab.call(fns + op, [obj, err], st)
                for r, s in rs:
                    v = s.eval(T.icmp("eq", r, T.const(1, 1)))
                    if v is None:
                        raise Broken("outcome of %s unknown" % (op,))
                    nxt.append((s, good and v))
            res = nxt
        return res

    def reference(self, lab, role):
        """the bytes a stream of this role emits: [(bytes available after step k, ended)]"""
        st = State()
        e = lab.raw(st, "ref", lab.size(role + "rsend"))
        _, st = lab.one("vh_%srsend_make" % role, [e, C64(4)], st)
        out, levels = [], []
        for k in range(len(self.steps)):
            (st, good), = self.apply(lab, st, e, "vh_%srsend_" % role, "r", k)
            if not good:
                raise Broken("reference message refused")
            for n in range(40):
                ev, err = lab.raw(st, "rev%d.%d" % (k, n), lab.size("qev")), lab.word(st, "rerr%d.%d" % (k, n))
                ok, st = lab.one("vh_%srsend_send" % role, [e, ev, err], st)
                if st.eval(T.icmp("eq", ok, T.const(1, 1))) is not True:
                    break
                b, st = lab.one("vh_qev_data_buffer", [ev], st)
                bs = read(lab, st, b)
                if bs is None:
                    raise Broken("reference piece of unknown size")
                out += bs
            levels.append((len(out), any(o == "fin" for s in self.steps[:k + 1] for o in s)))
        self.bytes, self.levels = out, levels
        if not levels[-1][1] or len(out) < 5:
            raise Broken("reference message incomplete")


GET = (("header", ":method", "GET"), ("header", ":path", "/a"))
MESSAGES = (("three steps", (GET + ("start",), (("body", 4),), ("fin",))),
            ("at once", (GET[:1] + (("body", 3), "start", "fin"),)),
            ("no body", (GET[:1] + ("start",), ("fin",))))


class In:
    """a message arriving in chunks"""

    def __init__(self, tag, lines, bodies, cuts_, fin):
        frames = [headers_frame(lines)] + [data_frame(tag + "%d" % j, n) for j, n in enumerate(bodies)]
        self.lines = lines
        self.bytes, self.at, self.body, self.where = [], [], [], []
        for f in frames:
            base = len(self.bytes)
            self.bytes += f["bytes"]
            if f["name"] == "headers":
                self.at = [base + e for e in f["ends"]]
            else:
                self.body += f["bytes"][f["head"]:]
                self.where += [base + f["head"] + j for j in range(f["n"])]
        n = len(self.bytes)
        cs = sorted(set(c for c in cuts_ if 0 < c < n)) + [n]
        self.chunks = [(a, b, fin == "with" and b == n) for a, b in zip([0] + cs, cs)]
        if fin == "after":
            self.chunks.append((n, n, True))


class Sit:
    """a reached situation of a connection with what the specification knows"""
    FIELDS = "st conn moved ctl_out ctl_in streams text k"

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def next(self, st, op, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        d["st"], d["text"], d["k"] = st, self.text + " / " + op, self.k + 1
        return Sit(**d)

    def with_(self, x, **kw):
        s = dict(self.streams)
        e = dict(s[x])
        e.update(kw)
        s[x] = e
        return s


NEW = dict(handle=None, step=0, sent=0, fin_sent=False, begun=False, got=0, given=0, ended=False, headers=0, body=0, finished=False,
           bodyfin=False, off=False, kept=None)


class Driver:
    def __init__(self, chk, lab, role, outs, ins, ids):
        self.chk, self.lab, self.role, self.eng = chk, lab, role, lab.eng
        self.outs, self.ins, self.ids = outs, ins, ids
        self.pre = "vh_%sconn_" % role
        self.ctl = [b for b in const_varint(0)], settings_bytes()
        fr = Frames("peer")
        from .codec import CLASSES
        f = fr.settings([("list", CLASSES[1]), ("capacity", CLASSES[0]), ("blocked", CLASSES[0]), ("placeholders", CLASSES[0])]) \
            if False else fr.make("settings")
        self.fields = f["fields"]
        b = const_varint(0) + f["bytes"]
        self.incoming_ctl = [(b[:1], False), (b[1:5], False), (b[5:], True)]
        self.others = Frames("junk")

    def start(self):
        lab = self.lab
        st = State()
        c = lab.raw(st, "conn0", lab.size(self.role + "conn"))
        _, st = lab.one(self.pre + "make", [c], st)
        return Sit(st=st, conn=c, moved=0, ctl_out=0, ctl_in=0, streams={}, text="%s::connection" % ROLES[self.role], k=0)

    # -- operations: each returns the situations reached
    def op(self, sit, op):
        f, _, x = op.partition(" ")
        out = getattr(self, "op_" + f)(sit, op, x) if x else getattr(self, "op_" + f)(sit, op)
        self.chk.exits(self.eng, "no abort", sit.text + " / " + op)
        return out

    def possible(self, sit, op):
        f, _, x = op.partition(" ")
        s = sit.streams.get(x)
        if f == "request":
            return len(sit.streams) < len(self.outs)
        if f == "gone":
            return s is not None and s["finished"]
        if f == "resume":
            return s is not None and s["kept"] is not None
        if f == "response" and s is None:
            return True
        if f in ("write", "response"):
            return s is not None and (f == "response" or s["handle"] is not None and s["step"] < len(self.outs[x].steps))
        if f in ("in", "hold", "keep"):
            if self.role == "c" and s is None:
                return False
            return s is None or s["given"] < len(self.ins[x].chunks) and not s["finished"] and not s["off"]
        if f == "control":
            return sit.ctl_in < len(self.incoming_ctl)
        if f == "move":
            return sit.moved < 2 and not sit.text.endswith("move")
        return True

    def op_request(self, sit, op):
        chk, lab, eng = self.chk, self.lab, self.eng
        x = "ABC"[len(sit.streams)]
        st = sit.st.clone()
        h, err = lab.raw(st, "handle" + x, lab.size("handle")), lab.word(st, "err%d" % sit.k)
        out = []
        what = sit.text + " / request"
        for ok0, s0 in lab.call(self.pre + "request", [sit.conn, h, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "fresh id", what):
                if not ok:
                    chk.never(eng, "fresh id", s, what + ": refused")
                    continue
                self.handle_id(s, h, C64(4 * len(sit.streams)), what)
                out.append(sit.next(s, op, streams=dict(sit.streams, **{x: dict(NEW, handle=h)})))
        return out

    def handle_id(self, s, h, want, what, rule="fresh id"):
        for r, s1 in self.lab.call("vh_handle_id", [h], s.clone()):
            self.chk.same(self.eng, rule, s1, r, want, what + ": stream of the handle")

    def gone(self, sit, x):
        """may the request have been dropped"""
        s = sit.streams[x]
        return s["finished"] and (self.role == "c" or s["fin_sent"])

    def op_response(self, sit, op, x):
        chk, lab, eng = self.chk, self.lab, self.eng
        st = sit.st.clone()
        h, err = lab.raw(st, "handle%s%d" % (x, sit.k), lab.size("handle")), lab.word(st, "err%d" % sit.k)
        out = []
        what = sit.text + " / response " + x
        s_ = sit.streams.get(x)
        for ok0, s0 in lab.call(self.pre + "response", [sit.conn, self.ids[x], h, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "handle", what):
                if s_ is None or self.gone(sit, x):
                    if ok:
                        chk.never(eng, "handle", s, what + ": a handle to a request that %s" % ("is over" if s_ else "does not exist"))
                    else:
                        chk.ok("handle")
                        out.append(sit.next(s, op))
                elif not ok:
                    chk.never(eng, "handle", s, what + ": refused although the request is open")
                else:
                    self.handle_id(s, h, self.ids[x], what, "handle")
                    # replaces the one there may be
                    out.append(sit.next(s, op, streams=sit.with_(x, handle=h)))
        return out

    def op_missing(self, sit, op):
        """a handle for a stream nothing was received on"""
        chk, lab = self.chk, self.lab
        st = sit.st.clone()
        h, err = lab.raw(st, "handle?%d" % sit.k, lab.size("handle")), lab.word(st, "err%d" % sit.k)
        out = []
        for ok0, s0 in lab.call(self.pre + "response", [sit.conn, self.absent("request", sit.k), h, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "handle", sit.text + " / response"):
                if ok:
                    chk.never(self.eng, "handle", s, sit.text + ": a response handle for a request that does not exist")
                else:
                    chk.ok("handle")
                    out.append(sit.next(s, op))
        return out

    def op_write(self, sit, op, x):
        chk, lab, eng = self.chk, self.lab, self.eng
        s_ = sit.streams[x]
        what = sit.text + " / " + op
        out = []
        for s, good in self.outs[x].apply(lab, sit.st.clone(), s_["handle"], "vh_handle_", "w%s%d" % (x, sit.k), s_["step"]):
            if self.gone(sit, x):
                if good:
                    chk.never(eng, "dropped", s, what + ": accepted although the request is over")
                    continue
                chk.ok("dropped")
                out.append(sit.next(s, op, streams=sit.with_(x, step=len(self.outs[x].steps))))
            elif not good:
                chk.never(eng, "dropped", s, what + ": refused although the request is open")
            else:
                chk.ok("dropped")
                out.append(sit.next(s, op, streams=sit.with_(x, step=s_["step"] + 1)))
        return out

    def level(self, x, s):
        return self.outs[x].levels[s["step"] - 1] if s["step"] and s["handle"] is not None else (0, False)

    def op_drain(self, sit, op):
        """send until nothing is left"""
        sits, out = [sit], []
        for n in range(60):
            nxt = []
            for x in sits:
                for y in self.op_send(x, "send"):
                    (out if y.text.endswith("idle") else nxt).append(y)
            sits = nxt
            if not sits:
                break
        else:
            self.chk.never(self.eng, "send", sits[0].st, sit.text + ": never idle")
        for y in out:
            y.text = sit.text + " / drain"
        return out

    def op_send(self, sit, op):
        chk, lab, eng = self.chk, self.lab, self.eng
        st = sit.st.clone()
        ev, err = lab.raw(st, "sev%d" % sit.k, lab.size("qev")), lab.word(st, "err%d" % sit.k)
        what = sit.text + " / send"
        out = []
        due = []
        maybe = []
        for x, s in sit.streams.items():
            if x in self.outs and not s["fin_sent"]:
                n, end = self.level(x, s)
                if s["sent"] < n or end:
                    (maybe if self.gone(sit, x) else due).append(x)
        control = sit.ctl_out < 2
        for ok0, s0 in lab.call(self.pre + "send", [sit.conn, ev, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "send", what):
                if not ok:
                    if control or due:
                        chk.never(eng, "send", s, what + ": nothing sent although %s is due" % ("the control stream" if control else "/".join(due)))
                        continue
                    chk.same(eng, "send", s, lab.get(s, err), C64(lab.err("idle")), what + ": error")
                    out.append(sit.next(s, "idle"))
                    continue
                for r, s1 in lab.call("vh_qev_kind", [ev], s.clone()):
                    chk.same(eng, "send", s1, r, T.const(32, lab.const("vh_qev_kind_data")), what + ": kind of event")
                sid, s = lab.one("vh_qev_data_id", [ev], s)
                fin, s = lab.one("vh_qev_data_fin", [ev], s)
                fin = s.eval(T.icmp("eq", fin, T.const(1, 1)))
                b, s = lab.one("vh_qev_data_buffer", [ev], s)
                bs = read(lab, s, b)
                if bs is None or fin is None:
                    chk.undec("send", what + ": piece of unknown size")
                    continue
                if control:
                    self.control_piece(sit, s, sid, fin, bs, what, op, ev, out)
                    continue
                hit = [x for x in due + maybe if s.same(sid, self.ids[x])]
                if not hit:
                    chk.never(eng, "send", s, what + ": data on %s, due: %s" % (sid, due))
                    continue
                x = hit[0]
                e = sit.streams[x]
                n, end = self.level(x, e)
                want = self.outs[x].bytes[e["sent"]:n]
                if len(bs) > len(want) or not bs and not fin:
                    chk.never(eng, "send", s, what + ": %d bytes although %d are due" % (len(bs), len(want)))
                    continue
                good = True
                for j, y in enumerate(bs):
                    good = chk.same(eng, "send", s, y, want[j], what + ": byte %d of the message" % (e["sent"] + j)) is True and good
                if fin and (not end or len(bs) != len(want)):
                    chk.never(eng, "send", s, what + ": the stream is ended too early")
                    continue
                if not good:
                    continue
                _, s = lab.one("vh_qev_destroy", [ev], s)
                out.append(sit.next(s, "send", streams=sit.with_(x, sent=e["sent"] + len(bs), fin_sent=fin, begun=True)))
        return out

    def control_piece(self, sit, s, sid, fin, bs, what, op, ev, out):
        chk, lab, eng = self.chk, self.lab, self.eng
        from .frame import arranged
        if chk.same(eng, "control first", s, sid, C64(OWN[self.role]), what + ": stream id") is not True:
            return
        exps = [const_varint(0)] if sit.ctl_out == 0 else self.ctl[1]
        if len(bs) != len(exps[0]):
            # pieces may be cut elsewhere: only the concatenation counts
            chk.never(eng, "control first", s, what + ": %d bytes on the control stream" % len(bs))
            return
        e = arranged(s, exps, lambda j: bs[j])
        for j, y in enumerate(bs):
            chk.same(eng, "control first", s, y, e[j], what + ": byte %d of the control stream" % j)
        if fin:
            chk.never(eng, "control first", s, what + ": the control stream is ended")
            return
        _, s = lab.one("vh_qev_destroy", [ev], s)
        out.append(sit.next(s, "send", ctl_out=sit.ctl_out + 1))

    # -- incoming
    def receive(self, sit, sid, bs, fin, tag, what):
        """(accepted, state, generator, err)"""
        chk, lab = self.chk, self.lab
        st = sit.st.clone()
        if bs:
            b = given(lab, st, "in%d" % sit.k, bs)
            st, p = b.st, b.ptr
        else:
            p = fresh(lab, st, "in%d" % sit.k)
            _, st = lab.one("vh_buffer_default", [p], st)
        ev = lab.raw(st, "rev%d" % sit.k, lab.size("qev"))
        _, st = lab.one("vh_qev_data", [ev, sid, T.const(1, int(fin)), p], st)
        g, err = lab.raw(st, "gen%d" % sit.k, lab.size(self.role + "gen")), lab.word(st, "gerr%d" % sit.k)
        out = []
        for ok0, s0 in lab.call(self.pre + "recv", [sit.conn, ev, g, err], st):
            out += [(ok, s, g, err) for ok, s in outcome(chk, lab, s0, ok0, "route", what)]
        return out

    def iterate(self, s, g, k, what, limit=20):
        """all results until next() says stop: [(state, [(ok, event, err)])]"""
        chk, lab, eng = self.chk, self.lab, self.eng
        out, work = [], [(s, [])]
        while work:
            s, got = work.pop()
            if len(got) > limit:
                chk.never(eng, "events", s, what + ": events never end")
                continue
            for r, s1 in lab.call("vh_%sgen_next" % self.role, [g], s.clone()):
                for more, s2 in outcome(chk, lab, s1, r, "events", what):
                    if not more:
                        _, s2 = lab.one("vh_%sgen_destroy" % self.role, [g], s2)
                        out.append((s2, got))
                        continue
                    ev, err = lab.raw(s2, "ev%d.%d" % (k, len(got)), lab.size("hev")), lab.word(s2, "everr%d.%d" % (k, len(got)))
                    for ok0, s3 in lab.call("vh_%sgen_get" % self.role, [g, ev, err], s2):
                        for ok, s4 in outcome(chk, lab, s3, ok0, "events", what):
                            if not ok:
                                # an error: do not go on
                                _, s5 = lab.one("vh_%sgen_destroy" % self.role, [g], s4)
                                out.append((s5, got + [(False, ev, err)]))
                            else:
                                work.append((s4, got + [(True, ev, err)]))
        return out

    def op_hold(self, sit, op, x):
        """deliver without looking at the events"""
        return self.op_in(sit, op, x, drain=False)

    def op_keep(self, sit, op, x):
        """deliver and look at the events some time later"""
        return self.op_in(sit, op, x, drain=False, keep=True)

    def op_resume(self, sit, op, x):
        chk, lab, eng = self.chk, self.lab, self.eng
        what = sit.text + " / " + op
        e = dict(sit.streams[x])
        g, e["kept"] = e["kept"], None
        out = []
        for s, got in self.iterate(sit.st, g, sit.k, what):
            if e["finished"]:
                # everything was handed out already
                bad = [ev for o, ev, _ in got if o and (kind_of(lab, s, ev) != "finished" or len(got) > 1)]
                if bad:
                    chk.never(eng, "events", s, what + ": an event after the end")
                    continue
                chk.ok("events")
                e2 = e
            else:
                e2 = self.delivered(s, x, e, got, what)
            if e2 is not None:
                for o, ev, _ in got:
                    if o:
                        _, s = lab.one("vh_hev_destroy", [ev], s)
                out.append(sit.next(s, op, streams=dict(sit.streams, **{x: e2})))
        return out

    def op_gone(self, sit, op, x):
        """data for a request that is over (client): an error, and nobody else's events"""
        chk, lab, eng = self.chk, self.lab, self.eng
        what = sit.text + " / " + op
        out = []
        for ok, s, g, err in self.receive(sit, self.ids[x], [T.sym(8, ("junk", sit.k, j), 0, 255) for j in range(3)], False, x, what):
            if ok:
                chk.never(eng, "route", s, what + ": data for a request that is over accepted")
                continue
            chk.ok("route")
            out.append(sit.next(s, op))
        return out

    def op_in(self, sit, op, x, drain=True, keep=False):
        chk, lab, eng = self.chk, self.lab, self.eng
        what = sit.text + " / " + op
        e = sit.streams.get(x)
        streams = dict(sit.streams)
        if e is None:
            e = streams[x] = dict(NEW)
        m = self.ins[x]
        a, b, fin = m.chunks[e["given"]]
        out = []
        for ok, s, g, err in self.receive(sit, self.ids[x], m.bytes[a:b], fin, x, what):
            if self.role == "c" and not e["begun"]:
                # the response comes before the request: nothing may be delivered
                if ok:
                    for s2, got in self.iterate(s, g, sit.k, what):
                        if any(o for o, _, _ in got):
                            chk.never(eng, "route", s2, what + ": events of a request that was not sent")
                        else:
                            chk.ok("route")
                            out.append(sit.next(s2, op, streams=sit.with_(x, off=True)))
                else:
                    chk.ok("route")
                    out.append(sit.next(s, op, streams=sit.with_(x, off=True)))
                continue
            if not ok:
                chk.never(eng, "route", s, what + ": data refused")
                continue
            e2 = dict(e, given=e["given"] + 1, got=b, ended=fin)
            if keep:
                e2["kept"] = g
            elif not drain:
                _, s = lab.one("vh_%sgen_destroy" % self.role, [g], s)
            if not drain:
                out.append(sit.next(s, op, streams=dict(streams, **{x: e2})))
                continue
            for s2, got in self.iterate(s, g, sit.k, what):
                e3 = self.delivered(s2, x, e2, got, what)
                if e3 is not None:
                    for o, ev, _ in got:
                        if o:
                            _, s2 = lab.one("vh_hev_destroy", [ev], s2)
                    out.append(sit.next(s2, op, streams=dict(streams, **{x: e3})))
        return out

    def delivered(self, s, x, e, got, what):
        """the events are exactly what became deliverable; the stream's new situation"""
        chk, lab, eng = self.chk, self.lab, self.eng
        m = self.ins[x]
        e = dict(e)
        for ok, ev, err in got:
            if not ok:
                chk.never(eng, "events", s, what + ": error %s" % lab.err_name(s.resolve(lab.get(s, err)).a))
                return None
            kind = kind_of(lab, s, ev)
            if kind not in ("header", "body", "finished"):
                chk.never(eng, "events", s, what + ": a %s event on a request stream" % kind)
                return None
            for r, s1 in lab.call("vh_hev_%s_id" % kind, [ev], s.clone()):
                chk.same(eng, "events", s1, r, self.ids[x], what + ": stream of the event")
            if e["finished"]:
                chk.never(eng, "events", s, what + ": %s after finished" % kind)
                return None
            if kind == "header":
                i = e["headers"]
                if i >= len(m.at) or m.at[i] > e["got"]:
                    chk.never(eng, "events", s, what + ": a header that did not arrive")
                    return None
                for f, want in (("name", m.lines[i][1]), ("value", m.lines[i][2])):
                    for r, s1 in lab.call("vh_hev_header_%s_size" % f, [ev], s.clone()):
                        if chk.same(eng, "events", s1, r, C64(len(want)), what + ": size of the %s" % f) is True:
                            for j, y in enumerate(want):
                                for z, s2 in lab.call("vh_hev_header_%s_at" % f, [ev, C64(j)], s1.clone()):
                                    chk.same(eng, "events", s2, z, y, what + ": %s byte %d" % (f, j))
                e["headers"] += 1
            elif kind == "body":
                if e["headers"] < len(m.at) or e["bodyfin"]:
                    chk.never(eng, "events", s, what + ": body out of order")
                    return None
                b, s1 = lab.one("vh_hev_body_buffer", [ev], s.clone())
                bs = read(lab, s1, b)
                if bs is None or e["body"] + len(bs) > len(m.body):
                    chk.never(eng, "events", s, what + ": more body than was sent")
                    return None
                for j, y in enumerate(bs):
                    if m.where[e["body"] + j] >= e["got"]:
                        chk.never(eng, "events", s, what + ": body that did not arrive")
                        return None
                    chk.same(eng, "events", s, y, m.body[e["body"] + j], what + ": body byte %d" % (e["body"] + j))
                e["body"] += len(bs)
                fin, _ = lab.one("vh_hev_body_fin", [ev], s.clone())
                e["bodyfin"] = s.eval(T.icmp("eq", fin, T.const(1, 1))) is True
                if e["bodyfin"] and (not e["ended"] or e["body"] < len(m.body)):
                    chk.never(eng, "events", s, what + ": the body is ended too early")
                    return None
            else:
                e["finished"] = True
        heads = sum(1 for a in m.at if a <= e["got"])
        body = sum(1 for w in m.where if w < e["got"]) if heads == len(m.at) else 0
        if (e["headers"], e["body"], e["finished"]) != (heads, body, e["ended"]):
            chk.never(eng, "events", s, what + ": delivered %d headers, %d bytes, finished %s; due %d, %d, %s" %
                      (e["headers"], e["body"], e["finished"], heads, body, e["ended"]))
            return None
        chk.ok("events")
        return e

    def op_control(self, sit, op):
        chk, lab, eng = self.chk, self.lab, self.eng
        what = sit.text + " / " + op
        bs, last = self.incoming_ctl[sit.ctl_in]
        out = []
        for ok, s, g, err in self.receive(sit, C64(PEER[self.role]), bs, False, "ctl", what):
            if not ok:
                chk.never(eng, "control", s, what + ": data refused")
                continue
            for s2, got in self.iterate(s, g, sit.k, what):
                if len(got) != (1 if last else 0):
                    chk.never(eng, "control", s2, what + ": %d events" % len(got))
                    continue
                if last:
                    ok2, ev, err2 = got[0]
                    if not ok2 or kind_of(lab, s2, ev) != "settings":
                        chk.never(eng, "control", s2, what + ": no settings event")
                        continue
                    for k in ("list", "placeholders", "capacity", "blocked"):
                        for r, s3 in lab.call("vh_hev_settings_" + k, [ev], s2.clone()):
                            chk.same(eng, "control", s3, r, self.fields[k], what + ": setting %s" % k)
                    _, s2 = lab.one("vh_hev_destroy", [ev], s2)
                    self.recorded(s2, sit.conn, what)
                chk.ok("control")
                out.append(sit.next(s2, op, ctl_in=sit.ctl_in + 1))
        return out

    def recorded(self, s, conn, what):
        """the four values are kept somewhere in the connection"""
        lab, chk = self.lab, self.chk
        words = []
        for off in range(0, lab.size(self.role + "conn") - 7, 8):
            try:
                v = lab.peek(s, conn, off, 8)
                words.append(v if isinstance(v, T.Term) else self.eng.to_int(v))
            except Exception:
                continue
        for k, v in self.fields.items():
            if any(isinstance(w, T.Term) and w.w == 64 and s.same(w, v) for w in words):
                chk.ok("recorded")
            else:
                chk.never(self.eng, "recorded", s, what + ": the peer's %s is not kept" % k)

    def absent(self, kind, k):
        """ids of streams that do not exist, as a class"""
        n = T.sym(64, ("k", kind, k), 64, 1 << 58)
        low = {"request": 0, "server": 1, "uni2": 2, "uni3": 3}[kind]
        return T.add(T.shl(n, 2), C64(low))

    def op_uni(self, sit, op, which="uni3"):
        """data on another unidirectional stream: ignored"""
        chk, lab, eng = self.chk, self.lab, self.eng
        what = sit.text + " / " + op
        out = []
        sid = C64(OWN[self.role]) if which == "own" else self.absent(which, sit.k)
        for ok, s, g, err in self.receive(sit, sid, [T.sym(8, ("junk", sit.k, j), 0, 255) for j in range(3)], False, "u", what):
            if not ok:
                chk.never(eng, "ignored", s, what + ": refused")
                continue
            for s2, got in self.iterate(s, g, sit.k, what):
                if got:
                    chk.never(eng, "ignored", s2, what + ": yields something")
                else:
                    chk.ok("ignored")
                    out.append(sit.next(s2, op))
        return out

    def op_unknown(self, sit, op, which="request"):
        """data on a stream this endpoint does not have: an error"""
        chk, lab, eng = self.chk, self.lab, self.eng
        what = sit.text + " / " + op
        out = []
        for ok, s, g, err in self.receive(sit, self.absent(which, sit.k), [T.sym(8, ("junk", sit.k, j), 0, 255) for j in range(3)], False, "u", what):
            if ok:
                chk.never(eng, "route", s, what + ": data for an unknown request accepted")
                continue
            chk.ok("route")
            out.append(sit.next(s, op))
        return out

    def op_failure(self, sit, op):
        """the transport reports an error: it must not be delivered as data"""
        chk, lab, eng = self.chk, self.lab, self.eng
        st = sit.st.clone()
        ev = lab.raw(st, "qerr%d" % sit.k, lab.size("qev"))
        _, st = lab.one("vh_qev_error", [ev, T.const(32, sit.k % 3), C64(0), C64(7)], st)
        g, err = lab.raw(st, "gen%d" % sit.k, lab.size(self.role + "gen")), lab.word(st, "gerr%d" % sit.k)
        out = []
        for ok0, s0 in lab.call(self.pre + "recv", [sit.conn, ev, g, err], st):
            for ok, s in outcome(chk, lab, s0, ok0, "route", sit.text + " / " + op):
                if not ok:
                    chk.ok("route")
                    out.append(sit.next(s, op))
                else:
                    _, s = lab.one("vh_%sgen_destroy" % self.role, [g], s)
                    out.append(sit.next(s, op))
        return out

    def op_move(self, sit, op):
        lab = self.lab
        st = sit.st.clone()
        c = lab.raw(st, "conn%d" % (sit.moved + 1), lab.size(self.role + "conn"))
        out = []
        fn = "move"
        if sit.moved:
            _, st = lab.one(self.pre + "make", [c], st)
            fn = "assign"
        for _, s in lab.call(self.pre + fn, [c, sit.conn], st):
            _, s = lab.one(self.pre + "destroy", [sit.conn], s)
            # iterations refer to the connection they came from
            out.append(sit.next(s, op, conn=c, moved=sit.moved + 1,
                                streams=dict((x, dict(e, kept=None)) for x, e in sit.streams.items())))
        return out

    def close(self, sit):
        chk, lab = self.chk, self.lab
        with chk.guard("no abort", sit.text + " / destroy"):
            for _, s in lab.call(self.pre + "destroy", [sit.conn], sit.st.clone()):
                for x, e in sit.streams.items():
                    if e["handle"] is not None:
                        err = lab.word(s, "last" + x)
                        for r, s1 in lab.call("vh_handle_start", [e["handle"], err], s.clone()):
                            chk.same(self.eng, "dropped", s1, r, T.const(1, 0), sit.text + ": handle used after its connection")
                chk.ok("no abort")
            chk.exits(self.eng, "no abort", sit.text + " / destroy")

    def script(self, seq):
        with self.chk.guard("sequence", "%s: %s" % (ROLES[self.role], " / ".join(seq))):
            sits = [self.start()]
            for op in seq:
                sits = [y for x in sits for y in (self.op(x, op) if self.possible(x, op) else [x])]
            for x in sits:
                self.close(x)
            if not sits:
                self.chk.undec("sequence", "%s not completed: %s" % (ROLES[self.role], " / ".join(seq)))

    def walk(self, sit, depth, ops):
        if not depth:
            self.close(sit)
            return
        for op in ops:
            if self.possible(sit, op):
                with self.chk.guard("sequence", sit.text + " / " + op):
                    for x in self.op(sit, op):
                        self.walk(x, depth - 1, ops)


def incoming(cutsets=None):
    ins = {}
    for x, (lines, bodies, cuts_, fin) in dict(
            A=([line_indexed(), line_named("inA", 3)], [5], (1, 5, 9), "with"),
            B=([line_literal("inB", 2)], [2, 3], (4, 11), "after"),
            C=([line_indexed()], [], (3,), "after")).items():
        ins[x] = In("in" + x, lines, bodies, cuts_, fin)
    return ins


def interleavings(xs, ys):
    """some interleavings of two scripts"""
    yield xs + ys
    yield ys + xs
    out, i, j = [], 0, 0
    while i < len(xs) or j < len(ys):
        if i < len(xs):
            out.append(xs[i])
            i += 1
        if j < len(ys):
            out.append(ys[j])
            j += 1
    yield out
    out, i, j = [], 0, 0
    while i < len(xs) or j < len(ys):
        if j < len(ys):
            out.append(ys[j])
            j += 1
        for _ in range(2):
            if i < len(xs):
                out.append(xs[i])
                i += 1
    yield out


def C26(chk):
    lab = make_lab()
    chk.use(lab.eng)
    outs = dict(zip("ABC", (Out("o" + t, m) for t, (_, m) in zip("ABC", MESSAGES))))
    for o in outs.values():
        o.reference(lab, "c")
    drv = Driver(chk, lab, "c", outs, incoming(), dict(A=C64(0), B=C64(4), C=C64(8)))
    jobs = []
    full = lambda x: ["write " + x] * 3 + ["drain"] + ["in " + x] * 5
    late = lambda x: ["write " + x, "send", "send", "send", "in " + x, "in " + x, "write " + x, "drain", "hold " + x, "write " + x, "drain"] + ["in " + x] * 4
    kept = lambda x: ["write " + x] * 2 + ["drain", "keep " + x, "in " + x, "resume " + x, "keep " + x, "write " + x, "drain", "hold " + x,
                                           "keep " + x, "resume " + x, "gone " + x]
    noise = ["uni", "control", "unknown", "uni uni2", "control", "failure", "unknown server", "control", "uni own"]
    scripts = [["request"] + full("A"), ["request"] * 3 + full("C") + full("B") + full("A") + ["request"]]
    over = ["request"] * 3 + full("A") + ["gone A", "write B", "drain", "gone A", "in B", "gone A", "in B", "in B", "in B", "gone B",
                                          "write C", "drain", "gone A", "in C", "in C", "in C", "gone C", "gone B"]
    scripts.append(over)
    scripts.append(["request"] * 3 + full("C") + ["gone C"] + full("B") + ["gone B", "gone C"] + full("A") + ["gone A", "gone B"])
    scripts.append(["request"] * 2 + ["write A"] * 3 + ["drain", "keep A"] + ["in A"] * 4 + ["write B", "drain", "hold B", "hold B", "resume A", "in B"])
    scripts += [["request"] * 2 + s for s in interleavings(kept("A"), kept("B"))]
    for f in (full, late):
        for g in (full, late):
            scripts += [["request"] * 2 + s for s in interleavings(f("A"), g("B"))]
            scripts += [["request"] * 3 + s for s in interleavings(f("B"), g("C"))]
    for f in (full, late):
        scripts += [["request"] + s for s in interleavings(f("A"), noise)]
        scripts += [["request"] + s for s in interleavings(f("A"), ["move", "request", "in B", "move", "in A", "write B", "send"] + full("B"))]
    scripts += [["request", "write A", "send", "send", "write A", "write A", "send", "send", "in A", "in A", "in A", "in A", "write A", "drain", "in A"],
                ["request", "write A", "send", "send", "send", "in A", "in A", "in A", "in A", "in A", "write A", "drain", "request", "write B", "drain"],
                ["send"] * 4 + ["request", "send", "in A", "write A", "send"]]
    for s in scripts:
        jobs.append(lambda s=s: drv.script(s))
    ops = ["request", "write A", "write B", "send", "in A", "in B", "control", "uni", "unknown", "move"]
    deep = 3 if chk.tier == "quick" else 4
    starts = [["request"], ["request", "drain"], ["request", "request", "write A", "write B", "drain"],
              ["request", "request", "write B", "drain", "in B", "in B", "write A"],
              ["request", "request", "write A", "drain", "in A", "in A", "in A", "in A", "write B"]]
    explored(chk, drv, starts, ops, deep, jobs)
    chk.parallel(jobs)
    return chk.finish(3000, "typestate dataflow over the client connection with its streams: every sequence of operations up to a bound from "
                            "several situations, and interleaved exchanges of several requests",
                      expl="Symbolic payloads, unknown stream ids as classes; every emitted piece, routed event and error is compared with the "
                           "specification of the connection.")


def explored(chk, drv, starts, ops, deep, jobs):
    for seq in starts:
        def job(seq=seq):
            sits = [drv.start()]
            with chk.guard("sequence", " / ".join(seq)):
                for op in seq:
                    sits = [y for x in sits for y in drv.op(x, op)]
            return sits
        sits = job()
        if not sits:
            chk.undec("sequence", "start not reached: " + " / ".join(seq))
        for x in sits:
            for op in ops:
                if drv.possible(x, op):
                    def go(x=x, op=op):
                        with chk.guard("sequence", x.text + " / " + op):
                            for y in drv.op(x, op):
                                drv.walk(y, deep - 1, ops)
                    jobs.append(go)


def C27(chk):
    lab = make_lab()
    chk.use(lab.eng)
    outs = dict(zip("ABC", (Out("o" + t, m) for t, (_, m) in zip("ABC", MESSAGES))))
    for o in outs.values():
        o.reference(lab, "s")
    shl = lambda n: T.shl(n, 2)
    ids = dict(A=shl(T.sym(64, ("id", "A"), 11, 20)), B=shl(T.sym(64, ("id", "B"), 0, 10)), C=shl(T.sym(64, ("id", "C"), 21, 40)))
    drv = Driver(chk, lab, "s", outs, incoming(), ids)
    jobs = []
    full = lambda x: ["in " + x] * 5 + ["response " + x] + ["write " + x] * 3 + ["drain", "response " + x]
    late = lambda x: ["hold " + x, "response " + x, "write " + x, "send", "send", "send", "in " + x, "write " + x, "drain", "hold " + x,
                      "write " + x, "drain", "response " + x] + ["in " + x] * 4 + ["response " + x, "drain"]
    kept = lambda x: ["keep " + x, "response " + x, "in " + x, "resume " + x, "keep " + x, "write " + x, "drain", "hold " + x, "keep " + x] + \
        ["write " + x] * 2 + ["drain", "resume " + x, "response " + x]
    noise = ["uni", "control", "missing", "unknown server", "uni uni2", "control", "failure", "missing", "control", "uni own"]
    scripts = [full("A"), full("C") + full("B") + full("A"), late("A") + late("B") + late("C")]
    scripts += list(interleavings(kept("A"), kept("B")))
    scripts.append(["keep A"] + ["in A"] * 4 + ["response A"] + ["write A"] * 3 + ["hold B", "hold B", "drain", "resume A", "in B", "response B", "response A"])
    scripts.append(["keep B"] + ["in B"] * 4 + ["response B"] + ["write B"] * 3 + ["drain", "hold A", "hold A", "resume B", "in A"])
    scripts.append(["response B", "in A", "response B", "response C", "in C", "response B", "in B", "response B"])
    for f in (full, late):
        for g in (full, late):
            scripts += list(interleavings(f("A"), g("B")))
            scripts += list(interleavings(f("B"), g("C")))
    for f in (full, late):
        scripts += list(interleavings(f("A"), noise))
        scripts += list(interleavings(f("A"), ["move"] + f("C")[:4] + ["move"] + f("C")[4:]))
    for s in scripts:
        jobs.append(lambda s=s: drv.script(s))
    ops = ["in A", "in B", "hold B", "response A", "write A", "send", "control", "uni", "unknown server", "missing", "move"]
    deep = 3 if chk.tier == "quick" else 4
    starts = [[], ["in A", "drain", "response A"], ["in A", "in B", "response A", "write A", "response B", "drain"],
              ["in B"] * 3 + ["in A", "response B", "write B", "response A"], ["in A"] * 3 + ["response A", "write A", "write A", "drain"],
              ["in A"] * 4 + ["response A", "write A", "write A", "write A", "send", "send", "send", "send"]]
    explored(chk, drv, starts, ops, deep, jobs)
    chk.parallel(jobs)
    return chk.finish(3000, "typestate dataflow over the server connection with its streams: every sequence of operations up to a bound from "
                            "several situations, and interleaved exchanges of several requests",
                      expl="Symbolic payloads and stream ids (as classes); every emitted piece, routed event, handle and error is compared with "
                           "the specification of the connection.")


# ---- both ends -----------------------------------------------------------------------------

def plain(tag, headers, bodies, order="usual"):
    """a message as application calls on its handle"""
    hs = [("header", n, v) for n, v in headers]
    bs = [("body", n) for n in bodies]
    ops = {"usual": hs + ["start"] + bs + ["fin"], "body first": bs + hs + ["start", "fin"], "ended early": bs + ["fin"] + hs + ["start"]}[order]
    return dict(tag=tag, headers=headers, bodies=bodies, ops=ops)


class Pair:
    """a client and a server connection; the transport hands over the emitted bytes in any cut and order"""

    def __init__(self, chk, lab):
        self.chk, self.lab, self.eng = chk, lab, lab.eng
        self.n = 0

    def raw(self, st, name, size):
        self.n += 1
        return self.lab.raw(st, "%s#%d" % (name, self.n), size)

    def start(self):
        lab = self.lab
        self.n = 0
        st = State()
        self.conn = {}
        for r in "cs":
            self.conn[r] = self.raw(st, r, lab.size(r + "conn"))
            _, st = lab.one("vh_%sconn_make" % r, [self.conn[r]], st)
        return st

    def true(self, st, v, rule, what):
        """the single outcome of a call that has to succeed"""
        t = st.eval(T.icmp("eq", v, T.const(1, 1)))
        if t is None:
            raise Broken("outcome unknown: " + what)
        if not t:
            self.chk.never(self.eng, rule, st, what + ": refused")
        return t

    def request(self, st):
        h, err = self.raw(st, "h", self.lab.size("handle")), self.raw(st, "e", 8)
        v, st = self.single("vh_cconn_request", [self.conn["c"], h, err], st, "request")
        return st, h

    def single(self, fn, args, st, what):
        rs = self.lab.call(fn, args, st)
        if len(rs) != 1:
            self.chk.exits(self.eng, "no abort", what)
            raise Broken("%s: %d outcomes" % (what, len(rs)))
        return rs[0]

    def response(self, st, sid):
        h, err = self.raw(st, "h", self.lab.size("handle")), self.raw(st, "e", 8)
        v, st = self.single("vh_sconn_response", [self.conn["s"], C64(sid), h, err], st, "response")
        return (st, h) if self.true(st, v, "exchange", "response %d" % sid) else (None, None)

    def payload(self, m):
        return [T.sym(8, ("body", m["tag"], j, x), 0, 255) for j, n in enumerate(m["bodies"]) for x in range(n)]

    def write(self, st, h, m, ops, what):
        """these application calls, all of which have to succeed"""
        for op in ops:
            st = st.clone()
            err = self.raw(st, "e", 8)
            if op[0] == "header":
                a = []
                for x in op[1:]:
                    b = x.encode("latin1")
                    self.n += 1
                    a += [st.add_obj(("txt", self.n), "param", len(b), ("const", b), ro=True) if b else
                          st.add_obj(("txt", self.n), "param", C64(1), "undef"), C64(len(b))]
                v, st = self.single("vh_handle_header", [h] + a + [err], st, what)
            elif op[0] == "body":
                j = m["bodies"].index(op[1]) if m["bodies"].count(op[1]) == 1 else self.bodies[m["tag"]]
                self.bodies[m["tag"]] = j + 1
                self.n += 1
                if op[1]:
                    b = given(self.lab, st, "o%d" % self.n, [T.sym(8, ("body", m["tag"], j, x), 0, 255) for x in range(op[1])])
                    st, p = b.st, b.ptr
                else:
                    p = self.raw(st, "b", self.lab.size("buffer"))
                    _, st = self.lab.one("vh_buffer_default", [p], st)
                v, st = self.single("vh_handle_body", [h, p, err], st, what)
            else:
                v, st = self.single("vh_handle_" + op, [h, err], st, what)
            if not self.true(st, v, "exchange", "%s: %s" % (what, op)):
                return None
        return st

    def collect(self, st, role, what):
        """everything the connection wants to send: [(stream, bytes, end)]"""
        lab = self.lab
        out = []
        for n in range(400):
            st = st.clone()
            ev, err = self.raw(st, "ev", lab.size("qev")), self.raw(st, "e", 8)
            v, st = self.single("vh_%sconn_send" % role, [self.conn[role], ev, err], st, what + ": send")
            t = st.eval(T.icmp("eq", v, T.const(1, 1)))
            if t is None:
                raise Broken("send unknown")
            if not t:
                self.chk.same(self.eng, "exchange", st, lab.get(st, err), C64(lab.err("idle")), what + ": end of sending")
                return st, out
            sid, st = lab.one("vh_qev_data_id", [ev], st)
            fin, st = lab.one("vh_qev_data_fin", [ev], st)
            b, st = lab.one("vh_qev_data_buffer", [ev], st)
            bs = read(lab, st, b)
            sid, fin = st.resolve(sid), st.eval(T.icmp("eq", fin, T.const(1, 1)))
            if bs is None or fin is None or sid.kind != "const":
                raise Broken("piece of unknown size")
            _, st = lab.one("vh_qev_destroy", [ev], st)
            out.append((sid.a, bs, fin))
        raise Broken("never idle")

    def deliver(self, st, role, sid, bs, fin, got, what):
        """hands bytes to a connection and appends its events to got[sid]"""
        lab, chk, eng = self.lab, self.chk, self.eng
        st = st.clone()
        self.n += 1
        if bs:
            b = given(lab, st, "i%d" % self.n, bs)
            st, p = b.st, b.ptr
        else:
            p = self.raw(st, "b", lab.size("buffer"))
            _, st = lab.one("vh_buffer_default", [p], st)
        ev, g, err = self.raw(st, "ev", lab.size("qev")), self.raw(st, "g", lab.size(role + "gen")), self.raw(st, "e", 8)
        _, st = lab.one("vh_qev_data", [ev, C64(sid), T.const(1, int(fin)), p], st)
        v, st = self.single("vh_%sconn_recv" % role, [self.conn[role], ev, g, err], st, what)
        if not self.true(st, v, "exchange", what + ": data"):
            return None
        for n in range(60):
            v, st = self.single("vh_%sgen_next" % role, [g], st, what + ": next")
            if st.eval(T.icmp("eq", v, T.const(1, 1))) is False:
                _, st = lab.one("vh_%sgen_destroy" % role, [g], st)
                return st
            hev, err = self.raw(st, "hev", lab.size("hev")), self.raw(st, "e", 8)
            v, st = self.single("vh_%sgen_get" % role, [g, hev, err], st, what + ": get")
            if st.eval(T.icmp("eq", v, T.const(1, 1))) is not True:
                chk.never(eng, "exchange", st, what + ": error %s" % lab.err_name(st.resolve(lab.get(st, err)).a))
                return None
            if not self.event(st, hev, got.setdefault(sid, []), what):
                return None
            _, st = lab.one("vh_hev_destroy", [hev], st)
        chk.never(eng, "exchange", st, what + ": events never end")
        return None

    def event(self, st, ev, got, what):
        lab = self.lab
        kind = kind_of(lab, st, ev)
        x = [kind]
        if kind == "header":
            for f in ("name", "value"):
                n, _ = lab.one("vh_hev_header_%s_size" % f, [ev], st.clone())
                n = st.resolve(n)
                if n.kind != "const":
                    raise Broken("header of unknown size")
                x.append([st.resolve(lab.one("vh_hev_header_%s_at" % f, [ev, C64(j)], st.clone())[0]) for j in range(n.a)])
            v, _ = lab.one("vh_hev_header_fin", [ev], st.clone())
            x.append(st.eval(T.icmp("eq", v, T.const(1, 1))))
        elif kind == "body":
            b, s = lab.one("vh_hev_body_buffer", [ev], st.clone())
            x.append(read(lab, s, b))
            v, _ = lab.one("vh_hev_body_fin", [ev], st.clone())
            x.append(st.eval(T.icmp("eq", v, T.const(1, 1))))
        got.append(tuple(x))
        return True

    def whole(self, st, m, got, what):
        """the events of a stream are exactly this message"""
        chk, eng = self.chk, self.eng
        heads = [e for e in got if e[0] == "header"]
        body = [b for e in got if e[0] == "body" for b in e[1]]
        order = [e[0] for e in got]
        want = ["header"] * len(m["headers"]) + ["body"] * order.count("body") + ["finished"]
        if order != want:
            chk.never(eng, "exchange", st, what + ": events %s" % order)
            return
        for i, ((n, v), e) in enumerate(zip(m["headers"], heads)):
            for f, w, g in (("name", n, e[1]), ("value", v, e[2])):
                if len(w) != len(g):
                    chk.never(eng, "exchange", st, what + ": %s of header %d has %d bytes, expected %d" % (f, i, len(g), len(w)))
                    return
                for j, (a, b) in enumerate(zip(w, g)):
                    chk.same(eng, "exchange", st, b, T.const(8, ord(a)), what + ": %s of header %d, byte %d" % (f, i, j))
            if e[3] is not (i == len(heads) - 1):
                chk.never(eng, "exchange", st, what + ": last header flag of header %d" % i)
        ends = [e[2] for e in got if e[0] == "body"]
        if any(ends[:-1]) or ends and not ends[-1]:
            chk.never(eng, "exchange", st, what + ": end flags of the body %s" % ends)
        want = self.payload(m)
        if len(body) != len(want):
            chk.never(eng, "exchange", st, what + ": %d bytes of body, expected %d" % (len(body), len(want)))
            return
        for j, (a, b) in enumerate(zip(want, body)):
            chk.same(eng, "exchange", st, b, a, what + ": body byte %d" % j)
        chk.ok("exchange")

    # -- a whole exchange
    def exchange(self, msgs, replies, transport, what, early=False):
        chk = self.chk
        self.bodies = dict((m["tag"], 0) for m in msgs + replies)
        st = self.start()
        got = {"s": {}, "c": {}}
        hs = []
        for m in msgs:
            st, h = self.request(st)
            hs.append(h)
        for h, m in zip(hs, msgs):
            st = self.write(st, h, m, m["ops"], what)
            if st is None:
                return
        st, pieces = self.collect(st, "c", what)
        first = dict((sid, b) for sid, b in self.streams(pieces).items())
        deliveries = transport(pieces)
        for k, (sid, bs, fin) in enumerate(deliveries):
            st = self.deliver(st, "s", sid, bs, fin, got["s"], "%s; to the server, part %d" % (what, k + 1))
            if st is None:
                return
        for i, m in enumerate(msgs):
            self.whole(st, m, got["s"].get(4 * i, []), what + "; request %d" % i)
        order = range(len(replies)) if not early else reversed(range(len(replies)))
        for i in order:
            st, h = self.response(st, 4 * i)
            if st is None:
                return
            st = self.write(st, h, replies[i], replies[i]["ops"], what)
            if st is None:
                return
        st, pieces = self.collect(st, "s", what)
        for k, (sid, bs, fin) in enumerate(transport(pieces)):
            st = self.deliver(st, "c", sid, bs, fin, got["c"], "%s; to the client, part %d" % (what, k + 1))
            if st is None:
                return
        for i, m in enumerate(replies):
            self.whole(st, m, got["c"].get(4 * i, []), what + "; response %d" % i)
        for r, sid in (("s", 2), ("c", 3)):
            if [e[0] for e in got[r].get(sid, [])] != ["settings"]:
                chk.never(self.eng, "exchange", st, what + ": the %s sees %s on the control stream" %
                          (ROLES[r], [e[0] for e in got[r].get(sid, [])]))
        chk.exits(self.eng, "no abort", what)

    def streams(self, pieces):
        out = {}
        for sid, bs, fin in pieces:
            b, f = out.get(sid, ([], False))
            out[sid] = (b + bs, f or fin)
        return out


def transports():
    """ways to hand over: pieces -> deliveries; the order within a stream is kept"""
    def join(pieces):
        out = {}
        for sid, bs, fin in pieces:
            b, f = out.get(sid, ([], False))
            out[sid] = (b + bs, f or fin)
        return out

    def chunked(n, mode):
        def run(pieces):
            qs = {}
            for sid, (bs, fin) in join(pieces).items():
                q = [(sid, bs[i:i + n], False) for i in range(0, len(bs), n)]
                if fin and mode % 2:
                    q.append((sid, [], True))
                elif fin:
                    q[-1] = (sid, q[-1][1], True)
                qs[sid] = q
            out = []
            ids = sorted(qs, reverse=mode >= 2)
            while any(qs.values()):
                for sid in ids:
                    if qs[sid]:
                        out.append(qs[sid].pop(0))
            return out
        return run

    def cut(k):
        """every stream cut once, at a position depending on k"""
        def run(pieces):
            out = []
            for sid, (bs, fin) in join(pieces).items():
                c = k % (len(bs) + 1)
                out += [(sid, bs[:c], False)] if c else []
                out.append((sid, bs[c:], fin))
            return [d for d in out if d[1] or d[2]]
        return run
    yield "as sent", lambda p: [d for d in p if d[1] or d[2]]
    yield "joined", lambda p: [(s, b, f) for s, (b, f) in join(p).items()]
    yield "joined, last stream first", lambda p: [(s, b, f) for s, (b, f) in reversed(list(join(p).items()))]
    for n in (1, 2, 3, 7, 20, 50):
        for mode in range(4):
            yield "chunks of %d, order %d" % (n, mode), chunked(n, mode)
    for k in range(0, 90):
        yield "cut at %d" % k, cut(k)


def C39(chk):
    lab = make_lab()
    chk.use(lab.eng)
    everything = "".join(map(chr, range(256)))
    small = plain("m", [(":method", "GET"), (":path", "/a")], [4])
    answer = plain("r", [(":status", "200"), ("server", "bnl")], [3, 2])
    none = plain("n", [(":status", "204")], [])
    odd = plain("o", [(":method", "POST"), (":scheme", "https"), (":authority", "example.org"), (":path", "/index.html"), ("x-a", ""),
                      ("accept", "*/*"), ("\x01\x7f", "\xff\x00")], [63, 0, 64], "body first")
    every = plain("e", [("name%d" % i, everything[i:i + 32]) for i in range(0, 256, 32)], [1, 1, 2], "ended early")
    long_ = plain("l", [("a" * 140, "z" * 200), ("content-length", "\xff" * 130), ("age", "0")], [130])
    reply = plain("p", [(":status", "404"), ("etag", "\"" + "q" * 31 + "\""), ("vary", "origin")], [2, 70], "body first")
    ways = list(transports())
    few = [w for w in ways if w[0] in ("as sent", "joined", "chunks of 1, order 0", "chunks of 1, order 3", "chunks of 7, order 1", "chunks of 20, order 2")]
    big = [w for w in ways if w[0] in ("as sent", "joined", "chunks of 50, order 1", "chunks of 50, order 2", "cut at 3", "cut at 45", "cut at 80")]
    sets = [("one exchange", [small], [answer], ways), ("empty answer", [small], [none], ways[:27:2]), ("odd headers", [odd], [reply], few),
            ("every byte", [every], [dict(every, tag="f")], big), ("long fields", [long_], [dict(long_, tag="g")], big),
            ("three exchanges", [small, odd, dict(none, tag="k")], [answer, reply, none], few),
            ("two exchanges", [dict(small, tag="x"), small], [none, answer], ways[:27] + ways[27::7])]
    jobs = []
    for name, ms, rs, ws in sets:
        for label, tr in ws:
            def job(name=name, ms=ms, rs=rs, label=label, tr=tr):
                what = "%s, %s" % (name, label)
                with chk.guard("exchange", what):
                    p = Pair(chk, lab)
                    p.exchange(ms, rs, tr, what, early=name.startswith("three"))
            jobs.append(job)
        chk.sample({"exchange": name, "messages": [(m["headers"] if len(str(m["headers"])) < 300 else len(m["headers"]), m["bodies"]) for m in ms + rs],
                    "ways": len(ws)})
    chk.parallel(jobs)
    return chk.finish(10000, "byte tracking over compiler IR through both connections: messages with symbolic bodies, for each way of cutting "
                             "and interleaving the streams",
                      expl="Header fields of every kind (indexed, named, literal, every byte value, long), bodies of symbolic bytes; the events at "
                           "the other end are compared with what was written, in both directions.")
