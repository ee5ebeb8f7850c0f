"""C35: no failure is dropped: every result of a fallible operation is looked at on every path, and a
failure at any call site reaches the caller."""
import re
from concurrent.futures import ThreadPoolExecutor
from .lab import *
from absint import ditypes as D
from absint.llvmir import Reg, demangle
from absint.engine import short
from . import lab as LAB

RESULT = "basic_result"
DTOR = re.compile(r"D[012]Ev\Z")
QUIET = ("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias")


def return_types(prog):
    paths = list(prog.compiled.values())
    with ThreadPoolExecutor(8) as ex:
        out = {}
        for r in ex.map(D.returns, paths):
            out.update(r)
    return out


# ---- every result is looked at -------------------------------------------------------------

def callee(inst):
    c = inst.x["callee"]
    return c.a if getattr(c, "kind", None) == "func" else None


def dropped(fn, call, callee_fn):
    """a path (list of lines) from the call to the function's end on which its result is not looked at, or None"""
    sret = callee_fn.attr(1, "sret")
    insts = [i for b in fn.blocks for i in b.insts]
    regs = set()                      # registers holding (parts of) the result
    slots = set()                     # pointers to the place holding it
    if sret:
        if not isinstance(call.ops[0], Reg) or call.ops[0].id in [a for a, _ in fn.args]:
            return None               # written to the function's own result
        slots.add(call.ops[0].id)
    else:
        regs.add(call.id)
    consult = set()
    while True:
        n = (len(regs), len(slots))
        by_id = {i.id: i for i in insts}
        for s in list(slots):         # the whole object a pointer belongs to
            i = by_id.get(s)
            if i is not None and i.op in ("gep", "bitcast") and isinstance(i.ops[0], Reg):
                slots.add(i.ops[0].id)
        for i in insts:
            ids = [o.id for o in i.ops if isinstance(o, Reg)]
            if i is call:
                continue
            if i.op in ("gep", "bitcast") and i.ops and isinstance(i.ops[0], Reg) and i.ops[0].id in slots:
                slots.add(i.id)
            elif i.op == "store":
                if isinstance(i.ops[0], Reg) and i.ops[0].id in regs and isinstance(i.ops[1], Reg):
                    slots.add(i.ops[1].id)
                elif isinstance(i.ops[0], Reg) and i.ops[0].id in slots:
                    consult.add(i.id)
            elif i.op in ("extractvalue", "insertvalue") and any(x in regs for x in ids):
                regs.add(i.id)
            elif any(x in regs or x in slots for x in ids):
                if i.op in ("call", "invoke"):
                    c = callee(i)
                    if c and (DTOR.search(c) or c.startswith(QUIET)):
                        continue
                consult.add(i.id)
            elif i.op == "phi" and any(isinstance(v, Reg) and (v.id in regs or v.id in slots) for _, v in i.x["inc"]):
                consult.add(i.id)
        if n == (len(regs), len(slots)):
            break
    # a path without any of these
    b = fn.blocks[call.blk]
    k = b.insts.index(call)
    todo = [(call.blk, k + 1, ())]
    seen = set()
    if call.op == "invoke":
        todo = [(call.x["succ"][0], 0, ())]
    while todo:
        bi, k, path = todo.pop()
        blk = fn.blocks[bi]
        if k == 0:
            if bi in seen:
                continue
            seen.add(bi)
        path = path + tuple(sorted(set(i.line for i in blk.insts[k:k + 1] if i.line)))
        stop = False
        for i in blk.insts[k:]:
            if i.id in consult:
                stop = True
                break
            if i is call:
                return path + ("again",)
            if i.op == "ret":
                return path + ("return at line %d" % i.line,)
            if i.op in ("resume", "unreachable"):
                stop = True
                break
        if stop:
            continue
        t = blk.insts[-1]
        nx = t.x["succ"][:1] if t.op == "invoke" else blk.succs
        todo += [(s, 0, path) for s in nx]
    return None


def sites(prog, fallible):
    """all call sites of fallible operations in the libraries' own functions"""
    out = []
    done = set()
    for m in prog.modules:
        for n, f in m.funcs.items():
            if f.is_decl or n in done or "3bnl" not in n or n.startswith("vh_") or not f.dem.startswith(("bnl::",)) and \
                    " bnl::" not in f.dem.split("(")[0]:
                continue
            done.add(n)
            for b in f.blocks:
                for i in b.insts:
                    if i.op in ("call", "invoke") and callee(i) in fallible:
                        out.append((f, i, callee(i), prog.resolve(m, callee(i))))
    return out


# ---- a failure reaches the caller ----------------------------------------------------------

# entry points of the harness whose boolean result says whether the operation succeeded
STATUS = re.compile(r"vh_(\w+)_(send|recv|process|header|body|start|fin|encode|decode|peek|add|seal|get|request|response|next)\w*\Z")
SAYS_NO_FAILURE = re.compile(r"vh_\w*(closed|finished|_has|started|fin_get)\Z")


class Faults:
    """runs every fallible call site once with a failing outcome and looks what the caller makes of it"""

    def __init__(self, chk, fallible, failing):
        self.chk, self.fallible, self.failing = chk, fallible, failing
        self.target = None
        self.seen = None
        self.done = {}
        self.busy = False

    def match(self, dem):
        return False

    def attach(self, lab):
        eng = lab.eng
        names = self.fallible
        old = eng.hook_for

        def hook_for(fn):
            h = old(fn)
            if fn.name in names:
                def run(eng, st, args, fn, inst, h=h):
                    r = self.hook(lab, st, args, fn, inst, h)
                    if r is not None:
                        return r
                    return h(eng, st, args, fn, inst) if h else None
                return run
            return h
        eng.hook_for = hook_for

    def hook(self, lab, st, args, fn, inst, h):
        if inst is None or inst.fn is None or "3bnl" not in inst.fn.name:
            return None
        key = (inst.fn.name, inst.id)
        if self.seen is not None:
            self.seen.setdefault(key, (inst, fn))
        if key != self.target or any(e[0] == "fault" for e in st.events):
            return None
        # an operation may fail only where it could have succeeded: a failure it has anyway is followed as it is
        self.target = None
        try:
            real = self.real(lab, st, args, fn, inst, h)
        finally:
            self.target = key
        name = self.failing[self.fallible[fn.name]]
        if not any(self.succeeded(lab, name, args, r, s) for r, s in real):
            self.chk.notes["fails @ %s %d" % key] = 1
            return real
        st = st.clone()
        st.event("fault", key)
        self.injected = True
        mk = lab.fn(name)
        a = [args[0]] if mk.attr(1, "sret") else []
        return lab.eng.call(mk, a + [C64(lab.err("internal"))], st)

    def real(self, lab, st, args, fn, inst, h):
        st = st.clone()
        if h is not None:
            r = h(lab.eng, st, args, fn, inst)
            if r is not None:
                return r
            st = st.clone()
        return lab.eng.exec_fn(fn, args, st, inst)

    def succeeded(self, lab, mk, args, r, s):
        s = s.clone()
        if lab.fn(mk).attr(1, "sret"):
            p = args[0]
        else:
            p = lab.raw(s, "fault result", 16)
            parts = r.v if isinstance(r, Agg) else [r]
            lab.eng.raw_write(s, p.obj, s.mem[p.obj], C64(0), parts[0].w // 8, parts[0])
            if len(parts) > 1:
                lab.eng.raw_write(s, p.obj, s.mem[p.obj], C64(8), parts[1].w // 8, parts[1])
        return any(s2.eval(T.icmp("eq", v, T.const(v.w, 0))) is not True
                   for v, s2 in lab.eng.call(lab.fn(mk.replace("vh_fail_", "vh_has_")), [p], s))

    def call(self, lab, plain, name, args, st):
        m = STATUS.match(name)
        if not m or SAYS_NO_FAILURE.search(name) or self.busy or self.chk.off() and self.chk.focus != "faults":
            return plain(lab, name, args, st)
        self.busy = True
        self.seen = {}
        st0 = st.clone()
        try:
            n0 = len(lab.eng.exits)
            out = plain(lab, name, args, st)
            seen, self.seen = self.seen, None
            with self.chk.on():
                bad = [e for e in lab.eng.exits[n0:] if e.kind in ("throw", "terminate", "abort")]
                for e in bad:
                    self.chk.never(lab.eng, "nothing escapes", e.st, "%s: %s %s (in %s)" % (name[3:], e.kind, e.info, " > ".join(e.stack[-3:])), e.where)
                if not bad:
                    self.chk.ok("nothing escapes")
            for key, (inst, fn) in seen.items():
                if self.done.get((key, name), 0) >= 2:
                    continue
                self.injected = False
                self.target = key
                saved, lab.eng.exits = lab.eng.exits, []
                try:
                    with self.chk.guard("propagated", "%s at %s" % (short(fn.dem), short(inst.fn.dem))):
                        self.judge(lab, plain, name, args, st0.clone(), key, inst, fn)
                finally:
                    lab.eng.exits = saved
                    self.target = None
                    self.done[key, name] = self.done.get((key, name), 0) + int(self.injected)
        finally:
            self.busy = False
            self.seen = None
        return out

    def judge(self, lab, plain, name, args, st, key, inst, fn):
        chk, eng = self.chk, lab.eng
        what = "%s fails in %s (line %d), reached through %s" % (short(fn.dem), short(inst.fn.dem), inst.line, name[3:])
        where = "%s:%d" % (inst.file, inst.line)
        with chk.on():
            for r, s in plain(lab, name, args, st):
                if not any(e[0] == "fault" for e in s.events):
                    continue
                ok = s.eval(T.icmp("eq", r, T.const(r.w, 0)))
                if name.endswith("gen_next"):
                    if ok is not False:
                        chk.never(eng, "propagated", s, what + ": nothing is yielded", where)
                        continue
                    ev, err = lab.raw(s, "fault event", lab.size("hev")), lab.word(s, "fault error")
                    for r2, s2 in plain(lab, name[:-4] + "get", [args[0], ev, err], s):
                        self.verdict(lab, s2, s2.eval(T.icmp("eq", r2, T.const(1, 0))), err, what, where)
                else:
                    self.verdict(lab, s, ok, args[-1], what, where)
                chk.notes["fault @ %s in %s" % (short(fn.dem), short(inst.fn.dem))] = 1
                chk.notes["site @ %s %d" % key] = 1
            for e in eng.exits:
                if e.kind != "bound":
                    chk.never(eng, "propagated", e.st, "%s: then %s %s (in %s)" % (what, e.kind, e.info, " > ".join(e.stack[-3:])), where)
            eng.exits = []

    def verdict(self, lab, s, failed, err, what, where):
        chk, eng = self.chk, lab.eng
        if failed is None:
            chk.undec("propagated", what + ": outcome unknown")
        elif not failed:
            chk.never(eng, "propagated", s, what + ": reported as success", where)
        else:
            e = s.resolve(lab.get(s, err))
            if e.kind != "const":
                chk.undec("propagated", what + ": error unknown")
            elif lab.err_name(e.a) in ("idle", "incomplete", "delegate", "no_error"):
                chk.never(eng, "propagated", s, what + ": reported as %s" % lab.err_name(e.a), where)
            else:
                chk.ok("propagated")


def C35(chk):
    from . import connection, sections, frame, qpack, codec, literal, endpoint
    base = Lab(F.lib_sources("http3") + F.BASE, ["h_base.cpp", "h_fail.cpp", "h_connection.cpp"])
    types = return_types(base.prog)
    failing = {t: n for n, t in types.items() if n.startswith("vh_fail_")}
    fallible = {n: t for n, t in types.items() if RESULT in t and t in failing and "3bnl" in n}
    other = sorted(n for n, t in types.items() if RESULT in t and t not in failing and n.startswith("_ZN") and "3bnl" in n)
    # 1. every result is looked at
    all_sites = sites(base.prog, fallible)
    for f, i, n, c in all_sites:
        where = "%s:%d" % (i.file, i.line)
        what = "result of %s in %s" % (short(demangle(n)), short(f.dem))
        p = dropped(f, i, c)
        if p is None:
            chk.ok("looked at")
        else:
            chk.fail("looked at", "%s is ignored on a path (lines %s)" % (what, ", ".join(map(str, p))), where)
    chk.use(base.eng)
    if len(all_sites) < 60 or len(fallible) < 50:
        raise Broken("only %d sites of %d fallible operations found" % (len(all_sites), len(fallible)))
    # 2. a failure reaches the caller
    faults = Faults(chk, fallible, failing)
    plain, init = LAB.Lab.call, LAB.Lab.__init__

    def made(self, sources, models, *a, **k):
        init(self, sources, list(models) + (["h_fail.cpp"] if "h_fail.cpp" not in models else []), *a, **k)
        faults.attach(self)

    def called(self, name, args, st):
        return faults.call(self, plain, name, args, st)
    LAB.Lab.__init__, LAB.Lab.call = made, called
    chk.focus = "faults"
    try:
        for n, run in PARTS:
            chk.part = n
            try:
                run(chk)
            except Broken as e:
                chk.broken.append("%s: %s" % (n, e))
                with chk.on():
                    chk.undec("propagated", "%s: %s" % (n, e))
    finally:
        LAB.Lab.__init__, LAB.Lab.call = init, plain
        chk.focus, chk.part = None, ""
    hit = set(k[7:] for k in chk.notes if k.startswith("site @ "))
    covered = sorted(k[8:] for k in chk.notes if k.startswith("fault @ "))
    fails = set(k[8:] for k in chk.notes if k.startswith("fails @ "))
    for k in list(chk.notes):
        if k.startswith(("site @ ", "fault @ ", "fails @ ")):
            del chk.notes[k]
    missing = ["%s in %s (line %d)" % (short(demangle(n)), short(f.dem), i.line) for f, i, n, c in all_sites
               if "%s %d" % (f.name, i.id) not in hit | fails]
    only = [1 for f, i, n, c in all_sites if "%s %d" % (f.name, i.id) in fails - hit]
    chk.notes["sites reached only where the operation fails anyway"] = len(only)
    for m in missing:
        chk.undec("propagated", m + ": not reached")
    chk.notes["call sites of fallible operations"] = len(all_sites)
    chk.notes["failures followed"] = covered
    chk.notes["fallible operations"] = len(fallible)
    return chk.finish(400, "def-use dataflow over compiler IR for every call site of a fallible operation, and failure propagation: each site "
                           "replaced by a contract that fails, followed to the entry point",
                      expl="A site counts as propagated when the entry point reports failure in every abstract state in which the operation failed.")


def scripts(role):
    def run(chk):
        from . import connection as K
        lab = K.make_lab()
        chk.use(lab.eng)
        outs = dict(zip("ABC", (K.Out("o" + t, m) for t, (_, m) in zip("ABC", K.MESSAGES))))
        for o in outs.values():
            o.reference(lab, role)
        drv = K.Driver(chk, lab, role, outs, K.incoming(), dict(A=C64(0), B=C64(4), C=C64(8)))
        if role == "c":
            seqs = [["request"] * 2 + ["write A", "write B", "drain", "control", "in A", "control", "write A", "drain", "in B", "control"] +
                    ["in A"] * 3 + ["write A", "in B", "in B", "uni", "failure", "in B", "drain"],
                    ["request", "write A", "write A", "write A", "drain", "in A", "in A", "in A", "in A"]]
        else:
            seqs = [["in A", "control", "in A", "control", "response A", "in A", "in B", "control", "write A", "drain", "write A", "in A", "in A",
                     "drain", "response B", "write B", "write A", "in B", "drain", "in B", "in B", "uni"]]
        chk.parallel([lambda s=s: drv.script(s) for s in seqs])
    return run


def codecs(chk):
    """each codec given bytes that it accepts, in every kind of container"""
    from . import frame, qpack, sections, codec
    vi = lambda v: [b for b in bytes(x.a for x in frame.const_varint(v))]
    fr = lambda t, payload, n=None: vi(t) + vi(len(payload) if n is None else n) + payload
    name = lambda k, n: "vh_%s_decode_%s" % (n, k)
    prefix = [0, 0]
    static, named, literal = [0xc1], [0x51, 0x03] + list(b"/ab"), [0x23] + list(b"foo") + [0x03] + list(b"bar")
    huff = [0x51, 0x82, 0x18, 0xe3]
    frames = [fr(0, [], 5), fr(1, [], 5), fr(2, [0x50, 1, 2, 7]), fr(3, [9]), fr(4, [6, 1, 9, 2, 1, 3, 7, 4]), fr(5, [1], 6), fr(7, [4]),
              fr(0xd, [4]), fr(0xe, [4]), fr(0x21, [1, 2]) + fr(7, [4])]
    lines = [static, named, literal, huff]
    runs = []

    def containers(lab, bs, kinds):
        for kind in kinds:
            st = State()
            half = len(bs) // 2
            cut = [bs] if kind in ("buffer", "blook") else [bs[:half], bs[half:]]
            bufs = []
            for j, part in enumerate(cut):
                q = sections.given(lab, st, "p%d" % j, [T.const(8, b) for b in part])
                st = q.st
                bufs.append(q.ptr)
            p = bufs[0]
            if kind in ("buffers", "bslook"):
                p = st.add_obj(("chain",), "param", lab.size("buffers"))
                _, st = lab.one("vh_buffers_default", [p], st)
                for b in bufs:
                    _, st = lab.one("vh_buffers_push", [p, b], st)
            if kind in ("blook", "bslook"):
                l = st.add_obj(("look",), "param", lab.size(kind))
                _, st = lab.one("vh_%s_make" % kind, [l, p], st)
                p = l
            yield kind, st, p

    def succeeds(lab, outs):
        if not any(s.eval(T.icmp("eq", r, T.const(r.w, 1))) is True for r, s in outs):
            raise Broken("input not accepted")
        return next(s for r, s in outs if s.eval(T.icmp("eq", r, T.const(r.w, 1))) is True)

    def plain(make, prepare, calls, bs, kinds=("buffer", "buffers", "blook", "bslook")):
        def run():
            lab = make()
            chk.use(lab.eng)
            for kind, st, p in containers(lab, bs, kinds):
                obj, st = prepare(lab, st)
                out, err = lab.raw(st, "out", 256), lab.word(st, "err")
                for c in calls(kind):
                    st = succeeds(lab, lab.call(c[0], ([obj] if obj is not None else []) + [p] + [x for x in c[1:]] + [out, err], st))
        return run
    none = lambda lab, st: (None, st)

    def object_of(key):
        def f(lab, st):
            d = lab.raw(st, "dec", lab.size(key))
            _, st = lab.one("vh_%s_make" % key, [d], st)
            return d, st
        return f
    full = lambda h: lambda: Lab(F.lib_sources("http3") + F.BASE, ["h_base.cpp"] + h)
    flab, qlab, clab, slab = full(["h_frame.cpp"]), full(["h_qpack.cpp"]), full(["h_codec.cpp"]), full(["h_section.cpp"])
    for f in frames:
        runs.append(plain(flab, none, lambda k: [(name(k, "frame"),)], f))
    runs.append(plain(flab, none, lambda k: [("vh_frame_peek_" + k,)], frames[-1]))
    for l in lines:
        runs.append(plain(qlab, object_of("qdec"), lambda k: [(name(k, "qdec"),)], prefix + l, ("buffer", "buffers")))
        runs.append(plain(slab, object_of("hdec"), lambda k: [(name(k, "hdec"),)], fr(1, prefix + l), ("buffer", "buffers")))
    runs.append(plain(slab, object_of("bdec"), lambda k: [(name(k, "bdec"),)], fr(0, [1, 2, 3]), ("buffer", "buffers")))
    runs.append(plain(clab, none, lambda k: [(name(k, "varint"),)], vi(77)))
    runs.append(plain(clab, none, lambda k: [(name(k, "prefix_int"), T.const(8, 5))], [0x1f, 0x9a, 0x0a]))
    runs.append(plain(clab, none, lambda k: [(name(k, "literal"), T.const(8, 3))], [0x03] + list(b"abc")))
    runs.append(plain(clab, none, lambda k: [(name(k, "literal"), T.const(8, 7))], huff[1:]))
    runs.append(plain(clab, none, lambda k: [(name(k, "huffman"), C64(2))], huff[2:]))

    def encode():
        lab = flab()
        chk.use(lab.eng)
        for t, a in (("data", [5]), ("headers", [5]), ("priority", [0, 1, 1, 2, 7]), ("settings", [1, 2, 3, 4]), ("cancel_push", [9]),
                     ("push_promise", [1, 6]), ("goaway", [4]), ("max_push_id", [4]), ("duplicate_push", [4])):
            st = State()
            f = lab.raw(st, "frame", lab.size("frame"))
            w = {"priority": (8, 8, 64, 64, 8)}.get(t, (64,) * len(a))
            _, st = lab.one("vh_frame_" + t, [f] + [T.const(n, x) for n, x in zip(w, a)], st)
            d, out, err = lab.raw(st, "dest", 64), lab.word(st, "out"), lab.word(st, "err")
            b = lab.raw(st, "buf", lab.size("buffer"))
            succeeds(lab, lab.call("vh_frame_encoded_size", [f, out, err], st))
            succeeds(lab, lab.call("vh_frame_encode_raw", [d, f, out, err], st))
            succeeds(lab, lab.call("vh_frame_encode_buf", [b, f, err], st))
    runs.append(encode)

    def varint():
        lab = clab()
        chk.use(lab.eng)
        st = State()
        d, out, err, b = lab.raw(st, "dest", 64), lab.word(st, "out"), lab.word(st, "err"), lab.raw(st, "buf", lab.size("buffer"))
        succeeds(lab, lab.call("vh_varint_encoded_size", [C64(77), out, err], st))
        succeeds(lab, lab.call("vh_varint_encode_raw", [d, C64(77), out, err], st))
        succeeds(lab, lab.call("vh_varint_encode_buf", [b, C64(77), err], st))
    runs.append(varint)

    def fields():
        lab = qlab()
        chk.use(lab.eng)
        for n, v in ((":method", "GET"), (":path", "/x"), ("foo", "bar")):
            st = State()
            e = lab.raw(st, "enc", lab.size("qenc"))
            _, st = lab.one("vh_qenc_make", [e], st)
            d, out, err, b = lab.raw(st, "dest", 64), lab.word(st, "out"), lab.word(st, "err"), lab.raw(st, "buf", lab.size("buffer"))
            a = list(qpack.text(lab, st, "name", n) + qpack.text(lab, st, "value", v))
            succeeds(lab, lab.call("vh_qenc_encoded_size", [e] + a + [out, err], st))
            succeeds(lab, lab.call("vh_qenc_encode_raw", [e, d] + a + [out, err], st))
            succeeds(lab, lab.call("vh_qenc_encode_buf", [e, b] + a + [err], st))
    runs.append(fields)

    def streams(role, kind, parts, succ):
        """data arriving on a stream, followed by the processing it allows"""
        def run():
            lab = full(["h_endpoint.cpp", "h_event.cpp"])()
            chk.use(lab.eng)
            key = "%s%srecv" % (role, kind[0])
            st = State()
            err = lab.word(st, "err")
            r = lab.raw(st, "receiver", lab.size(key))
            sid = C64(4) if kind == "request" else C64(3 if role == "c" else 2)
            _, st = lab.one("vh_%s_make" % key, [r] + ([sid] if kind == "request" else []), st)
            if kind == "request":
                st = succeeds(lab, lab.call("vh_%s_start" % key, [r, err], st))
            for j, (part, n) in enumerate(zip(parts, succ)):
                q = sections.given(lab, st, "p%d" % j, [T.const(8, b) for b in part])
                st = succeeds(lab, lab.call("vh_%s_recv" % key, [r, sid, T.const(1, int(kind == "request" and j == len(parts) - 1)), q.ptr, err], q.st))
                for _ in range(n):
                    ev = lab.raw(st, "event", 256)
                    st = succeeds(lab, lab.call("vh_%s_process" % key, [r, ev, err], st))
                ev = lab.raw(st, "event", 256)
                lab.call("vh_%s_process" % key, [r, ev, err], st)
        return run
    head = fr(1, prefix + static)
    for role in "cs":
        runs.append(streams(role, "control", [[0] + fr(4, [6, 1]), fr(7, [4]), fr(3, [4])], (1, 0, 0)))
        for extra in (fr(3, [4]), fr(5, [1]), fr(0x21, [7]), []):
            runs.append(streams(role, "request", [head, fr(0, [7, 8]), extra], (1, 1, 0)))
    chk.parallel(runs)


PARTS = [("codecs", codecs), ("client", scripts("c")), ("server", scripts("s"))]
