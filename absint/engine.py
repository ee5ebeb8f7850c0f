"""Forward abstract interpretation of LLVM IR over state.State.

Worklist in reverse post-order per activation; callees are analysed in the caller's
abstract state (full context sensitivity); states that agree on live registers, memory
and event trace are joined at control-flow joins and at returns.
"""
import re
import sys
import time
from . import terms as T
from .state import State, Ptr, Fn, Agg, Blob, Ghost, Obj
from .llvmir import Reg, K, demangle

sys.setrecursionlimit(100000)
NULL = T.const(64, 0)


LIMIT = [0]     # deadline (monotonic clock) of the current obligation


class Broken(Exception):
    """the analysis cannot proceed (unmodelled construct): never a verdict"""


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class SplitVals(Exception):
    def __init__(self, term, vals):
        self.term, self.vals = term, vals


class Halt(Exception):
    """path ends abnormally"""

    def __init__(self, kind, info):
        self.kind, self.info = kind, info


class Exit:
    __slots__ = ("kind", "info", "st", "stack", "where")

    def __init__(s, kind, info, st, stack, where):
        s.kind, s.info, s.st, s.stack, s.where = kind, info, st, stack, where

    def __repr__(s):
        return "%s: %s at %s" % (s.kind, s.info, s.where)


class Item:
    __slots__ = ("blk", "regs", "st", "loops", "forks")


def short(dem):
    """function name without parameters / template noise for reports"""
    d = re.sub(r"\(anonymous namespace\)", "anon", dem)
    d = re.sub(r" \[clone .*\]", "", d)
    depth, out = 0, []
    for c in d:
        if c == "<":
            depth += 1
        if depth == 0:
            out.append(c)
        if c == ">":
            depth -= 1
    d = "".join(out)
    return d.split("(")[0].split(" ")[-1]


def base_name(dem):
    """qualified name with template arguments removed, no params, no return type"""
    return _base_cache.get(dem) or _base(dem)


_base_cache = {}


def _base(dem):
    d = dem.replace("(anonymous namespace)", "anon").replace("operator()", "operator@call")
    d = d.replace("operator<<", "operator@shl").replace("operator<", "operator@lt").replace("operator>", "operator@gt")
    d = d.replace("operator->", "operator@arrow")
    depth, out = 0, []
    i = 0
    while i < len(d):
        c = d[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            if c == "(":
                break
            out.append(c)
        i += 1
    r = "".join(out)
    # drop a return type (templates are demangled with one)
    parts = r.split(" ")
    if "operator" in r:
        k = next(j for j, p in enumerate(parts) if "operator" in p)
        r = " ".join(parts[k:])
    else:
        r = parts[-1]
    _base_cache[dem] = r
    return r


class Engine:
    def __init__(self, prog, hooks=(), unroll=3, max_steps=10**12, max_visits=4096):
        self.prog = prog
        self.hooks = []
        for h in hooks:
            self.add_hook(*h)
        self.exits = []
        self._hook_cache = {}
        self._glob = {}
        self.cps = {}
        self.steps = 0
        self.max_steps = max_steps
        self.max_visits = max_visits
        self.unroll = unroll
        self.stack = []
        self.analysed = {}      # function name -> set of analysed instruction ids (coverage)
        self.undecided_bounds = 0
        self.loop_cut = {}
        self.merges = 0
        self.forks = 0
        self.obligations = {}
        self.no_merge = False
        self.ext = dict(EXT)

    def add_hook(self, pat, fn):
        self.hooks.append((re.compile(pat + r"\Z"), fn))
        self._hook_cache = {}

    # ---- public ---------------------------------------------------------
    def find(self, pat, params=None):
        """functions whose base name equals pat (and whose demangled name matches params)"""
        out, seen = [], set()
        for dem, fs in self.prog.by_dem.items():
            if base_name(dem) == pat and (params is None or re.search(params, dem)):
                f = self.prog.defs.get(fs[0].name, fs[0])
                if f.name not in seen:
                    seen.add(f.name)
                    out.append(f)
        return out

    def get(self, pat, params=None):
        fs = self.find(pat, params)
        if len(fs) != 1:
            # constructors: prefer complete-object variants (C1) and non-clones
            c = [f for f in fs if "C1E" in f.name or "D1E" in f.name]
            if len(c) == 1:
                return c[0]
            c = [f for f in fs if "C2E" in f.name or "D2E" in f.name]
            if len(c) == 1 and all("C2E" in f.name or "C1E" in f.name or "D2E" in f.name or "D1E" in f.name or
                                   "D0E" in f.name for f in fs):
                return c[0]
            raise Broken("anchor %s %s resolves to %d functions: %s" % (pat, params or "", len(fs), [f.dem for f in fs][:6]))
        return fs[0]

    def call(self, fn, args, st):
        """run fn abstractly from (a copy of) st; list of (ret, State)"""
        if isinstance(fn, str):
            fn = self.get(fn)
        return self.exec_call(None, fn, list(args), st.clone())

    def obligation(self, kind, n=1):
        self.obligations[kind] = self.obligations.get(kind, 0) + n

    # ---- calls -------------------------------------------------------------
    def hook_for(self, fn):
        h = self._hook_cache.get(fn.name, 0)
        if h == 0:
            h = None
            for pat, f in self.hooks:
                if pat.match(base_name(fn.dem)) or pat.match(fn.dem):
                    h = f
                    break
            if h is None:
                for pat, f in DEFAULT_HOOKS:
                    if pat.match(fn.dem):
                        h = f
                        break
            self._hook_cache[fn.name] = h
        return h

    def exec_call(self, inst, fn, args, st):
        h = self.hook_for(fn)
        if h is not None:
            st2 = st.clone()
            st2.pc = st.pc
            r = h(self, st2, args, fn, inst)
            if r is not None:
                return r
        if fn.is_decl:
            d = self.prog.elsewhere(fn.name)
            if d is not None:
                return self.exec_fn(d, args, st, inst)
            e = self.ext.get(fn.name)
            if e is None:
                for p, f in EXT_PREFIX:
                    if fn.name.startswith(p):
                        e = f
                        break
            if e is None:
                raise Broken("no model for external function %s" % fn.dem)
            return e(self, st, args, fn, inst)
        return self.exec_fn(fn, args, st, inst)

    def exec_fn(self, fn, args, st, site):
        self.stack.append((fn, site))
        if len(self.stack) > 220:
            raise Broken("recursion too deep in %s" % fn.dem)
        try:
            return self._exec_fn(fn, args, st, site)
        finally:
            self.stack.pop()

    def cp(self, fn, site):
        parent = self._cpstack[-1] if self._cpstack else 0
        key = (parent, fn.name, site.fn.name if site is not None and site.fn is not None else None,
               site.id if site is not None else None)
        n = self.cps.get(key)
        if n is None:
            n = self.cps[key] = len(self.cps) + 1
        return n

    _cpstack = []

    def _exec_fn(self, fn, args, st, site):
        cp = self.cp(fn, site)
        self._cpstack = self._cpstack + [cp]
        saved = self._cpstack
        try:
            return self._run(fn, args, st, cp)
        finally:
            self._cpstack = saved[:-1]

    def _run(self, fn, args, st, cp):
        regs = {}
        for (rid, ty), a in zip(fn.args, args):
            regs[rid] = a
        blocks = fn.blocks
        npred = getattr(fn, "_npred", None)
        if npred is None:
            npred = [0] * len(blocks)
            for b in blocks:
                for s in b.succs:
                    npred[s] += 1
            fn._npred = npred
            fn._allocas = [i.id for b in blocks for i in b.insts if i.op == "alloca"]
        cov = self.analysed.setdefault(fn.name, set())
        results = []
        pend = {}
        it = Item()
        it.blk, it.regs, it.st, it.loops, it.forks = 0, regs, st, {}, 0
        pend[0] = [it]
        while pend:
            bi = min(pend, key=lambda b: blocks[b].rpo)
            items = pend.pop(bi)
            if len(items) > 1 and not self.no_merge:
                items = self._merge(blocks[bi], items)
            cov.add(bi)
            for it in items:
                self._block(fn, blocks[bi], it, cp, pend, results, npred)
        # drop the frame
        out, idx = [], {}
        for rv, s in results:
            for a in fn._allocas:
                s.mem.pop(("a", cp, a), None)
            if not self.no_merge and len(results) > 1:
                key = (rv, s.key())
                j = idx.get(key)
                if j is not None:
                    out[j][1].join(s)
                    self.merges += 1
                    continue
                idx[key] = len(out)
            out.append((rv, s))
        return out

    def _merge(self, blk, items):
        out, idx = [], {}
        for it in items:
            live = blk.live_in
            phis = [i.id for i in blk.insts if i.op == "phi"]
            k = tuple((r, it.regs.get(r)) for r in sorted(live)) + tuple(it.regs.get(p) for p in phis)
            key = (k, it.st.key())
            j = idx.get(key)
            if j is None:
                idx[key] = len(out)
                out.append(it)
            else:
                o = out[j]
                o.st.join(it.st)
                for h, (v, u, f) in it.loops.items():
                    if h in o.loops:
                        a = o.loops[h]
                        o.loops[h] = (max(a[0], v), max(a[1], u), max(a[2], f))
                    else:
                        o.loops[h] = (v, u, f)
                o.forks = max(o.forks, it.forks)
                self.merges += 1
        return out

    def where(self, inst=None):
        for fn, site in reversed(self.stack):
            pass
        loc = "?"
        if inst is not None and inst.file:
            loc = "%s:%d" % (inst.file, inst.line)
        return loc

    def path(self):
        return [short(f.dem) for f, _ in self.stack]

    def exit(self, kind, info, st, inst):
        if kind == "throw":
            for f, _ in self.stack:
                if f.nounwind:
                    kind = "terminate"
                    info = "%s escapes noexcept %s" % (info, short(f.dem))
                    break
        # innermost source location inside the repository
        where = None
        cand = [inst] + [s for _, s in reversed(self.stack)]
        for i in cand:
            if i is not None and i.file and "/usr/" not in i.file and i.line:
                where = "%s:%d" % (i.file, i.line)
                break
        self.exits.append(Exit(kind, info, st, self.path(), where))

    # ---- block ---------------------------------------------------------------
    def _goto(self, fn, it, frm, to, pend, st=None, regs=None):
        blk = fn.blocks[to]
        regs = dict(it.regs) if regs is None else regs
        if blk.insts[0].op == "phi":
            new = {}
            for i in blk.insts:
                if i.op != "phi":
                    break
                for pb, v in i.x["inc"]:
                    if pb == frm:
                        new[i.id] = self.val(v, regs, fn)
                        break
                else:
                    raise Broken("phi without incoming")
            regs.update(new)
        n = Item()
        n.blk, n.regs, n.st, n.loops, n.forks = to, regs, st if st is not None else it.st, it.loops, it.forks
        if blk.is_header:
            v, u, f = n.loops.get(to, (0, 0, n.forks))
            v += 1
            if n.forks != f:
                u += 1
            n.loops = dict(n.loops)
            n.loops[to] = (v, u, n.forks)
            if u > self.unroll:
                key = (fn.name, to)
                self.loop_cut[key] = self.loop_cut.get(key, 0) + 1
                self.exit("bound", "loop in %s cut after %d undecided iterations" % (short(fn.dem), u), n.st, blk.insts[0])
                return
            if v > self.max_visits:
                raise Broken("loop in %s does not converge" % fn.dem)
        pend.setdefault(to, []).append(n)

    def _block(self, fn, blk, it, cp, pend, results, npred):
        insts = blk.insts
        local = [(0, it.regs, it.st, it.forks)]
        nins = len(insts)
        spins = 0
        while local:
            spins += 1
            if spins > 20000:
                raise Broken("case split does not converge in %s" % fn.dem)
            idx, regs, st, forks = local.pop()
            it2 = Item()
            it2.blk, it2.loops, it2.forks = blk.idx, it.loops, forks
            try:
                while idx < nins:
                    i = insts[idx]
                    o = i.op
                    self.steps += 1
                    if o == "phi":
                        idx += 1
                        continue
                    if o == "call" or o == "invoke":
                        rs = self._call(fn, i, regs, st)
                        if o == "invoke":
                            it2.regs = regs
                            nd = i.x["succ"][0]
                            for k, (rv, s) in enumerate(rs):
                                r2 = dict(regs)
                                r2[i.id] = rv
                                it2.forks = forks + (len(rs) > 1)
                                self._goto(fn, it2, blk.idx, nd, pend, s, r2)
                            break
                        if not rs:
                            break
                        if len(rs) > 1:
                            forks += 1
                            it2.forks = forks
                            for rv, s in rs[1:]:
                                r2 = dict(regs)
                                r2[i.id] = rv
                                local.append((idx + 1, r2, s, forks))
                        rv, st = rs[0]
                        regs[i.id] = rv
                        idx += 1
                        continue
                    if o == "br":
                        sc = i.x["succ"]
                        if len(sc) == 1:
                            it2.regs = regs
                            self._goto(fn, it2, blk.idx, sc[0], pend, st, regs)
                            break
                        c = self.val(i.ops[0], regs, fn)
                        c = self.cond(st, c)
                        r = st.eval(c)
                        it2.regs = regs
                        if r is not None:
                            self._goto(fn, it2, blk.idx, sc[0] if r else sc[1], pend, st, regs)
                            break
                        it2.forks += 1
                        self.forks += 1
                        s2 = st.clone()
                        r2 = dict(regs)
                        if st.take(c, True):
                            self._goto(fn, it2, blk.idx, sc[0], pend, st, regs)
                        if s2.take(c, False):
                            self._goto(fn, it2, blk.idx, sc[1], pend, s2, r2)
                        break
                    if o == "switch":
                        self._switch(fn, blk, i, regs, st, it2, pend)
                        break
                    if o == "ret":
                        rv = self.val(i.ops[0], regs, fn) if i.ops else None
                        results.append((rv, st))
                        break
                    if o == "unreachable":
                        self.exit("ub", "unreachable code reached", st, i)
                        break
                    if o == "resume":
                        break
                    if o == "store":
                        self.store(st, self.val(i.ops[1], regs, fn), self.val(i.ops[0], regs, fn), i)
                    elif o == "load":
                        regs[i.id] = self.load(st, self.val(i.ops[0], regs, fn), i.ty, i)
                    else:
                        regs[i.id] = self.simple(fn, i, regs, st, cp)
                    idx += 1
            except Split as sp:
                self.forks += 1
                s2 = st.clone()
                if s2.take(sp.cond, False):
                    local.append((idx, dict(regs), s2, forks + 1))
                if st.take(sp.cond, True):
                    local.append((idx, regs, st, forks + 1))
            except SplitVals as sp:
                self.forks += 1
                for v in sp.vals:
                    s2 = st.clone()
                    if s2.take(T.icmp("eq", sp.term, T.const(sp.term.w, v)), True):
                        local.append((idx, dict(regs), s2, forks + 1))
            except Halt as h:
                self.exit(h.kind, h.info, st, insts[idx])
            if self.steps > self.max_steps:
                raise Broken("step budget exhausted in %s" % fn.dem)
            if LIMIT[0] and time.monotonic() > LIMIT[0]:
                raise Broken("time budget exhausted in %s" % fn.dem)

    def cond(self, st, c):
        if not isinstance(c, T.Term):
            raise Broken("branch on non-term")
        return c

    def _switch(self, fn, blk, i, regs, st, it2, pend):
        c = self.val(i.ops[0], regs, fn)
        r = st.resolve(c) if c.kind != "const" else c
        it2.regs = regs
        if r.kind == "const":
            for v, b in i.x["cases"]:
                if v == r.a:
                    self._goto(fn, it2, blk.idx, b, pend, st, regs)
                    return
            self._goto(fn, it2, blk.idx, i.x["default"], pend, st, regs)
            return
        it2.forks += 1
        self.forks += 1
        rest = st
        # group the cases by target
        for v, b in i.x["cases"]:
            e = T.icmp("eq", c, T.const(c.w, v))
            d = rest.eval(e)
            if d is False:
                continue
            s2 = rest.clone()
            if s2.take(e, True):
                self._goto(fn, it2, blk.idx, b, pend, s2, dict(regs))
            if d is True or not rest.take(e, False):
                return
        self._goto(fn, it2, blk.idx, i.x["default"], pend, rest, regs)

    # ---- operands -------------------------------------------------------------
    def val(self, o, regs, fn):
        if o.__class__ is Reg:
            v = regs.get(o.id)
            if v is None:
                raise Broken("use of undefined register %s in %s" % (o, fn.dem))
            return v
        return self.kval(o, fn.mod)

    def kval(self, k, mod):
        kd = k.kind
        if kd == "int":
            t = k.t
            if t is None:
                t = k.t = T.const(k.b, k.a)
            return t
        if kd == "null":
            return NULL
        if kd == "global":
            return Ptr(self.gid(mod, k.a), 0)
        if kd == "func":
            f = self.prog.resolve(mod, k.a)
            return Fn(f)
        if kd == "gep":
            b = self.kval(k.a, mod)
            if not isinstance(b, Ptr):
                return T.add(b, T.const(64, k.b))
            return Ptr(b.obj, T.add(b.off, T.const(64, k.b)))
        if kd in ("undef", "zero"):
            return self.agg_default(k.ty, kd)
        if kd == "agg":
            return Agg([self.kval(x, mod) for x in k.a])
        if kd == "bytes":
            return Agg([T.const(8, x) for x in k.a])
        if kd == "meta":
            return None
        if kd == "expr" and k.a == "ptrtoint":
            return self.to_int(self.kval(k.b[0], mod))
        if kd == "expr" and k.a == "inttoptr":
            return self.to_ptr(self.kval(k.b[0], mod))
        raise Broken("constant kind %s %s" % (kd, k))

    def agg_default(self, ty, kd):
        if ty.kind == "struct":
            return Agg([self.agg_default(e, kd) for e in ty.elems])
        if ty.kind in ("array", "vector"):
            return Agg([self.agg_default(ty.elem, kd)] * ty.count)
        if ty.kind == "ptr":
            return NULL
        if ty.kind == "int":
            if kd == "zero":
                return T.const(ty.width, 0)
            return T.sym(ty.width, ("undef", "const"))
        if ty.kind in ("float", "double", "fp80"):
            return T.const(ty.width, 0)
        raise Broken("default of %s" % ty.kind)

    def gid(self, mod, name):
        g = self.prog.resolve_global(mod, name)
        if g is not None and g.linkage in (8, 9):
            return ("g", name, g.mod.path)
        return ("g", name)

    def gobj(self, oid, st):
        """materialise a global"""
        o = self._glob.get(oid)
        if o is not None:
            return o
        name = oid[1]
        g = None
        if len(oid) == 3:
            for m in self.prog.modules:
                if m.path == oid[2]:
                    g = m.globals.get(name)
        else:
            g = self.prog.gdefs.get(name)
            if g is None:
                for m in self.prog.modules:
                    if name in m.globals:
                        g = m.globals[name]
                        if not g.is_decl:
                            break
        if g is None:
            raise Broken("unknown global %s" % name)
        if g.is_decl:
            if name.startswith(("_ZTV", "_ZTI", "_ZTS")):
                o = Obj("global", 1 << 20, {}, ("in", "extern:" + name), False, True)
            elif name == "__dso_handle":
                o = Obj("global", 8, {}, "zero", False, True)
            else:
                o = Obj("global", g.ty.size, {}, ("in", "extern:" + name), False, g.const)
        else:
            k = g.init
            if k.kind == "bytes":
                o = Obj("global", g.ty.size, {}, ("const", bytes(k.a)), False, g.const)
            else:
                cells = {}
                self._init(k, g.ty, 0, cells, g.mod)
                o = Obj("global", g.ty.size, cells, "zero", False, g.const)
        self._glob[oid] = o
        return o

    def _init(self, k, ty, off, cells, mod):
        kd = k.kind
        if kd in ("zero", "undef"):
            return
        if kd == "agg":
            if ty.kind == "struct":
                for e, et, eo in zip(k.a, ty.elems, ty.offsets):
                    self._init(e, et, off + eo, cells, mod)
            else:
                for j, e in enumerate(k.a):
                    self._init(e, ty.elem, off + j * ty.elem.size, cells, mod)
            return
        if kd == "bytes":
            for j, b in enumerate(k.a):
                cells[off + j] = (1, T.const(8, b))
            return
        v = self.kval(k, mod)
        if isinstance(v, T.Term) and v.w < 8:
            v = T.zext(v, 8)
        if isinstance(v, T.Term) and v.w % 8:
            v = T.zext(v, (v.w + 7) // 8 * 8)
        cells[off] = (ty.store if ty.kind == "int" else ty.size, v)

    # ---- pointers --------------------------------------------------------------
    def to_int(self, v):
        if isinstance(v, Ptr):
            return T.add(T.op(64, "addr", v.obj), v.off)
        if isinstance(v, Fn):
            return T.op(64, "fnaddr", v.fn.name)
        return v

    def to_ptr(self, v):
        if not isinstance(v, T.Term):
            return v
        if v.kind == "const":
            return v
        k, m = T.lin_parts(v)
        base = [a for a, c in m.items() if a.kind == "op" and a.a[0] == "addr" and c == 1]
        if len(base) == 1:
            return Ptr(base[0].a[1], T.sub(v, base[0]))
        if v.kind == "op" and v.a[0] == "fnaddr":
            f = self.prog.defs.get(v.a[1])
            if f:
                return Fn(f)
        if v.kind == "op" and v.a[0] == "ite":
            raise Split(v.a[1])
        return v

    def object(self, st, p, inst, n=None, write=False):
        """the live object a pointer refers to (obligation: live, in bounds)"""
        if not isinstance(p, Ptr):
            p = self.to_ptr(p)
        if not isinstance(p, Ptr):
            if isinstance(p, Fn):
                raise Halt("ub", "data access through function pointer")
            if isinstance(p, T.Term) and p.kind == "const":
                raise Halt("ub", "null pointer dereference" if p.a < 4096 else "wild pointer dereference")
            raise Halt("ub", "access through an indeterminate pointer %s" % (p,))
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj[0] == "g":
                o = self.gobj(p.obj, st)
                if not o.ro:
                    st.mem[p.obj] = o
            else:
                raise Halt("ub", "use of %s after its scope ended" % (self.objname(p.obj),))
        if o.freed:
            raise Halt("ub", "use after free of %s" % self.objname(p.obj) if o.freed != "scope"
                       else "use of %s outside its lifetime" % self.objname(p.obj))
        if o.ro and write:
            raise Halt("ub", "write to constant memory")
        if n is not None:
            self.obligation("bounds")
            sz = o.size if isinstance(o.size, T.Term) else T.const(64, o.size)
            nn = n if isinstance(n, T.Term) else T.const(64, n)
            off = p.off
            if off.kind == "const" and sz.kind == "const" and nn.kind == "const":
                if off.a + nn.a > sz.a:
                    raise Halt("ub", "out-of-bounds %s of %s: offset %d, size %d of %d" %
                               ("write" if write else "read", self.objname(p.obj), T._signed(off.a, 64), nn.a, sz.a))
            else:
                # 0 <= off and off + n <= size
                c1 = T.icmp("slt", off, T.const(64, 0))
                r = st.eval(c1)
                if r is None:
                    self.undecided_bounds += 1
                    raise Split(c1)
                ok = (not r) and self.le(st, T.add(off, nn), sz)
                if not ok:
                    raise Halt("ub", "out-of-bounds %s of %s: offset %s, size %s of %s" %
                               ("write" if write else "read", self.objname(p.obj), off, nn, sz))
        return p, o

    def objname(self, oid):
        if oid[0] == "a":
            return "local variable"
        if oid[0] == "heap":
            return "heap block %s" % (oid[1],)
        if oid[0] == "g":
            return "global " + demangle(oid[1])
        return "object " + str(oid[0])

    def le(self, st, a, b):
        """a <= b over unsigned offsets; Split if undecided"""
        if a is b:
            return True
        if a.kind == "const" and b.kind == "const":
            return a.a <= b.a
        c = T.icmp("uge", b, a)
        r = st.eval(c)
        if r is None:
            raise Split(c)
        return r

    def eqoff(self, st, a, b):
        return a is b or (st.same(a, b))

    # ---- content ----------------------------------------------------------------
    def src(self, oid, default):
        if default == "undef":
            return ("undef", oid)
        if default == "zero":
            return ("zero",)
        return default

    def byte(self, st, src, off):
        """byte of a content source at a 64-bit offset term"""
        k = src[0]
        if k == "zero":
            return T.const(8, 0)
        if k == "fill":
            return src[1]
        if k == "const":
            if off.kind == "const":
                if off.a < len(src[1]):
                    return T.const(8, src[1][off.a])
                return T.const(8, 0)
            return T.op(8, "cbyte", src[1], off)
        if off.kind != "const":
            off = st.canon(off)
        if k == "map":     # content computed elsewhere: src[1](off)
            return src[1](off.a if off.kind == "const" else off)
        reg = st.locs.get(src, ())
        if off.kind == "const":
            for t in reg:
                lo, hi = st.iv(t)
                if lo == hi == off.a:
                    return T.sym(8, ("byte", src, t))
            return T.sym(8, ("byte", src, off.a))
        if off not in reg:
            for t in reg:
                if st.same(t, off):
                    return T.sym(8, ("byte", src, t))
            st.locs = dict(st.locs)
            st.locs[src] = reg + (off,)
        return T.sym(8, ("byte", src, off))

    def cells_at(self, st, oid, o, off, n):
        """cells overlapping [off, off+n): list of (start, len, value); Splits as needed"""
        out = []
        if isinstance(off, int) and isinstance(n, int):
            for co, (cl, v) in o.cells.items():
                if isinstance(co, int) and isinstance(cl, int):
                    if co < off + n and off < co + cl:
                        out.append((co, cl, v))
                    continue
                if not self.disjoint(st, co, cl, off, n):
                    out.append((co, cl, v))
            return out
        for co, (cl, v) in o.cells.items():
            if not self.disjoint(st, co, cl, off, n):
                out.append((co, cl, v))
        return out

    @staticmethod
    def tm(x):
        return x if isinstance(x, T.Term) else T.const(64, x)

    @staticmethod
    def un(x):
        return x.a if isinstance(x, T.Term) and x.kind == "const" else x

    def disjoint(self, st, co, cl, off, n):
        co, cl, off, n = self.tm(co), self.tm(cl), self.tm(off), self.tm(n)
        ce, e = T.add(co, cl), T.add(off, n)
        c1 = T.icmp("uge", off, ce)
        r1 = st.eval(c1)
        if r1:
            return True
        c2 = T.icmp("uge", co, e)
        r2 = st.eval(c2)
        if r2:
            return True
        if r1 is None:
            raise Split(c1)
        if r2 is None:
            raise Split(c2)
        return False

    def raw_read(self, st, oid, o, off, n):
        """value of the n (int) bytes at off (64-bit term)"""
        if off.kind == "const":
            a = off.a
            c = o.cells.get(a)
            if c is not None and c[0] == n and not isinstance(c[1], Blob):
                return c[1]
            if not o.cells:
                return self.default_read(st, oid, o, off, n)
            cs = self.cells_at(st, oid, o, a, n)
        else:
            r = st.resolve(off)
            if r.kind == "const":
                return self.raw_read(st, oid, o, r, n)
            if o.ro:
                return self.table_read(st, oid, o, off, n)
            for co, (cl, v) in o.cells.items():
                if cl == n and not isinstance(v, Blob) and isinstance(co, T.Term) and co is off:
                    return v
            if not o.cells:
                return self.default_read(st, oid, o, off, n)
            cs = self.cells_at(st, oid, o, off, n)
        if not cs:
            return self.default_read(st, oid, o, off, n)
        if len(cs) == 1:
            co, cl, v = cs[0]
            if not isinstance(v, Blob) and self.un(cl) == n and self.eqoff(st, self.tm(co), off):
                return v
        # byte-wise composition
        segs = []
        for j in range(n):
            bo = T.add(off, T.const(64, j))
            segs.extend(T.segs(self.read_byte(st, oid, o, bo, cs)))
        return T.cat(8 * n, segs)

    def default_read(self, st, oid, o, off, n):
        src = self.src(oid, o.default)
        if n == 1:
            return self.byte(st, src, off)
        segs = []
        for j in range(n):
            segs.extend(T.segs(self.byte(st, src, T.add(off, T.const(64, j)))))
        return T.cat(8 * n, segs)

    def read_byte(self, st, oid, o, bo, cs):
        for co, cl, v in cs:
            tco, tcl = self.tm(co), self.tm(cl)
            if self.disjoint(st, tco, tcl, bo, 1):
                continue
            rel = T.sub(bo, tco)
            if isinstance(v, Blob):
                return self.byte(st, v.src, T.add(v.off, rel))
            if rel.kind != "const":
                rel = st.resolve(rel)
            if rel.kind != "const":
                raise SplitVals(rel, range(0, self.un(cl)))
            if not isinstance(v, T.Term):
                v = self.to_int(v)
                if not isinstance(v, T.Term):
                    raise Broken("partial read of %r" % (v,))
            return T.slice_(v, 8 * rel.a, 8)
        return self.byte(st, self.src(oid, o.default), bo)

    def table_read(self, st, oid, o, off, n):
        """read of constant memory at a symbolic offset"""
        t = T.op(8 * n, "tbl", oid, off, n)
        ix = tbl_index(t)
        if ix is not None:
            lo, hi = st.iv(ix[0])
            if hi - lo <= 4096:
                vals = tbl_enum(self, st, t)
                vs = set(vals.values())
                if len(vs) == 1:
                    v = vs.pop()
                    if v is not None:
                        return T.const(8 * n, v)
        return t

    def const_bytes(self, st, oid, off, n):
        """concrete bytes of constant memory as int (for evaluation of 'tbl' terms)"""
        o = self.gobj(oid, st)
        v = self.raw_read(State(), oid, o, T.const(64, off), n)
        if isinstance(v, T.Term) and v.kind == "const":
            return v.a
        return None

    def part(self, st, v, rel, ln):
        """bytes [rel, rel+ln) of a scalar cell value"""
        iv = self.to_int(v)
        if not isinstance(iv, T.Term):
            raise Broken("partial access of %r" % (v,))
        if rel.kind != "const" or ln.kind != "const":
            if iv.kind == "const":
                bs = iv.a.to_bytes(iv.w // 8, "little")
                if len(set(bs)) == 1:
                    return Blob(("fill", T.const(8, bs[0])), T.const(64, 0))
            rel, ln = st.resolve(rel), st.resolve(ln)
            for t in (rel, ln):
                if t.kind != "const":
                    raise SplitVals(t, range(0, iv.w // 8 + 1))
        return T.slice_(iv, 8 * rel.a, 8 * ln.a)

    def drop(self, st, oid, o, off, n):
        """cells dict without [off, off+n)"""
        cells = o.cells
        if not cells:
            return {}
        if isinstance(off, int) and isinstance(n, int):
            c = cells.get(off)
            if c is not None and c[0] == n:
                d = dict(cells)
                del d[off]
                return d
        cs = self.cells_at(st, oid, o, off, n)
        if not cs:
            return dict(cells)
        d = dict(cells)
        toff, tn = self.tm(off), self.tm(n)
        end = T.add(toff, tn)
        for co, cl, v in cs:
            tco, tcl = self.tm(co), self.tm(cl)
            cend = T.add(tco, tcl)
            pieces = []
            if not self.le(st, toff, tco):      # starts before
                ln = T.sub(toff, tco)
                pieces.append((tco, ln, v, T.const(64, 0)))
            if not self.le(st, cend, end):      # ends after
                pieces.append((end, T.sub(cend, end), v, T.sub(end, tco)))
            del d[co]
            for po, pl, pv, rel in pieces:
                if isinstance(pv, Blob):
                    d[self.un(po)] = (self.un(pl), Blob(pv.src, T.add(pv.off, rel)))
                else:
                    d[self.un(po)] = (self.un(pl), self.part(st, pv, rel, pl))
        return d

    def raw_write(self, st, oid, o, off, n, v):
        off = self.un(off)
        if isinstance(off, T.Term):
            r = st.resolve(off)
            off = self.un(r) if r.kind == "const" else off
        d = self.drop(st, oid, o, off, n)
        d[off] = (n, v)
        st.mem[oid] = o.with_(cells=d, _key=None)

    # ---- load / store ------------------------------------------------------------
    def load(self, st, p, ty, inst=None):
        k = ty.kind
        if k == "int":
            p, o = self.object(st, p, inst, ty.store)
            v = self.raw_read(st, p.obj, o, p.off, ty.store)
            if not isinstance(v, T.Term):
                v = self.to_int(v)
                if not isinstance(v, T.Term):
                    raise Broken("integer load of %r" % (v,))
            if v.w != ty.width:
                v = T.trunc(v, ty.width)
            return v
        if k == "ptr":
            p, o = self.object(st, p, inst, 8)
            v = self.raw_read(st, p.obj, o, p.off, 8)
            if isinstance(v, T.Term) and v.kind != "const":
                v = self.to_ptr(v)
            return v
        if k == "struct":
            p = self._p(p)
            return Agg([self.load(st, Ptr(p.obj, T.add(p.off, T.const(64, o))), e, inst)
                        for e, o in zip(ty.elems, ty.offsets)])
        if k in ("array", "vector"):
            p = self._p(p)
            return Agg([self.load(st, Ptr(p.obj, T.add(p.off, T.const(64, j * ty.elem.size))), ty.elem, inst)
                        for j in range(ty.count)])
        if k in ("float", "double", "fp80"):
            p, o = self.object(st, p, inst, ty.size)
            return self.raw_read(st, p.obj, o, p.off, ty.size)
        raise Broken("load of %s" % k)

    def _p(self, p):
        if not isinstance(p, Ptr):
            p = self.to_ptr(p)
        if not isinstance(p, Ptr):
            raise Halt("ub", "access through an indeterminate or null pointer")
        return p

    def store(self, st, p, v, inst=None):
        if isinstance(v, T.Term):
            n = (v.w + 7) // 8
            if v.w % 8:
                v = T.zext(v, n * 8)
            p, o = self.object(st, p, inst, n, True)
            self.raw_write(st, p.obj, o, p.off, n, v)
        elif isinstance(v, Agg):
            ty = None
            # struct stores: need layout; take it from the instruction's operand type
            raise Broken("aggregate store")
        else:
            p, o = self.object(st, p, inst, 8, True)
            self.raw_write(st, p.obj, o, p.off, 8, v)

    def snapshot(self, st, p, n, inst):
        """content pieces of [p, p+n): list of (rel term, len term, value or Blob)"""
        p, o = self.object(st, p, inst, n)
        off, tn = p.off, self.tm(n)
        end = T.add(off, tn)
        src = self.src(p.obj, o.default)
        if not o.cells:
            return [(T.const(64, 0), tn, Blob(src, off))]
        cs = self.cells_at(st, p.obj, o, self.un(off), self.un(tn))
        if all(isinstance(c[0], int) for c in cs):
            cs.sort(key=lambda c: c[0])
        else:
            srt = []
            for c in cs:
                j = 0
                while j < len(srt) and self.le(st, self.tm(srt[j][0]), self.tm(c[0])):
                    j += 1
                srt.insert(j, c)
            cs = srt
        out, pos = [], off
        for co, cl, v in cs:
            tco, tcl = self.tm(co), self.tm(cl)
            cend = T.add(tco, tcl)
            if not self.le(st, tco, pos):
                out.append((T.sub(pos, off), T.sub(tco, pos), Blob(src, pos)))
                a = tco
            else:
                a = pos
            b = cend if self.le(st, cend, end) else end
            rel, ln = T.sub(a, tco), T.sub(b, a)
            if isinstance(v, Blob):
                out.append((T.sub(a, off), ln, Blob(v.src, T.add(v.off, rel))))
            elif rel.kind == "const" and rel.a == 0 and self.un(ln) == self.un(tcl):
                out.append((T.sub(a, off), ln, v))
            else:
                out.append((T.sub(a, off), ln, self.part(st, v, rel, ln)))
            pos = b
        if not self.eqoff(st, pos, end) and not (self.le(st, end, pos)):
            out.append((T.sub(pos, off), T.sub(end, pos), Blob(src, pos)))
        return out

    def memcpy(self, st, dst, srcp, n, inst):
        n = st.resolve(n) if n.kind != "const" else n
        if n.kind == "const" and n.a == 0:
            return
        if n.kind != "const":
            z = T.icmp("eq", n, T.const(64, 0))
            r = st.eval(z)
            if r is None:
                raise Split(z)
            if r:
                return
        pieces = self.snapshot(st, srcp, n, inst)
        dst, o = self.object(st, dst, inst, n, True)
        d = self.drop(st, dst.obj, o, self.un(dst.off), self.un(n))
        for rel, ln, v in pieces:
            to = self.un(T.add(dst.off, rel))
            if isinstance(to, T.Term):
                to = self.un(st.resolve(to))
            ln = self.un(ln)
            if isinstance(v, Blob) and isinstance(ln, int) and ln <= 8 and v.src[0] != "undef":
                segs = []
                for j in range(ln):
                    segs.extend(T.segs(self.byte(st, v.src, T.add(v.off, T.const(64, j)))))
                v = T.cat(8 * ln, segs)
            d[to] = (ln, v)
        st.mem[dst.obj] = o.with_(cells=d, _key=None)

    def memset(self, st, dst, val, n, inst):
        n = st.resolve(n) if n.kind != "const" else n
        if n.kind == "const" and n.a == 0:
            return
        if n.kind != "const":
            z = T.icmp("eq", n, T.const(64, 0))
            r = st.eval(z)
            if r is None:
                raise Split(z)
            if r:
                return
        dst, o = self.object(st, dst, inst, n, True)
        d = self.drop(st, dst.obj, o, self.un(dst.off), self.un(n))
        nn = self.un(n)
        if isinstance(nn, int) and nn <= 8:
            d[self.un(dst.off)] = (nn, T.cat(8 * nn, [s for _ in range(nn) for s in T.segs(val)]))
        else:
            d[self.un(dst.off)] = (nn, Blob(("fill", val), T.const(64, 0)))
        st.mem[dst.obj] = o.with_(cells=d, _key=None)

    # ---- instructions ---------------------------------------------------------
    def simple(self, fn, i, regs, st, cp):
        o = i.op
        if o == "gep":
            return self._gep(fn, i, regs, st)
        if o == "alloca":
            oid = ("a", cp, i.id)
            n = self.val(i.ops[0], regs, fn)
            if n.kind != "const":
                raise Broken("variable length array")
            st.mem[oid] = Obj("stack", i.x["ty"].size * n.a, {}, "undef")
            return Ptr(oid, 0)
        if o in ("bitcast", "addrspacecast", "freeze"):
            return self.val(i.ops[0], regs, fn)
        a = self.val(i.ops[0], regs, fn) if i.ops else None
        if o in ("zext", "sext", "trunc"):
            if not isinstance(a, T.Term):
                a = self.to_int(a)
            w = i.ty.width
            if o == "trunc":
                return T.trunc(a, w)
            if o == "sext":
                if a.kind != "const":
                    lo, hi = st.iv(a)
                    if hi < 1 << (a.w - 1):
                        return self.zext(st, a, w)
                return T.sext(a, w)
            return self.zext(st, a, w)
        if o == "ptrtoint":
            return self.to_int(a)
        if o == "inttoptr":
            return self.to_ptr(a)
        if o == "extractvalue":
            for k in i.x["idx"]:
                a = a.v[k]
            return a
        if o == "insertvalue":
            b = self.val(i.ops[1], regs, fn)
            return self._insert(a, i.x["idx"], b)
        if o == "landingpad":
            raise Broken("landingpad reached")
        b = self.val(i.ops[1], regs, fn) if len(i.ops) > 1 else None
        if o == "icmp":
            return self.icmp(st, i.x["pred"], a, b)
        if o == "select":
            c = self.val(i.ops[2], regs, fn)
            r = st.eval(a)
            if r is not None:
                return b if r else c
            if isinstance(b, T.Term) and isinstance(c, T.Term):
                if b.w == 1:
                    if T.is_const(c) and c.a == 0:
                        return T.and_(a, b)
                    if T.is_const(b) and b.a == 1:
                        return T.or_(a, c)
                    if T.is_const(b) and b.a == 0:
                        return T.and_(T.not_(a), c)
                    if T.is_const(c) and c.a == 1:
                        return T.or_(T.not_(a), b)
            if b == c:
                return b
            raise Split(a)
        if o in ("fadd", "fsub", "fmul", "fdiv", "fcmp", "uitofp", "fptoui", "fptosi", "sitofp", "fpext", "fptrunc"):
            raise Broken("floating point")
        if not isinstance(a, T.Term):
            a = self.to_int(a)
        if not isinstance(b, T.Term):
            b = self.to_int(b)
        if isinstance(a, Agg) or isinstance(b, Agg):
            raise Broken("vector arithmetic")
        return self.arith(st, o, a, b, i)

    def zext(self, st, a, w):
        if a.kind == "lin" and w > a.w:
            # push the extension inside when the affine form provably does not wrap
            k, m = st.ilin(a)
            lo, hi = st.bounds(k, m)
            ok = (lo >= 0 or st.implied(k, m)) and (hi <= T.mask(a.w) or
                                                   st.implied(T.mask(a.w) - k, {u: -c for u, c in m.items()}))
            if ok:
                r = T.const(w, k)
                for u, c in m.items():
                    r = T.add(r, T.mulc(T.zext(u, w) if u.w < w else u, c))
                return r
        if a.kind == "op" and a.a[0] in ("sext",):
            pass
        return T.zext(a, w)

    def arith(self, st, o, a, b, i):
        w = a.w
        if o == "add":
            return T.add(a, b)
        if o == "sub":
            return T.sub(a, b)
        if o == "mul":
            if a.kind != "const" and b.kind != "const":
                a, b = st.resolve(a), st.resolve(b)
            return T.mul(a, b)
        if o == "and":
            return T.and_(a, b)
        if o == "or":
            r = T.or_(a, b)
            if r.kind == "op" and r.a[0] == "or" and w > 1:
                ra, rb = st.resolve(a), st.resolve(b)
                if ra is not a or rb is not b:
                    r = T.or_(ra, rb)
            return r
        if o == "xor":
            return T.xor(a, b)
        if o in ("udiv", "urem"):
            if b.kind != "const":
                b = st.resolve(b)
            if b.kind != "const":
                z = T.icmp("eq", b, T.const(w, 0))
                r = st.eval(z)
                if r is None:
                    raise Split(z)
                if r:
                    raise Halt("ub", "division by zero")
            elif b.a == 0:
                raise Halt("ub", "division by zero")
            return T.udiv(a, b) if o == "udiv" else T.urem(a, b)
        if o in ("sdiv", "srem"):
            ra, rb = st.resolve(a), st.resolve(b)
            if rb.kind == "const" and rb.a == 0:
                raise Halt("ub", "division by zero")
            al, ah = st.siv(a)
            bl, bh = st.siv(b)
            if al >= 0 and bl > 0:
                return T.udiv(a, rb) if o == "sdiv" else T.urem(a, rb)
            if rb.kind == "const" and o == "sdiv":
                # exact pointer-difference idiom: (c*x)/c
                c = T._signed(rb.a, w)
                k, m = T.lin_parts(ra)
                if T._signed(k, w) % c == 0 and all(T._signed(x, w) % c == 0 for x in m.values()):
                    r = T.const(w, T._signed(k, w) // c)
                    for u, x in m.items():
                        r = T.add(r, T.mulc(u, T._signed(x, w) // c))
                    return r
            if ra.kind == "const" and rb.kind == "const":
                x, y = T._signed(ra.a, w), T._signed(rb.a, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return T.const(w, q if o == "sdiv" else x - q * y)
            return T.op(w, o, ra, rb)
        if o in ("shl", "lshr", "ashr"):
            if b.kind != "const":
                b = st.resolve(b)
            self.obligation("shift")
            if b.kind != "const":
                lo, hi = st.iv(b)
                if lo >= w:
                    raise Halt("ub", "shift by %s, width %d" % (b, w))
                if hi >= w:
                    raise Split(T.icmp("ult", b, T.const(w, w)))
                raise SplitVals(b, self.feasible(st, b, lo, hi))
            if b.a >= w:
                raise Halt("ub", "shift by %d, width %d" % (b.a, w))
            if o == "shl":
                return T.shl(a, b.a)
            if o == "lshr":
                return T.lshr(a, b.a)
            lo, hi = st.iv(a)
            if hi < 1 << (w - 1):
                return T.lshr(a, b.a)
            if a.kind == "const":
                return T.const(w, T._signed(a.a, w) >> b.a)
            k, m = T.lin_parts(a)
            if b.a and T._signed(k, w) % (1 << b.a) == 0 and all(T._signed(x, w) % (1 << b.a) == 0 for x in m.values()):
                sl, sh = st.siv(a)
                r = T.const(w, T._signed(k, w) >> b.a)
                for u, x in m.items():
                    r = T.add(r, T.mulc(u, T._signed(x, w) >> b.a))
                return r
            return T.op(w, "ashr", a, b)
        raise Broken("instruction %s" % o)

    def feasible(self, st, t, lo, hi):
        vals = tblvals(self, st, t)
        if vals is None:
            vals = range(lo, hi + 1)
        n = st.neq.get(t, ())
        return [v for v in vals if lo <= v <= hi and v not in n]

    def _insert(self, a, idx, b):
        v = list(a.v)
        if len(idx) == 1:
            v[idx[0]] = b
        else:
            v[idx[0]] = self._insert(v[idx[0]], idx[1:], b)
        return Agg(v)

    def _gep_plan(self, i):
        """(constant offset, [(index operand, element size)])"""
        ty = i.x["ty"]
        k, dyn, first = 0, [], True
        for o in i.ops[1:]:
            if first:
                sz, first = ty.size, False
            elif ty.kind == "struct":
                k += ty.offsets[o.a]
                ty = ty.elems[o.a]
                continue
            else:
                ty = ty.elem
                sz = ty.size
            if o.__class__ is not Reg and o.kind == "int":
                v = o.a & ((1 << o.b) - 1)
                k += (v - (1 << o.b) if v >> (o.b - 1) else v) * sz
            else:
                dyn.append((o, sz))
        return T.const(64, k), dyn

    def _gep(self, fn, i, regs, st):
        base = self.val(i.ops[0], regs, fn)
        plan = i.x.get("plan")
        if plan is None:
            plan = i.x["plan"] = self._gep_plan(i)
        off, dyn = plan
        for o, sz in dyn:
            v = self.val(o, regs, fn)
            if v.w < 64:
                if v.kind != "const" and st.iv(v)[1] < 1 << (v.w - 1):
                    v = self.zext(st, v, 64)
                else:
                    v = T.sext(v, 64)
            off = T.add(off, T.mulc(v, sz))
        if isinstance(base, Ptr):
            return Ptr(base.obj, T.add(base.off, off))
        base = self.to_ptr(base)
        if isinstance(base, Ptr):
            return Ptr(base.obj, T.add(base.off, off))
        if isinstance(base, Fn):
            raise Broken("gep on function")
        return self.to_ptr(T.add(base, off))

    def icmp(self, st, pred, a, b):
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            # sharpen sub-register compares of ite terms
            return T.icmp(pred, a, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = a == b
            if pred in ("eq", "ne"):
                return T.const(1, int(eq == (pred == "eq")))
            raise Broken("function pointer compare")
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if pred in ("eq", "ne"):
                    return T.icmp(pred, a.off, b.off)
                # order of in-bounds offsets; both are within the object, so signed order is exact
                p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
                if st.siv(a.off)[0] >= 0 and st.siv(b.off)[0] >= 0:
                    p = {"slt": "ult", "sle": "ule", "sgt": "ugt", "sge": "uge"}.get(p, p)
                return T.icmp(p, a.off, b.off)
            if pred == "eq":
                return T.const(1, 0)
            if pred == "ne":
                return T.const(1, 1)
            x, y = (a.obj, b.obj) if repr(a.obj) < repr(b.obj) else (b.obj, a.obj)
            less = T.op(1, "addrlt", x, y)      # x lies below y
            a_less = less if x == a.obj else T.not_(less)
            if pred in ("ult", "ule"):
                return a_less
            return T.not_(a_less)
        # pointer against integer/null
        p, k = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(k, T.Term) and k.kind == "const" and k.a == 0:
            if pred == "eq":
                return T.const(1, 0)
            if pred == "ne":
                return T.const(1, 1)
            if isinstance(a, Ptr):
                return T.const(1, int(pred in ("ugt", "uge")))
            return T.const(1, int(pred in ("ult", "ule")))
        return T.icmp(pred, self.to_int(a), self.to_int(b))

    def icmp_sub(self, st, a, b):
        """a - b for pointers into one object"""
        a = a if isinstance(a, Ptr) else self.to_ptr(a)
        b = b if isinstance(b, Ptr) else self.to_ptr(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return T.sub(a.off, b.off) if a.obj == b.obj else None
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            return T.sub(a, b)
        return None

    def _call(self, fn, i, regs, st):
        c = i.x["callee"]
        if c.__class__ is Reg:
            f = regs.get(c.id)
            if isinstance(f, T.Term):
                f = self.to_ptr(f)
            if not isinstance(f, Fn):
                raise Halt("ub", "call through an invalid function pointer %r" % (f,))
            callee = f.fn
        elif c.kind == "func":
            callee = i.x.get("fn")
            if callee is None:
                callee = self.prog.resolve(fn.mod, c.a)
                i.x["fn"] = callee
        elif c.kind == "asm":
            return [(T.const(64, 0), st)]
        else:
            raise Broken("callee %s" % c)
        n = callee.name
        if n.startswith("llvm."):
            return self.intrinsic(fn, i, n, regs, st)
        args = [self.val(o, regs, fn) for o in i.ops]
        bv = i.x.get("byval")
        if bv:
            for k, sz in bv.items():
                oid = ("bv", self.cp(callee, i), k)
                st.mem[oid] = Obj("stack", sz, {}, "undef")
                self.memcpy(st, Ptr(oid, 0), args[k], T.const(64, sz), i)
                args[k] = Ptr(oid, 0)
        rs = self.exec_call(i, callee, args, st)
        if bv:
            for rv, s in rs:
                for k in bv:
                    s.mem.pop(("bv", self.cp(callee, i), k), None)
        return rs

    def intrinsic(self, fn, i, n, regs, st):
        if n.startswith(("llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.va_", "llvm.prefetch")):
            return [(T.const(64, 0), st)]
        if n.startswith("llvm.lifetime."):
            p = self.val(i.ops[1], regs, fn)
            if isinstance(p, Ptr) and p.off.kind == "const" and p.off.a == 0 and p.obj[0] == "a" and p.obj in st.mem:
                o = st.mem[p.obj]
                if ".start" in n:
                    st.mem[p.obj] = o.with_(cells={}, freed=False, _key=None)
                else:
                    st.mem[p.obj] = o.with_(cells={}, freed="scope", _key=None)
            return [(T.const(64, 0), st)]
        args = [self.val(o, regs, fn) for o in i.ops]
        if n.startswith("llvm.expect"):
            return [(args[0], st)]
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, args[0], args[1], args[2], i)
            return [(T.const(64, 0), st)]
        if n.startswith("llvm.memset"):
            self.memset(st, args[0], args[1], args[2], i)
            return [(T.const(64, 0), st)]
        if n.startswith("llvm.trap"):
            self.exit("abort", "trap", st, i)
            return []
        if n.startswith("llvm.objectsize"):
            return [(T.const(i.ty.width, T.mask(i.ty.width)), st)]
        if n.startswith("llvm.is.constant"):
            return [(T.const(1, 0), st)]
        if n.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            a, b = args
            c = T.icmp(("u" if n[5] == "u" else "s") + "lt", a, b)
            r = st.eval(c)
            if r is None:
                raise Split(c)
            return [((b if r else a) if "max" in n else (a if r else b), st)]
        if ".with.overflow" in n:
            a, b = args
            w = a.w
            op = n.split(".")[1]
            ra, rb = st.resolve(a), st.resolve(b)
            (al, ah), (bl, bh) = st.iv(a), st.iv(b)
            if op == "umul":
                r = T.mul(ra, rb)
                if ah * bh <= T.mask(w):
                    f = T.const(1, 0)
                else:
                    f = T.op(1, "umulov", ra, rb)
            elif op == "uadd":
                r = T.add(ra, rb)
                f = T.const(1, 0) if ah + bh <= T.mask(w) else T.icmp("ult", r, ra)
            elif op == "usub":
                r = T.sub(ra, rb)
                f = T.icmp("ult", ra, rb)
            else:
                raise Broken(n)
            return [(Agg([r, f]), st)]
        if n.startswith(("llvm.bswap",)):
            a = args[0]
            segs = []
            for k in range(a.w // 8):
                segs.extend(T.segs(T.slice_(a, a.w - 8 * (k + 1), 8)))
            return [(T.cat(a.w, segs), st)]
        if n.startswith(("llvm.fshl", "llvm.fshr")):
            a, b, c = args
            c = st.resolve(c)
            if c.kind != "const":
                raise Broken("funnel shift by variable")
            w = a.w
            k = c.a % w
            if n.startswith("llvm.fshr"):
                k = (w - k) % w if k else 0
                if k == 0:
                    return [(b, st)]
            if k == 0:
                return [(a, st)]
            return [(T.or_(T.shl(a, k), T.lshr(b, w - k)), st)]
        if n.startswith("llvm.ctlz"):
            a = st.resolve(args[0])
            lo, hi = st.iv(a)
            if lo.bit_length() == hi.bit_length():
                return [(T.const(a.w, a.w - lo.bit_length()), st)]
            # partition by the highest set bit
            k = (lo.bit_length() + hi.bit_length() + 1) // 2
            raise Split(T.icmp("ult", a, T.const(a.w, 1 << (k - 1) if k > lo.bit_length() else 1 << (k))))
        if n.startswith("llvm.abs"):
            raise Broken(n)
        if n.startswith("llvm.ctpop"):
            return [(T.op(args[0].w, "ctpop", args[0]), st)]
        raise Broken("intrinsic %s" % n)


# ---- tables ---------------------------------------------------------------------

def tblvals(eng, st, t):
    """possible values of a term that is a single constant-table lookup (small index range)"""
    a = t
    wrap = lambda x: x
    if a.kind == "cat" and len(a.a) == 2 and a.a[0][0] == "s" and a.a[0][2] == 0 and a.a[1] == ("k", 0, a.w - a.a[0][3]):
        if a.a[0][3] == a.a[0][1].w:
            a = a.a[0][1]
    if a.kind != "op" or a.a[0] != "tbl":
        return None
    r = tbl_enum(eng, st, a)
    return None if r is None else sorted(set(r.values()))


def tbl_index(t):
    """(atom, stride, base) of a tbl term's offset when it has one index atom"""
    off = t.a[2]
    k, m = T.lin_parts(off)
    if len(m) != 1:
        return None
    (a, c), = m.items()
    return a, c, k


def tbl_enum(eng, st, t):
    """{index value: table value} over the feasible index values (filters by other lookups
    of the same index)"""
    ix = tbl_index(t)
    if ix is None:
        return None
    a, c, k = ix
    lo, hi = st.iv(a)
    if hi - lo > 4096:
        return None
    oid, n = t.a[1], t.a[3]
    others = []
    for f, (x, y) in st.facts.items():
        b = f
        lohi = (x, y)
        if b.kind == "op" and b.a[0] == "tbl":
            i2 = tbl_index(b)
            if i2 and i2[0] is a:
                others.append((b.a[1], i2[1], i2[2], b.a[3], x, y, st.neq.get(b, ())))
    neqa = st.neq.get(a, ())
    out = {}
    for v in range(lo, hi + 1):
        if v in neqa:
            continue
        ok = True
        for o2, c2, k2, n2, x, y, ne in others:
            z = eng.const_bytes(st, o2, (k2 + c2 * v) & T.mask(64), n2)
            if z is None or not (x <= z <= y) or z in ne:
                ok = False
                break
        if ok:
            out[v] = eng.const_bytes(st, oid, (k + c * v) & T.mask(64), n)
    return out


# ---- externals ---------------------------------------------------------------------

def _ret(v, st):
    return [(v, st)]


def x_new(eng, st, args, fn, inst):
    n = st.resolve(args[0]) if args[0].kind != "const" else args[0]
    k = 0
    while ("heap", k) in st.mem:
        k += 1
    oid = ("heap", k)
    st.mem[oid] = Obj("heap", n.a if n.kind == "const" else n, {}, "undef")
    hook = getattr(eng, "on_alloc", None)
    if hook:
        hook(st, oid, inst)
    return [(Ptr(oid, 0), st)]


def x_delete(eng, st, args, fn, inst):
    p = args[0]
    if isinstance(p, T.Term):
        p = eng.to_ptr(p)
    if isinstance(p, T.Term):
        if p.kind == "const" and p.a == 0:
            return [(NULL, st)]
        raise Halt("ub", "delete of an indeterminate pointer")
    eng.obligation("free")
    o = st.mem.get(p.obj)
    if o is None or o.kind != "heap":
        raise Halt("ub", "delete of memory that was not allocated (%s)" % eng.objname(p.obj))
    if o.freed:
        raise Halt("ub", "double free of %s" % eng.objname(p.obj))
    if not (p.off.kind == "const" and p.off.a == 0):
        raise Halt("ub", "delete of a pointer into the middle of %s" % eng.objname(p.obj))
    st.mem[p.obj] = o.with_(cells={}, freed=True, _key=None)
    return [(NULL, st)]


def x_assert(eng, st, args, fn, inst):
    s = cstr(eng, st, args[0])
    f = cstr(eng, st, args[1])
    l = args[2].a if isinstance(args[2], T.Term) and args[2].kind == "const" else "?"
    eng.exit("assert", "assertion `%s' (%s:%s)" % (s, (f or "").split("/")[-1], l), st, inst)
    return []


def x_throw(eng, st, args, fn, inst):
    eng.exit("throw", short(fn.dem), st, inst)
    return []


def x_abort(eng, st, args, fn, inst):
    eng.exit("abort", short(fn.dem), st, inst)
    return []


def x_memcpy(eng, st, args, fn, inst):
    eng.memcpy(st, args[0], args[1], args[2], inst)
    return [(args[0], st)]


def x_memset(eng, st, args, fn, inst):
    eng.memset(st, args[0], T.trunc(args[1], 8), args[2], inst)
    return [(args[0], st)]


def x_memcmp(eng, st, args, fn, inst):
    a, b, n = args
    n = st.resolve(n) if n.kind != "const" else n
    if n.kind != "const":
        z = T.icmp("eq", n, T.const(64, 0))
        r = st.eval(z)
        if r is None:
            raise Split(z)
        if r:
            return [(T.const(32, 0), st)]
    elif n.a == 0:
        return [(T.const(32, 0), st)]
    if n.kind == "const":
        a, oa = eng.object(st, a, inst, n)
        b, ob = eng.object(st, b, inst, n)
        for j in range(n.a):
            k = T.const(64, j)
            x = eng.raw_read(st, a.obj, oa, T.add(a.off, k), 1)
            y = eng.raw_read(st, b.obj, ob, T.add(b.off, k), 1)
            e = T.icmp("eq", x, y)
            r = st.eval(e)
            if r is None:
                raise Split(e)
            if not r:
                c = T.icmp("ult", x, y)
                r = st.eval(c)
                if r is None:
                    # sign matters rarely: keep it symbolic but non-zero
                    t = T.op(32, "cmpsign", x, y)
                    s = st
                    s.assume(T.icmp("ne", t, T.const(32, 0)), True)
                    return [(t, s)]
                return [(T.const(32, -1 if r else 1), st)]
        return [(T.const(32, 0), st)]
    pa = eng.snapshot(st, a, n, inst)
    pb = eng.snapshot(st, b, n, inst)
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0][2], Blob) and isinstance(pb[0][2], Blob):
        x, y = pa[0][2], pb[0][2]
        if x.src == y.src and eng.eqoff(st, x.off, y.off):
            return [(T.const(32, 0), st)]
        return [(T.op(32, "memcmp", x.src, x.off, y.src, y.off, n), st)]
    raise Broken("memcmp of symbolic length over composed content")


M64 = (1 << 64) - 1


def xxh64(b, seed=0):
    """the XXH64 hash of a constant byte string (published algorithm)"""
    P1, P2, P3, P4, P5 = (0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63,
                          0x27D4EB2F165667C5)

    def rot(x, r):
        return ((x << r) | (x >> (64 - r))) & M64

    def rnd(acc, x):
        return rot((acc + x * P2) & M64, 31) * P1 & M64
    n, i = len(b), 0
    if n >= 32:
        v = [(seed + P1 + P2) & M64, (seed + P2) & M64, seed, (seed - P1) & M64]
        while i + 32 <= n:
            for j in range(4):
                v[j] = rnd(v[j], int.from_bytes(b[i:i + 8], "little"))
                i += 8
        h = (rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18)) & M64
        for x in v:
            h = ((h ^ rnd(0, x)) * P1 + P4) & M64
    else:
        h = (seed + P5) & M64
    h = (h + n) & M64
    while i + 8 <= n:
        h = (rot(h ^ rnd(0, int.from_bytes(b[i:i + 8], "little")), 27) * P1 + P4) & M64
        i += 8
    if i + 4 <= n:
        h = (rot(h ^ (int.from_bytes(b[i:i + 4], "little") * P1 & M64), 23) * P2 + P3) & M64
        i += 4
    while i < n:
        h = rot(h ^ (b[i] * P5 & M64), 11) * P1 & M64
        i += 1
    h = (h ^ (h >> 33)) * P2 & M64
    h = (h ^ (h >> 29)) * P3 & M64
    return h ^ (h >> 32)


def x_xxh64(eng, st, args, fn, inst):
    """hash of constant bytes: its value; of symbolic content: an uninterpreted function of it"""
    p, n, seed = args
    if seed.kind != "const":
        raise Broken("hash with symbolic seed")
    m = st.resolve(n) if n.kind != "const" else n
    if m.kind == "const" and m.a == 0:
        return [(T.const(64, xxh64(b"", seed.a)), st)]
    ps = eng.snapshot(st, p, m, inst)
    blob = ps[0][2] if len(ps) == 1 and isinstance(ps[0][2], Blob) else None
    if blob is not None and blob.src[0] != "const":
        memo = st.ghost.get("xxh64", ())
        for src, off, k, sd, h in memo:
            if src == blob.src and sd == seed.a and st.same(off, blob.off) and st.same(k, n):
                return [(h, st)]
    if m.kind == "const":
        p, o = eng.object(st, p, inst, m)
        bs = [eng.raw_read(st, p.obj, o, T.add(p.off, T.const(64, j)), 1) for j in range(m.a)]
        bs = [st.resolve(b) if b.kind != "const" else b for b in bs]
        if all(b.kind == "const" for b in bs):
            return [(T.const(64, xxh64(bytes(b.a for b in bs), seed.a)), st)]
    if blob is None:
        raise Broken("hash of composed content")
    h = T.sym(64, ("xxh64", seed.a, blob.src, blob.off, n))
    st.ghost["xxh64"] = memo + ((blob.src, blob.off, n, seed.a, h),)
    return [(h, st)]


def x_strlen(eng, st, args, fn, inst):
    s = cstr(eng, st, args[0])
    if s is None:
        raise Broken("strlen of symbolic string")
    return [(T.const(64, len(s)), st)]


def cstr(eng, st, p):
    try:
        p, o = eng.object(st, p, None)
    except Halt:
        return None
    out, k = [], 0
    while k < 4096:
        c = eng.raw_read(st, p.obj, o, T.add(p.off, T.const(64, k)), 1)
        if not (isinstance(c, T.Term) and c.kind == "const"):
            return None
        if c.a == 0:
            return bytes(out).decode("latin1")
        out.append(c.a)
        k += 1
    return None


def x_noop(eng, st, args, fn, inst):
    return [(T.const(64, 0), st)]


def x_guard_acquire(eng, st, args, fn, inst):
    p, o = eng.object(st, args[0], inst, 1)
    v = eng.raw_read(st, p.obj, o, p.off, 1)
    if v.kind == "const" and v.a:
        return [(T.const(32, 0), st)]
    return [(T.const(32, 1), st)]


def x_guard_release(eng, st, args, fn, inst):
    eng.store(st, args[0], T.const(8, 1), inst)
    return [(NULL, st)]


EXT = {
    "_Znwm": x_new, "_Znam": x_new, "_ZnwmRKSt9nothrow_t": x_new, "malloc": x_new,
    "_ZdlPv": x_delete, "_ZdaPv": x_delete, "_ZdlPvm": x_delete, "_ZdaPvm": x_delete, "free": x_delete,
    "__assert_fail": x_assert, "abort": x_abort, "_ZSt9terminatev": x_abort,
    "__cxa_pure_virtual": x_abort,
    "memcpy": x_memcpy, "memmove": x_memcpy, "memset": x_memset, "memcmp": x_memcmp, "bcmp": x_memcmp,
    "strlen": x_strlen, "XXH64": x_xxh64, "__cxa_guard_acquire": x_guard_acquire, "__cxa_guard_release": x_guard_release,
    "__cxa_atexit": x_noop,
    "_ZNSt14error_categoryD2Ev": x_noop, "_ZNSt14error_categoryD1Ev": x_noop,
}
EXT_PREFIX = [("_ZSt20__throw", x_throw), ("_ZSt17__throw", x_throw), ("_ZSt19__throw", x_throw),
              ("_ZSt24__throw", x_throw), ("_ZSt28__throw", x_throw), ("_ZSt16__throw", x_throw),
              ("_ZSt25__throw", x_throw), ("_ZSt21__throw", x_throw), ("_ZSt27__throw", x_throw),
              ("__cxa_throw", x_throw)]


def h_log(eng, st, args, fn, inst):
    return [(T.const(64, 0), st)]


def h_copy_m(eng, st, args, fn, inst):
    """std::copy between byte-sized character types: an element loop in libstdc++, a block copy here"""
    first, last, d = args
    n = eng.icmp_sub(st, last, first)
    if n is None:
        return None
    eng.memcpy(st, d, first, n, inst)
    if not isinstance(d, Ptr):
        d = eng.to_ptr(d)
    if not isinstance(d, Ptr):
        return [(T.add(d, n), st)]
    return [(Ptr(d.obj, T.add(d.off, n)), st)]


# logging is not part of any property: its calls are effect-free for the analysis
DEFAULT_HOOKS = [(re.compile(r"(void )?bnl::base::log.*"), h_log),
                 (re.compile(r"(unsigned )?char\* std::__copy_move<.*::__copy_m<(unsigned )?char( const)?\*, (unsigned )?char\*>\(.*"),
                  h_copy_m)]
