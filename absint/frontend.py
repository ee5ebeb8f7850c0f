"""Compile /repo's translation units to LLVM IR (typed program representation) and load them.

Output is cached under /verif/.cache keyed by a hash of every source/header that can be
included and of the compile command, so a changed tree is always recompiled.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .llvmir import Program
from .engine import Broken

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
DEPS = "/opt/vp/deps"

BASE = ["bnl/base/src/base/buffer.cpp", "bnl/base/src/base/buffers.cpp", "bnl/base/src/base/buffer_view.cpp",
        "bnl/base/src/base/string_view.cpp", "bnl/base/src/base/system_error.cpp", "bnl/base/src/log.cpp",
        "bnl/base/src/http3/header.cpp", "bnl/base/src/http3/event.cpp", "bnl/base/src/http3/settings.cpp",
        "bnl/base/src/quic/event.cpp", "bnl/base/src/quic/path.cpp", "bnl/base/src/ip/address.cpp",
        "bnl/base/src/ip/endpoint.cpp", "bnl/base/src/ip/host.cpp", "bnl/base/src/ip/address/ipv4.cpp",
        "bnl/base/src/ip/address/ipv6.cpp"]


def lib_sources(lib):
    """all .cpp files of a library's src directory that are compiled on their own"""
    root = os.path.join(REPO, "bnl", lib, "src")
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".cpp") and not f.endswith("_generated.cpp"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def _stubs():
    d = os.path.join(CACHE, "gen")
    for lib in ("base", "http3", "log", "quic"):
        p = os.path.join(d, "bnl", lib)
        f = os.path.join(p, "export.hpp")
        if os.path.exists(f):
            continue
        os.makedirs(p, exist_ok=True)
        tmp = f + ".%d" % os.getpid()
        with open(tmp, "w") as h:
            h.write("#pragma once\n#define BNL_%s_EXPORT\n#define BNL_%s_NO_EXPORT\n" % (lib.upper(), lib.upper()))
        os.replace(tmp, f)
    return d


def flags():
    return ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-w",
            "-I", _stubs(), "-I", REPO + "/bnl/base/include", "-I", REPO + "/bnl/http3/include",
            "-I", REPO + "/bnl/log/include", "-I", DEPS + "/outcome", "-I", DEPS + "/xxhash",
            "-include", DEPS + "/compat/compat.hpp"]


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, "bnl"))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".in")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        h.update(REPO.encode())
        _tree = h.hexdigest()
    return _tree


def compile_one(src, extra=(), passes="sroa,simplifycfg"):
    """src: path relative to REPO, or absolute (models); returns path of .bc"""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    cmd = [CLANG] + flags() + list(extra) + ["-c", "-emit-llvm", path]
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    with open(path, "rb") as f:
        h.update(f.read())
    h.update(repr(cmd).encode())
    h.update(passes.encode())
    out = os.path.join(CACHE, "bc", h.hexdigest()[:32] + ".bc")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".bc", dir=os.path.dirname(out))
    os.close(fd)
    fd, tmp2 = tempfile.mkstemp(suffix=".bc", dir=os.path.dirname(out))
    os.close(fd)
    try:
        r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise Broken("cannot compile %s:\n%s" % (src, r.stderr[-2000:]))
        r = subprocess.run([OPT, "-passes=" + passes, tmp, "-o", tmp2], capture_output=True, text=True)
        if r.returncode:
            raise Broken("opt failed on %s:\n%s" % (src, r.stderr[-2000:]))
        os.replace(tmp2, out)
    finally:
        for t in (tmp, tmp2):
            if os.path.exists(t):
                os.unlink(t)
    return out


def program(sources, models=("models.cpp",), extra=()):
    """load the given repository sources (+ analysis models of the C++ runtime); what they use but
    do not define (code moved to another file) is looked for in the rest of the libraries"""
    srcs = [s for s in sources if os.path.exists(os.path.join(REPO, s))]
    srcs += [os.path.join(VERIF, "absint", m) for m in models]
    _stubs()

    def load(names):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: compile_one(s, extra), names))
    paths = load(srcs)
    p = Program(paths)
    p.sources = list(sources)
    p.compiled = dict(zip(srcs, paths))
    p.rest = lambda: load([s for s in lib_sources("base") + lib_sources("http3") if s not in srcs])
    return p


def prune_cache(keep_mb=600):
    d = os.path.join(CACHE, "bc")
    if not os.path.isdir(d):
        return
    fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)]
    fs.sort(reverse=True)
    tot = 0
    for _, f in fs:
        tot += os.path.getsize(f)
        if tot > keep_mb << 20:
            os.unlink(f)
def deep(fn):
    """run fn on an interpreter stack chunk of its own (avoids allocating one per call level)"""
    def big():
        return fn()
    big.__code__ = big.__code__.replace(co_stacksize=(1 << 20) + 64)
    return big()
