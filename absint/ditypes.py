"""Declared return types of functions, from the debug information of the compiled modules."""
import json
import os
import re
import subprocess

DIS = "/usr/bin/llvm-dis-18"
LINE = re.compile(r"^(!\d+) = (?:distinct )?(!.*)$", re.M)


def returns(bc):
    """{function name: mangled name of its declared return type} for one module (cached beside it)"""
    cache = bc + ".ret.json"
    if os.path.exists(cache):
        with open(cache) as f:
            return json.load(f)
    txt = subprocess.run([DIS, bc, "-o", "-"], capture_output=True, text=True, check=True).stdout
    md = {}
    for m in LINE.finditer(txt):
        s = m.group(2)
        if s.startswith(("!DISubprogram", "!DISubroutineType", "!DIDerivedType", "!DICompositeType", "!{")):
            md[m.group(1)] = s

    def field(s, n):
        m = re.search(r"[(, ]%s: (!\d+|\"[^\"]*\"|\w+)" % n, s)
        return m.group(1).strip('"') if m else None

    def ident(ref):
        for _ in range(12):
            s = md.get(ref)
            if s is None:
                return None
            if s.startswith("!DICompositeType"):
                return field(s, "identifier")
            if s.startswith("!DIDerivedType"):
                if field(s, "tag") not in ("DW_TAG_typedef", "DW_TAG_const_type"):
                    return None
                ref = field(s, "baseType")
                continue
            return None
        return None
    out = {}
    for s in md.values():
        if not s.startswith("!DISubprogram"):
            continue
        n = field(s, "linkageName") or field(s, "name")
        t = md.get(field(s, "type") or "")
        if not n or not t:
            continue
        m = re.match(r"!\{(!\d+|null)", md.get(field(t, "types") or "", ""))
        r = ident(m.group(1)) if m and m.group(1) != "null" else None
        if r:
            out[n] = r
    tmp = cache + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, cache)
    return out
