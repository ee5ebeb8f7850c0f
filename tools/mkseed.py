#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: writes seeded/<id>/ from a list of planted changes (edits are made on a scratch copy of HEAD).

SPEC.py defines SEEDS = [(id, property, needs, breaks, [(file, old, new)...], demo_cpp)]."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = open(os.path.join(HERE, "tools", "demo_template.sh")).read()
ns = {}
exec(open(sys.argv[1]).read(), ns)
for i, prop, needs, breaks, edits, demo in ns["SEEDS"]:
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q .; git add -A; "
                              "git -c user.name=x -c user.email=x commit -qm x" % (t, t), shell=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", t, "diff"]))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    print(i)
