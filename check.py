#!/usr/bin/env python3
"""check.py <property id> : decide one property on /repo's current sources (see DESIGN.md)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

WHERE = {}
for mod, ids in (("codec", "C01 C02 C03 C04"), ("huffman", "C05 C06 C07"), ("literal", "C09"), ("qpack", "C08 C10"),
                 ("frame", "C11 C12 C13 C16"), ("buffers", "C29 C30 C31 C32"), ("decoders", "C14 C15"), ("events", "C33"), ("failures", "C35"), ("errors", "C34"), ("views", "C36 C37"),
                 ("sections", "C17 C18 C19 C20"), ("endpoint", "C21 C22 C23 C24 C25"),
                 ("connection", "C26 C27 C28 C39")):
    for i in ids.split():
        WHERE[i] = mod


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import importlib
    from absint.check import Check, Enough
    from absint.engine import Broken
    m = importlib.import_module("checks." + WHERE[pid])
    try:
        chk = Check(pid, tier, seed)
        return getattr(m, pid)(chk)
    except (Broken, Enough) as e:
        if chk.violations:
            return chk.finish(0, "stopped early after refutations")
        print("analysis broken: %s: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    import threading
    threading.stack_size(512 << 20)
    rc = []
    from absint.frontend import deep
    t = threading.Thread(target=lambda: rc.append(deep(main)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
