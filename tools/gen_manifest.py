#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]

COMMON = ("Decided by forward abstract interpretation of the LLVM IR clang emits from the current sources; exact for the "
          "enumerated input classes, trusts clang's lowering and the interpreter in absint/. Reports only refutations with a "
          "concrete member of the abstract state; obligations it cannot decide are counted as undecided in the evidence.")

CHECKS = {
    "C01": ("bit-provenance dataflow over compiler IR", COMMON),
    "C02": ("bit-provenance dataflow over compiler IR, per input class and container", COMMON),
    "C03": ("bit-provenance dataflow over compiler IR, per encoded-length class", COMMON),
    "C04": ("bit-provenance dataflow over compiler IR, per input class and container", COMMON),
    "C05": ("constant-table extraction from compiler IR and exhaustive comparison with the reference code", COMMON),
    "C06": ("bit-provenance dataflow over compiler IR, per symbol class and bit alignment", COMMON),
    "C07": ("bit-provenance dataflow over compiler IR, per automaton state class and container", COMMON),
    "C08": ("constant/bit-provenance dataflow over compiler IR, per static table entry", COMMON),
    "C10": ("bit-provenance dataflow over compiler IR with contracts for literals, per instruction class", COMMON),
    "C11": ("bit-provenance dataflow over compiler IR, per frame type and field length class", COMMON),
    "C12": ("bit-provenance dataflow over compiler IR, per input class of a specification parser", COMMON),
    "C13": ("bit-provenance dataflow over compiler IR, per input class of a specification parser", COMMON),
    "C16": ("constant extraction and bit-provenance dataflow over compiler IR", COMMON),
    "C09": ("bit-provenance dataflow over compiler IR with contracts for the Huffman layer", COMMON),
    "C14": ("interval, bounds and typestate analysis of every access on all decoder paths in compiler IR", COMMON),
    "C15": ("symbolic position tracking over compiler IR, at every decoder exit", COMMON),
    "C17": ("typestate dataflow over compiler IR, all call sequences up to a bound, with contracts for field lines", COMMON),
    "C18": ("symbolic position tracking over compiler IR across calls, with contracts for field lines", COMMON),
    "C19": ("typestate dataflow over compiler IR, all call sequences up to a bound", COMMON),
    "C20": ("symbolic position tracking over compiler IR across calls", COMMON),
    "C21": ("typestate dataflow over compiler IR, every send sequence with failing encoders", COMMON),
    "C22": ("typestate dataflow over compiler IR, frames of every type with symbolic fields, every cut", COMMON),
    "C23": ("typestate dataflow over compiler IR, all call sequences up to a bound, with contracts for field lines", COMMON),
    "C24": ("typestate dataflow over compiler IR, messages of symbolic content, every cut and end position", COMMON),
    "C25": ("lifetime typestate over streams and handles in compiler IR, every operation sequence up to a bound", COMMON),
    "C26": ("typestate dataflow over compiler IR, operation sequences of a connection with several requests", COMMON),
    "C27": ("typestate dataflow over compiler IR, operation sequences of a connection with several requests", COMMON),
    "C28": ("typestate dataflow over compiler IR, all call sequences over all outcomes of the connection up to a bound", COMMON),
    "C39": ("symbolic byte tracking over compiler IR through both endpoints, per cut and interleaving of the streams", COMMON),
    "C29": ("ownership typestate over the abstract heap, operations on all buffer representations", COMMON),
    "C30": ("symbolic content tracking over compiler IR, operations on all buffer representations", COMMON),
    "C31": ("symbolic content tracking over compiler IR, operations on chains", COMMON),
    "C32": ("symbolic position tracking over compiler IR, nested lookaheads", COMMON),
    "C34": ("constant extraction and total case coverage over compiler IR for every error value", COMMON),
    "C35": ("def-use dataflow over compiler IR at every call site of a fallible operation, and failure propagation", COMMON),
    "C36": ("symbolic comparison over compiler IR on all header and view representations", COMMON),
    "C37": ("symbolic byte tracking over compiler IR through addresses, endpoints and paths", COMMON),
    "C33": ("ownership and tag typestate over the abstract heap; symbolic comparison", COMMON),
}
NA = {
    "C38": "The QUIC endpoints (bnl/quic) are not part of any build here: their headers (ngtcp2, OpenSSL/BoringSSL QUIC) are absent, so there is no "
           "type-checked program or IR to analyse; and what the property quantifies over (loss, reordering, timers, a second ngtcp2 "
           "implementation's state) lives in ngtcp2, which is no part of this repository, so no static argument over this source can bound it.",
}


def main():
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in CHECKS:
            t, note = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + t,
                           "level": "other", "level_note": note})
        else:
            na.append({"property": i, "reason": NA[i]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "Every check re-reads /repo's sources (IR cached under .cache keyed by their hash). See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
