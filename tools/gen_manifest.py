#!/usr/bin/env python3
"""Write MANIFEST.json: a check for every property that has a rule module, the rest not applicable."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "abstract interpretation of every party's code into value graphs (gated SSA over the syntax tree), graphs compared with the specification by random interpretation"
TECH = {
    "C01": VG + " of the opened values: rank of the mask coefficients",
    "C02": "call-graph / effect analysis: which entry points reach an opening of a user's sharing",
    "C03": "typestate of cache entries on abstract heaps, events of provider calls",
    "C04": "provenance of generator seeds and of every draw (generator, range) on abstract runs",
    "C05": VG,
    "C06": VG, "C07": VG,
    "C08": VG + "; dealer and party draws aligned by generator and position",
    "C09": VG + " over the rationals and the 64-bit ring",
    "C10": VG + " over representatives of all sign and order patterns",
    "C11": "abstract interpretation into word-level value graphs; canonical decision diagrams per bit, and random interpretation over 64-bit words",
    "C12": "effect analysis: communication event sequences of all parties aligned; asynchronous requests tracked as typestate",
    "C13": "heap effect / alias analysis on abstract heaps before and after the call",
    "C14": VG + " of recorded programs; gradients compared with numeric vector-Jacobian products of the plaintext function at random points",
    "C15": VG + "; programs with shared nodes, scopes and exceptional exits, and generated graphs",
    "C16": "dataflow of configuration keys against the defined keys; abstract interpretation of the override scope including exceptional exits",
    "C17": "reachability on the call graph from received bytes to unrestricted decoders; closure of the allow-list",
    "C18": VG,
    "C19": VG + " over representatives of all order patterns including ties",
    "C20": "abstract interpretation of programs over module trees on abstract heaps: " + VG,
    "C21": VG + "; external layer classes given by a specification module, imported graphs by stand-in nodes",
    "C22": "information-flow of labels/features into communication events; " + VG,
    "C23": "abstract interpretation of both backends, effects and transferred values compared",
    "C24": VG + " over the 64-bit ring, with interval bounds of each floating-point block",
    "C25": VG,
    "C26": VG + " with the drawn bits as free symbols",
    "C27": "typestate and exception-flow analysis of the launchers",
}
NA = {
    "N01": "quantifies over rounding errors of iterated approximations at run time; no sound static bound in reach",
    "N02": "a statement about computational distributions; static analysis decides only structure (see C01, C04)",
    "N03": "liveness under crashes depends on the transport library's timeouts, which are not in the source",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "sa", "rules", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": "python3-vt /verif/check.py %s" % pid,
                "thorough_cmd": "python3-vt /verif/check.py %s --thorough" % pid,
                "technique": TECH[pid],
                "level": "other",
                "level_note": "static analysis of the current source of /repo; quantifies over all tensor values by random interpretation "
                              "(error probability below 2^-40 per obligation), over the enumerated entry points, options, shapes and party counts; "
                              "constructs outside the analysis are reported undecided in the evidence",
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "no rule built")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Checks read /repo's working tree only (no build, no import, no execution of /repo code)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
