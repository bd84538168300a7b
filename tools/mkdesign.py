#!/usr/bin/env python3
"""Write the per-property part of DESIGN.md from the registry and properties.jsonl."""
import json
import os
import re

import registry

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    m = json.load(open(os.path.join(V, "MANIFEST.json")))
    na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in m.get("not_applicable", [])}
    out = []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        pid = p["id"]
        out.append("### %s %s\n" % (pid, p["title"]))
        if pid in registry.CHECKS:
            c = registry.CHECKS[pid]
            n = len(c["units"])
            out.append(c["explanation"] + "\n")
            specs = sorted({u["spec"] for u in c["units"]})
            where = []
            if n:
                where.append("%d units of %s" % (n, ", ".join("specs/" + s for s in specs)))
            if c["queries"]:
                where.append("queries " + ", ".join(getattr(q, "__name__", "q").replace("run", "q_exchange") for q in c["queries"]) + " of tools/queries.py")
            out.append("*Decided by* " + "; ".join(where) + ".")
            if c["assumptions"]:
                out.append("*Assumes* " + " ".join(c["assumptions"]))
            out.append("*Remark* " + c["note"] + "\n")
        elif pid in na:
            out.append("Not applicable: " + na[pid] + "\n")
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    b, e = "<!-- methods: written by tools/mkdesign.py -->\n", "<!-- end of methods -->\n"
    s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda x: b + "\n" + "\n".join(out) + "\n" + e, s, flags=re.S)
    open(p, "w").write(s)


main()
