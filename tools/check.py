#!/usr/bin/env python3
"""Decide one property: check.py <property id>.

Exit 0: holds on everything analysed; 1: violated (VIOLATION line); 2: the analysis could not be carried out.
"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild
import registry

VERIF = irbuild.VERIF
PTAI = os.path.join(VERIF, "build", "ptai")


def attempt(unit, opts, limit):
    mod = unit["module"]
    out = os.path.join(os.path.dirname(mod), unit["entry"] + ".json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [PTAI, mod, unit["entry"], "-o", out, "-t", str(limit)] + opts
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return {"entry": unit["entry"], "inconclusive": "time limit", "findings": [], "broken": True}
    if p.returncode or not os.path.exists(out):
        return {"entry": unit["entry"], "inconclusive": "analyser failed: " + p.stderr[-2000:], "findings": []}
    with open(out) as f:
        r = json.load(f)
    # the layers below are other properties' business
    if "objects" in unit:
        r["findings"] = [f for f in r["findings"] if f["kind"] in ("labels", "assert", "equal", "never", "written") or any("object '%s'" % o in f["msg"] for o in unit["objects"])]
    return r


# Each attempt is a sound analysis of its own; later ones keep more paths apart, or unroll loops further, before they
# approximate.  An obligation one attempt establishes is established.
DEADLINE = time.time() + 700
RETRIES = [(["-m", "4"], 150), (["-m", "2", "-u", "4"], 150)]


def analyse(unit, irdir, tier):
    r = attempt(unit, [], unit.get("limit", 600))
    if (r.get("inconclusive") or "").startswith("analyser"):
        return r
    for opts, limit in RETRIES:
        left = DEADLINE - time.time()
        if not r.get("inconclusive") and not badness(r) or left < 20:
            break
        q = attempt(unit, opts, int(min(limit, left)))
        if q.get("inconclusive"):
            continue
        if r.get("inconclusive") or badness(q) < badness(r):
            r = q
    return r


def badness(r):
    return len({(f["kind"], f["rule"], f["loc"]) for f in r["findings"] if f["kind"] != "lock-order-edge"})


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def matches(k, prop, f):
    return (k["property"] == prop and k["kind"] == f["kind"] and k["rule"] == f["rule"] and k["function"] == f["fn"]
            and k.get("entry", f.get("entry")) == f.get("entry") and all(x in " ".join(f["stack"]) for x in k.get("via", [])))


def lock_cycles(edges):
    succ = {}
    for r in edges:
        a, b = r.split(" -> ")
        succ.setdefault(a, set()).add(b)

    def reaches(a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False

    out = []
    for r, f in sorted(edges.items()):
        a, b = r.split(" -> ")
        if a == b or reaches(b, a):
            site = next((x for x in f["stack"] if "ai_model_" not in x), f["stack"][0])
            fn, loc = site.split(" at ", 1)
            out.append({"kind": "lock-order", "rule": "locks are acquired in one global order", "fn": fn, "loc": loc,
                        "entry": f.get("entry"), "msg": "%s while another operation takes them the other way round" % r,
                        "stack": f["stack"], "path": f["path"]})
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = registry.CHECKS[prop]
    errors, results, findings = [], [], []
    explanation = spec["explanation"]
    try:
        if not os.path.exists(PTAI):
            irbuild.run(["make", "-C", os.path.join(VERIF, "ptai"), "-j4"])
        irdir = irbuild.ir()
        units = [dict(u) for u in spec.get("units", [])]
        mods = {}
        for u in units:
            k = (u["spec"], tuple(u.get("groups", ["libipt"])), tuple(u.get("defines", ())))
            mods.setdefault(k, []).append(u)
        with ThreadPoolExecutor(8) as ex:
            for k, m in zip(mods, ex.map(lambda k: irbuild.spec_module(irdir, k[0], k[1], k[2]), mods)):
                for u in mods[k]:
                    u["module"] = m
        units.sort(key=lambda u: -u.get("cost", 0))
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda u: analyse(u, irdir, tier), units))
        for u, r in zip(units, results):
            for f in r["findings"]:
                f["entry"] = r["entry"]
                findings.append(f)
            if r.get("inconclusive"):
                errors.append("%s: %s" % (r["entry"], r["inconclusive"]))
                continue
            for x in r.get("unmodelled", []):
                errors.append("%s: not modelled: %s" % (r["entry"], x))
            key = (u["spec"], u["entry"])
            for x in r.get("unreached", []):
                # the pre-states of an entry may be spread over several units
                if any((v["spec"], v["entry"]) == key and v is not u and x in q.get("reached", []) for v, q in zip(units, results)):
                    continue
                findings.append({"kind": "unreachable", "rule": x, "loc": u["spec"], "fn": r["entry"], "entry": r["entry"],
                                 "msg": "no execution reaches this outcome any more", "stack": [r["entry"]], "path": []})
        for fn in spec.get("queries", []):
            r = fn(irdir)
            results.append(r)
            findings += r["findings"]
            errors += r.get("errors", [])
    except irbuild.Broken as e:
        print("analysis broken: %s" % e)
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2

    if spec.get("errors_are") and errors and any(r.get("inconclusive") or r.get("unmodelled") for r in results):
        # on a tree where the property holds the analysis ends in every case
        findings += [{"kind": "assert", "rule": spec["errors_are"], "loc": e.split(":")[0], "fn": e.split(":")[0], "entry": e.split(":")[0],
                      "msg": "it is not: the analysis runs on beyond the check of the arguments (%s)" % e[:200], "stack": [e.split(":")[0]], "path": []} for e in errors]
        errors = []

    # edges of the lock order graph: only a cycle is a violation
    edges = {}
    for f in findings:
        if f["kind"] == "lock-order-edge":
            edges.setdefault(f["rule"], f)
    findings = [f for f in findings if f["kind"] != "lock-order-edge"]
    if spec.get("lock_order"):
        findings += lock_cycles(edges)

    # obligations of other properties that share the analysis
    skip = spec.get("skip_kinds", ())
    findings = [f for f in findings if f["kind"] not in skip]

    known = known_findings()
    new, old, seen = [], [], set()
    for f in findings:
        sig = (f["kind"], f["rule"], f["fn"], f["loc"])
        if sig in seen:
            continue
        seen.add(sig)
        hit = [k for k in known if matches(k, prop, f)]
        if hit:
            if hit[0]["id"] not in [x["id"] for x in old]:
                old.append(hit[0])
        else:
            new.append(f)

    def total(name):
        return sum(r.get(name, 0) for r in results)

    fns = sorted(set(x for r in results for x in r.get("functions", [])))
    obl = {}
    for r in results:
        for k, (n, sites) in r.get("obligations", {}).items():
            a = obl.setdefault(k, [0, 0])
            a[0] += n
            a[1] += sites
    rules = sorted(set(x for r in results for x in r.get("asserts", {})))
    checked = sum(v[0] for v in obl.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "other"),
        "coverage": {
            "explanation": explanation,
            "entries": [r["entry"] for r in results if "entry" in r],
            "rules": rules,
            "obligations": checked,
            "discharged": checked - len(findings),
            "obligation_kinds": {k: {"evaluated": v[0], "program_points": v[1]} for k, v in sorted(obl.items())},
            "functions_analysed": len(fns), "functions": fns[:400],
            "abstract_states": total("states"), "joins": total("joins"), "widenings": total("widenings"),
            "branch_partitions": total("forks"), "instructions_interpreted": total("steps"),
            "outcomes": {r["entry"]: r.get("outcomes", 0) for r in results if "entry" in r},
            "outcomes_required_reachable": sorted(set(x for r in results for x in r.get("reached", []))),
            "notes": sorted(set(x for r in results for x in r.get("notes", []))),
            "lock_order_edges": sorted(edges),
            "query_results": [r["summary"] for r in results if "summary" in r],
            "checker_cmd": "python3 tools/check.py " + prop,
        },
        "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if new:
        rp = os.path.join("evidence", prop + ".violations.json")
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump(new, f, indent=1)
        for f in new:
            print("%s: %s: [%s] %s: %s" % (f["loc"], f["fn"], f["kind"], f["rule"], f["msg"]))
            for s in f["stack"][1:]:
                print("    from %s" % s)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for e in errors[:40]:
            print("analysis incomplete: " + e)
        return 2
    print("%s: held (%d obligations at %d program points, %d functions, %.1fs)" %
          (prop, checked, sum(v[1] for v in obl.values()), len(fns), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
