"""Queries over the linked IR and the syntax tree; each returns findings in the format of the interpreter."""
import json, os, re, subprocess
import irbuild
from concurrent.futures import ThreadPoolExecutor

IRQ = os.path.join(irbuild.VERIF, "build", "irq")


def linked(irdir, groups):
    name = "+".join(groups)
    dst = os.path.join(irdir, name + ".bc")
    if not os.path.exists(dst):
        tmp = dst + ".%d" % os.getpid()
        irbuild.run([irbuild.LLVM + "/llvm-link", "-o", tmp] + [os.path.join(irdir, g + ".bc") for g in groups])
        os.rename(tmp, dst)
    return name


def irq(irdir, group, mode, *args):
    if not os.path.exists(IRQ):
        irbuild.run(["make", "-C", os.path.join(irbuild.VERIF, "ptai"), "-j4"])
    mod = os.path.join(irdir, group + ".m2r.%d.bc" % os.getpid())
    irbuild.run([irbuild.LLVM + "/opt", "-passes=mem2reg", os.path.join(irdir, group + ".bc"), "-o", mod])
    out = os.path.join(irdir, "irq.%s.%s.%d.json" % (group, mode, os.getpid()))
    files = []
    for i, a in enumerate(args):
        f = out + ".arg%d" % i
        with open(f, "w") as o:
            o.write("\n".join(str(x) for x in a) + "\n")
        files.append(f)
    try:
        irbuild.run([IRQ, mod, mode, out] + files)
        with open(out) as f:
            r = json.load(f)
    finally:
        for f in files + [mod, out]:
            if os.path.exists(f):
                os.unlink(f)
    for f in r["findings"]:
        f["entry"] = "query:" + mode + ":" + group
        if f["loc"].startswith(irbuild.REPO + "/"):
            f["loc"] = f["loc"][len(irbuild.REPO) + 1:]
    return r


def result(name, rs):
    """Merge into the format check.py expects."""
    return {
        "entry": "query:" + name, "outcomes": 0,
        "findings": [f for r in rs for f in r["findings"]],
        "functions": sorted(set(x for r in rs for x in r["functions"])),
        "obligations": {name: [sum(r["obligations"] for r in rs)] * 2},
        "errors": [x for r in rs for x in r.get("errors", [])],
        "summary": {"query": name, "stats": [r["stats"] for r in rs]},
    }


def q_globals(irdir):
    return result("no mutable global state", [irq(irdir, g, "globals") for g in ("libipt", "sideband", "pevent")])


def q_input(irdir):
    return result("stores into the caller's input", [irq(irdir, "libipt", "input")])


def public_functions(kind):
    """The exported functions of the public headers that return a status."""
    out = []
    for h in ("libipt/include/intel-pt.h.in", "sideband/include/libipt-sb.h.in"):
        with open(os.path.join(irbuild.REPO, h)) as f:
            t = re.sub(r"/\*.*?\*/", "", f.read(), flags=re.S)
        out.append(sorted(set(re.findall(r"\bextern\s+(?:pt_export\s+|pt_sb_export\s+)?int\s+(pt_\w+)\s*\(", t))))
    return out[kind]


# Functions documented to return zero on success; every other public function also returns counts, sizes or flags.
ZERO = """pt_cpu_errata pt_enc_sync_set pt_enc_get_offset pt_pkt_sync_set pt_pkt_get_offset pt_pkt_get_sync_offset pt_evt_get_offset
pt_evt_get_sync_offset pt_qry_get_offset pt_qry_get_sync_offset pt_qry_time pt_qry_core_bus_ratio pt_iscache_set_limit
pt_image_add_file pt_image_add_cached pt_image_set_callback pt_insn_get_offset pt_insn_get_sync_offset pt_insn_set_image
pt_insn_time pt_insn_core_bus_ratio pt_insn_asid pt_blk_get_offset pt_blk_get_sync_offset pt_blk_set_image pt_blk_time
pt_blk_core_bus_ratio pt_blk_asid""".split()

# Functions documented to return zero or pt_status_flag bits on success.
STATUS = """pt_evt_sync_forward pt_evt_sync_backward pt_evt_sync_set pt_qry_sync_forward pt_qry_sync_backward pt_qry_sync_set
pt_qry_cond_branch pt_qry_indirect_branch pt_qry_event pt_insn_sync_forward pt_insn_sync_backward pt_insn_sync_set pt_insn_next
pt_insn_event pt_blk_sync_forward pt_blk_sync_backward pt_blk_sync_set pt_blk_next pt_blk_event""".split()


LINT = r"""
set output diag
set bind-root false
let code declRefExpr(to(enumConstantDecl(hasParent(enumDecl(hasName("pt_error_code"))), unless(hasName("pte_ok")))))
let plain ignoringParenImpCasts(anyOf(code, conditionalOperator(anyOf(hasTrueExpression(ignoringParenImpCasts(code)), hasFalseExpression(ignoringParenImpCasts(code))))))
let status expr(hasType(isInteger()), unless(hasType(hasUnqualifiedDesugaredType(enumType()))), unless(ignoringParenImpCasts(code)))
match returnStmt(hasReturnValue(plain), hasAncestor(functionDecl(returns(isInteger()), unless(returns(hasUnqualifiedDesugaredType(enumType()))), isDefinition()).bind("fn"))).bind("x")
match binaryOperator(hasOperatorName("="), hasRHS(plain), hasLHS(ignoringParenImpCasts(status)), hasAncestor(functionDecl().bind("fn"))).bind("x")
match varDecl(hasInitializer(plain), hasType(isInteger()), unless(hasType(hasUnqualifiedDesugaredType(enumType()))), hasAncestor(functionDecl().bind("fn"))).bind("x")
match binaryOperator(isComparisonOperator(), hasOperands(plain, ignoringParenImpCasts(status)), hasAncestor(functionDecl().bind("fn"))).bind("x")
"""


def lint_unit(irdir, group, unit):
    m = irbuild.meta(irdir)
    src = os.path.join(irbuild.REPO, unit)
    cmds = []
    for l in LINT.strip().splitlines():
        cmds += ["-c", l]
    p = subprocess.run(["clang-query"] + cmds + [src, "--"] + m["flags"][group] + ["-w"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = len(re.findall(r"^\d+ match(?:es)?\.$", p.stdout, re.M))
    if p.returncode or n != 4:
        raise irbuild.Broken("clang-query failed on %s: %s" % (unit, p.stdout[-500:]))
    out, loc = [], {}
    for l in p.stdout.splitlines():
        if re.match(r"Match #", l):
            loc = {}
        g = re.match(r'(.*?):(\d+):\d+: note: "(\w+)" binds here', l)
        if g:
            loc[g.group(3)] = (g.group(1), g.group(2))
        if "x" in loc and "fn" in loc:
            f, n = loc["x"]
            fn = function_at(loc["fn"])
            out.append({"kind": "error-code", "rule": "an error code is negated where it becomes a status", "loc": os.path.relpath(os.path.realpath(f), os.path.realpath(irbuild.REPO)) + ":" + n,
                        "fn": fn, "msg": "an enumerator of pt_error_code is used as a status without being negated", "stack": [fn], "path": [], "entry": "query:lint:" + group})
            loc = {}
    return out


def function_at(at):
    with open(at[0]) as f:
        t = "".join(f.readlines()[int(at[1]) - 1:int(at[1]) + 3])
    g = re.search(r"(\w+)\s*\(", t)
    return g.group(1) if g else "?"


def q_returns(irdir):
    pub = public_functions(0)
    r = irq(irdir, "libipt", "returns", pub, ZERO, STATUS)
    return result("constants a public function returns", [r])


def q_lint(irdir):
    units = [(g, x) for g in ("libipt", "sideband") for x in irbuild.meta(irdir)["units"][g]]
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda a: lint_unit(irdir, *a), units))
    r = {"findings": [f for x in rs for f in x], "functions": [], "obligations": len(units), "stats": {"translation units": len(units)}}
    return result("error codes used as a status", [r])


def q_errstr(irdir):
    import check
    r = irq(irdir, "libipt", "returns", public_functions(0), ZERO, STATUS)
    codes = r["stats"]["error codes"]
    n = ["CODES=" + codes]
    unit = {"spec": "err.c", "entry": "spec_errstr", "module": irbuild.spec_module(irdir, "err.c", ["libipt"], n)}
    res = check.analyse(unit, irdir, "quick")
    if res.get("inconclusive"):
        return {"findings": [], "errors": ["spec_errstr: " + res["inconclusive"]]}
    res["errors"] = ["spec_errstr: not reached: " + x for x in res.get("unreached", [])]
    return res


# What the design absorbs; every other error has to come out of the caller.
ABSORBED = """
codes=-7,-8,-13,-14,-15
callee=pt_retstack_push
callee=pt_tnt_cache_is_empty
callee=pt_sec_posix_map
callee=pt_(section|iscache|msec_cache)_(put|unlock|unlock_attach|clear|invalidate|unmap|detach) void
callee=pt_(section|iscache)_(unlock|unlock_attach) unused
owner=erratum|skd022|bdm64 callee=pt_insn_decode|pt_insn_range_is_contiguous
callee=pt_insn_at_skl014|pt_blk_handle_erratum_bdm64 codes=-1
callee=pt_t(ime|cal)_update_(mtc|cyc|tma|cbr) codes=-10
callee=pt_evt_find_ovf_fup via=pt_evt_handle_.*
callee=pt_pkt_read_tma codes=-5 owner=^pt_pkt_decode_tma$
callee=pt_image_add_range owner=^pt_image_copy$
callee=pt_sb_(fetch|print|apply)
callee=pt_sb_ctx_put|pt_sb_pevent_error void
callee=pt_sb_pevent_error owner=^pt_sb_pevent_fetch_callback$
callee=pt_insn_cond_branch via=pt_insn_indirect_branch|pt_insn_update_trig
"""


def q_drops(irdir):
    return result("errors that do not come out", [irq(irdir, linked(irdir, ["libipt", "sideband", "pevent"]), "drops", ABSORBED.strip().splitlines())])


def units(irdir, us):
    """Interpret units made up for the tree at hand."""
    import check
    mods = {}
    for x in us:
        mods.setdefault((x["spec"], tuple(x.get("groups", ["libipt"])), tuple(x.get("defines", ()))), []).append(x)
    with ThreadPoolExecutor(8) as ex:
        for k, m in zip(mods, ex.map(lambda k: irbuild.spec_module(irdir, k[0], k[1], k[2]), mods)):
            for x in mods[k]:
                x["module"] = m
        rs = list(ex.map(lambda x: check.analyse(x, irdir, "quick"), us))
    for x, r in zip(us, rs):
        r["errors"] = ["%s: not modelled: %s" % (x["entry"], y) for y in r.get("unmodelled", [])]
        if r.get("inconclusive"):
            r["errors"].append("%s %s: %s" % (x["entry"], x.get("what", ""), r["inconclusive"]))
            continue
        for f in r["findings"]:
            f["entry"] = x["entry"]
            f["msg"] += " (%s)" % x.get("what", "")
        for y in r.get("unreached", []):
            r["findings"].append({"kind": "unreachable", "rule": y, "loc": x["spec"], "fn": x["entry"], "entry": x["entry"],
                                  "msg": "no execution reaches this outcome (%s)" % x.get("what", ""), "stack": [x["entry"]], "path": []})
    return rs


def q_kinds(irdir):
    st = irq(irdir, "libipt", "enum", ["pt_packet_type", "pt_cfe_type"])["stats"]
    us = []
    if not st.get("pt_packet_type"):
        raise irbuild.Broken("no enum pt_packet_type")
    for n in sorted(st["pt_packet_type"]):
        if n == "ppt_invalid":
            continue
        if n != "ppt_unknown":
            us.append({"spec": "kind.c", "entry": "spec_kind_encode", "defines": ["TYPE=" + n], "what": n})
            us.append({"spec": "kind.c", "entry": "spec_kind_decode", "defines": ["TYPE=" + n], "what": n})
        for c in sorted(st.get("pt_cfe_type", {})) if n == "ppt_cfe" else [None]:
            us.append({"spec": "evt.c", "entry": "spec_evt_kind", "defines": ["TYPE=" + n] + (["CFE=" + c] if c else []), "what": n + (" " + c if c else "")})
    return merge("packet kinds", units(irdir, us), [x["what"] for x in us])


def sizes(t, extra=()):
    return ["8", "17", "(sizeof(%s)-1)" % t, "sizeof(%s)" % t, "(sizeof(%s)+1)" % t, "(sizeof(%s)+40)" % t] + list(extra)


def q_exchange(defined):
    """C07 and C27: the structures exchanged with the caller."""
    def run(irdir):
        st = irq(irdir, "libipt", "enum", ["pt_packet_type"])["stats"]
        if not st.get("pt_packet_type"):
            raise irbuild.Broken("no enum pt_packet_type")
        types = [n for n in sorted(st["pt_packet_type"]) if n not in ("ppt_invalid", "ppt_unknown")]
        us = []

        def add(spec, entry, objects, defines, what):
            us.append({"spec": spec, "entry": entry, "objects": objects, "defines": defines, "what": what, "limit": 400})
        ev, bl, ins, pk, cf = "struct pt_event", "struct pt_block", "struct pt_insn", "struct pt_packet", "struct pt_config"
        # the costly ones first
        for s in sizes(bl):
            add("flow.c", "spec_size_blk_next", ["block"], ["SIZE=" + s, "PATHS=3", "BCACHE=0"], "block of %s bytes" % s)
        for s in sizes(ev):
            add("flow.c", "spec_size_blk_event", ["event"], ["SIZE=" + s, "PATHS=10", "BCACHE=0"], "event of %s bytes" % s)
            add("flow.c", "spec_size_insn_event", ["event"], ["SIZE=" + s, "PATHS=10", "BCACHE=0", "MODEL_QRY=1"], "event of %s bytes" % s)
            add("flow.c", "spec_size_qry_event", ["event"], ["SIZE=" + s, "PATHS=40", "BCACHE=0"], "event of %s bytes" % s)
        for s in sizes(ins):
            add("flow.c", "spec_size_insn_next", ["instruction"], ["SIZE=" + s, "PATHS=10", "BCACHE=0", "MODEL_QRY=1"], "instruction of %s bytes" % s)
        for t in types:
            add("out.c", "spec_out_payload", ["packet"], ["TYPE=" + t], t)
            for s in sizes(ev, ["0"]):
                add("evt.c", "spec_evt_size", ["event"], ["TYPE=" + t, "SIZE=" + s], "%s, event of %s bytes" % (t, s))
        for s in sizes(pk, ["0", "1", "4", "5", "6"]):
            add("out.c", "spec_size_pkt", ["packet"], ["SIZE=" + s], "packet of %s bytes" % s)
        add("out.c", "spec_size_pkt_any", ["packet"], [], "packet of any size")
        for s in range(0, 50):
            add("out.c", "spec_size_asid_to", ["asid"], ["SIZE=%d" % s], "address space identifier of %d bytes" % s)
            if s >= 8:
                add("out.c", "spec_size_asid_from", ["asid"], ["SIZE=%d" % s], "address space identifier of %d bytes" % s)
        for s in sizes(cf, ["offsetof(%s,%s)" % (cf, f) for f in ("decode", "cpu", "errata", "flags", "addr_filter")]):
            if s == "17":
                s = "24"
            elif s == "8":
                s = "16"
            add("out.c", "spec_size_config", ["config"], ["SIZE=" + s], "configuration of %s bytes" % s)
        for a in ("pt_pkt_alloc_decoder", "pt_evt_alloc_decoder", "pt_qry_alloc_decoder", "pt_insn_alloc_decoder", "pt_blk_alloc_decoder", "pt_alloc_encoder"):
            for s in ("8", "offsetof(%s,decode)" % cf, "(offsetof(%s,errata)+1)" % cf, "sizeof(%s)" % cf, "(sizeof(%s)+40)" % cf):
                add("out.c", "spec_size_alloc", ["config"], ["SIZE=" + s, "ALLOC=" + a], "%s, configuration of %s bytes" % (a, s))
        for e in ("evq", "pkt", "enc", "evt", "qry_time", "insn_time", "blk_time", "qry_cond", "qry_ind", "qry_sync"):
            add("out.c", "spec_out_" + e, ["the caller's variable"], [], e)
        rs = units(irdir, us)
        reached = {}
        for x, r in zip(us, rs):
            for y in r.get("reached", []):
                reached.setdefault(x["entry"], set()).add(y)
        for x, r in zip(us, rs):
            r["findings"] = [f for f in r["findings"] if not (f["kind"] == "unreachable" and f["rule"] in reached.get(x["entry"], ()))]
            if defined:
                r["findings"] = [f for f in r["findings"] if f["kind"] in ("labels", "unreachable")]
            else:
                r["findings"] = [f for f in r["findings"] if not (f["kind"] == "labels" and "defined" in f["rule"])]
        return merge("exchanged structures", rs, sorted({"%s %s" % (x["entry"], x["what"]) for x in us}))
    return run


def merge(name, rs, what=()):
    """One result for many."""
    out = {"entry": "query:" + name, "findings": [], "errors": [], "functions": set(), "obligations": {}, "asserts": {}, "reached": set(), "notes": set()}
    for r in rs:
        out["findings"] += r["findings"]
        out["errors"] += r.get("errors", [])
        out["functions"] |= set(r.get("functions", []))
        out["reached"] |= set(r.get("reached", []))
        out["notes"] |= set(r.get("notes", []))
        for k, (n, sites) in r.get("obligations", {}).items():
            a = out["obligations"].setdefault(k, [0, 0])
            a[0] += n
            a[1] = max(a[1], sites)
        for k, v in r.get("asserts", {}).items():
            out["asserts"][k] = v
        for k in ("states", "joins", "widenings", "forks", "steps", "outcomes"):
            out[k] = out.get(k, 0) + r.get(k, 0)
    for k in ("functions", "reached", "notes"):
        out[k] = sorted(out[k])
    out["summary"] = {"query": name, "cases": len(rs), "what": list(what)}
    return out
