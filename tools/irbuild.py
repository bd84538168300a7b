"""Configure intel/libipt's own build in a scratch directory and lower its current sources to LLVM IR."""
import hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin"
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))


class Broken(Exception):
    """The analysis itself could not be carried out."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def src_hash():
    h = hashlib.sha256()
    for top in sorted(os.listdir(REPO)):
        if top in (".git", "_build"):
            continue
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in sorted(files):
            if f.endswith((".c", ".h", ".cpp", ".txt", ".cmake", ".in")):
                h.update(f.encode())
                with open(f, "rb") as fd:
                    h.update(fd.read())
    return h.hexdigest()[:24]


GROUPS = {
    "libipt": lambda p: p.startswith("libipt/src/"),
    "sideband": lambda p: p.startswith("sideband/src/"),
    "pevent": lambda p: p.startswith("pevent/src/"),
    "ptdump": lambda p: p.startswith("ptdump/src/"),
    "ptseg": lambda p: p.startswith("ptseg/src/"),
    "pttc": lambda p: p.startswith("pttc/src/"),
}


def configure(dst):
    cfg = os.path.join(dst, "cfg")
    os.makedirs(cfg, exist_ok=True)
    env = dict(os.environ, CC="clang-18", CXX="clang++-18")
    run(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
         "-DCMAKE_C_FLAGS=-Wno-error", "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
         "-DPTUNIT=OFF", "-DPTDUMP=ON", "-DPTTC=ON", "-DPTSEG=ON", "-DPTXED=OFF", "-DSIDEBAND=ON", "-DPEVENT=ON",
         "-DFEATURE_ELF=ON", "-DFEATURE_THREADS=ON", "-DMAN=OFF", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    with open(os.path.join(cfg, "compile_commands.json")) as f:
        return json.load(f)


def flags_of(entry):
    a = shlex.split(entry["command"])
    out, skip = [], False
    for x in a[1:]:
        if skip:
            skip = False
            continue
        if x in ("-o", "-c", "-MF", "-MT", "-MQ"):
            skip = x != "-c"
            continue
        if x.startswith("-O") or x in ("-g", "-MD", "-MMD") or x == entry["file"]:
            continue
        out.append(x)
    return out


def ir():
    """Directory with one linked bitcode file per group, for the sources as they are now."""
    key = src_hash()
    base = os.path.join(BUILD, "ir")
    dst = os.path.join(base, key)
    if os.path.exists(os.path.join(dst, "done")):
        return dst
    os.makedirs(base, exist_ok=True)
    for old in os.listdir(base):
        if old != key and not old.startswith("tmp"):
            shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp", dir=base)
    try:
        cc = configure(tmp)
        jobs, groups, flags = [], {}, {}
        seen = set()
        for e in cc:
            f = os.path.realpath(os.path.join(e["directory"], e["file"]))
            rel = os.path.relpath(f, os.path.realpath(REPO))
            for g, pred in GROUPS.items():
                if pred(rel) and (g, rel) not in seen:
                    seen.add((g, rel))
                    o = os.path.join(tmp, g + "." + rel.replace("/", "_") + ".bc")
                    fl = flags_of(e)
                    jobs.append(["clang-18" if f.endswith(".c") else "clang++-18"] + fl +
                                ["-w", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-c", f, "-o", o])
                    groups.setdefault(g, []).append(o)
                    flags.setdefault(g, fl)
        for g in GROUPS:
            if g not in groups:
                raise Broken("no translation units found for " + g)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(j, cwd=os.path.join(tmp, "cfg")), jobs))
        for g, os_ in groups.items():
            run([LLVM + "/llvm-link", "-o", os.path.join(tmp, g + ".bc")] + sorted(os_))
        # ninja generates nothing the sources include beyond configured headers
        with open(os.path.join(tmp, "flags.json"), "w") as f:
            json.dump({"flags": {g: [x.replace(tmp, "@TMP@") for x in fl] for g, fl in flags.items()},
                       "units": {g: sorted(os.path.relpath(j[-3], REPO) for j in jobs if j[-1] in groups[g]) for g in groups}}, f)
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, dst)
        except OSError:
            if not os.path.exists(os.path.join(dst, "done")):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return dst


def meta(irdir):
    with open(os.path.join(irdir, "flags.json")) as f:
        m = json.load(f)
    m["flags"] = {g: [x.replace("@TMP@", irdir) for x in fl] for g, fl in m["flags"].items()}
    return m


def spec_module(irdir, spec, groups, defines=()):
    """Link a specification with the groups it speaks about."""
    m = meta(irdir)
    inc = []
    for g in groups:
        for x in m["flags"][g]:
            if x not in inc:
                inc.append(x)
    inc = [x for x in inc if x.startswith(("-I", "-D", "-isystem", "-std"))]
    for d in ("libipt/internal/include", "libipt/internal/include/posix", "sideband/internal/include", "pevent/internal/include", "include", "libipt/include", "pevent/include", "sideband/include"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            inc.append("-I" + p)
    tag = hashlib.sha256((spec + "|" + ",".join(groups) + "|" + ",".join(defines)).encode()).hexdigest()[:10]
    work = os.path.join(irdir, "spec." + tag)
    os.makedirs(work, exist_ok=True)
    objs = []
    for name in (spec, "libc.c"):
        o = os.path.join(work, name + ".bc")
        run(["clang-18"] + inc + ["-I" + VERIF + "/ptai", "-I" + VERIF + "/specs", "-w", "-O0", "-g", "-Xclang", "-disable-O0-optnone",
             "-fno-discard-value-names", "-emit-llvm", "-c", os.path.join(VERIF, "specs", name), "-o", o] + ["-D" + d for d in defines])
        objs.append(o)
    lk = os.path.join(work, "linked.bc")
    run([LLVM + "/llvm-link", "-o", lk] + objs + [os.path.join(irdir, g + ".bc") for g in groups])
    out = os.path.join(work, "mod.bc")
    run([LLVM + "/opt", "-passes=mem2reg", lk, "-o", out])
    return out


if __name__ == "__main__":
    d = ir()
    print(d)
    if len(sys.argv) > 1:
        print(spec_module(d, sys.argv[1], sys.argv[2:] or ["libipt"]))
