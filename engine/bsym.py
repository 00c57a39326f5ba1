"""bsym driver: /repo sources -> IR -> instrumented executable -> verdicts."""
import hashlib, json, os, threading, uuid, re, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BSYM_REPO", "/repo")
BUILD = os.environ.get("BSYM_BUILD", os.path.join(VERIF, "build"))
ENG = os.path.join(VERIF, "engine")
CLANG = "clang++-18"
JOBS = int(os.environ.get("BSYM_JOBS", str(min(8, os.cpu_count() or 8))))
CFLAGS = ("-std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off "
          "-fno-math-errno -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_DEBUG -w "
          "-fno-inline-functions").split()
CONFIG_H = """#pragma once
#define NLopt_FOUND
#define Boost_FOUND
#define nlohmann_json_FOUND
"""


LIBS = ["-lgsl", "-lgslcblas", "-lnlopt", "-lpthread", "-lm"]
NSPLIT = 16


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:600], r.stdout[-4000:]))
    return r.stdout


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def mkdirs():
    for d in ("", "bc", "inc/BSMPT", "run", "bin"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    c = os.path.join(BUILD, "inc/BSMPT/config.h")
    if not os.path.exists(c) or open(c).read() != CONFIG_H:
        with open(c, "w") as f:
            f.write(CONFIG_H)


_lk = threading.Lock()
_locks = {}


def write_if_new(src_hash, out, cmd):
    """run cmd producing out.tmp<pid>, rename to out"""
    with _lk:
        l = _locks.setdefault(out, threading.Lock())
    with l:
        if os.path.exists(out):
            return
        tmp = out + ".tmp" + uuid.uuid4().hex
        sh([a if a != "@OUT@" else tmp for a in cmd])
        os.replace(tmp, out)


def setup():
    """build the pass plugin and the runtime"""
    mkdirs()
    pl = os.path.join(BUILD, "bsym-%s.so" % fhash(ENG + "/BsymPass.cpp")[:16])
    cxxflags = sh(["llvm-config-18", "--cxxflags"]).split()
    jobs = [(pl, [CLANG, "-shared", "-fPIC", "-O1", "-fno-rtti", *cxxflags, ENG + "/BsymPass.cpp", "-o", "@OUT@"])]
    h = fhash(ENG + "/bsym_rt.h", ENG + "/bsym_rt.cpp")[:16]
    rt = os.path.join(BUILD, "rt-%s.o" % h)
    jobs.append((rt, ["g++", "-O2", "-std=c++17", "-c", ENG + "/bsym_rt.cpp", "-o", "@OUT@"]))
    h = fhash(ENG + "/bsym_rt.h", ENG + "/bsym_solve.cpp")[:16]
    so = os.path.join(BUILD, "solve-%s.o" % h)
    jobs.append((so, ["g++", "-O2", "-std=c++17", "-c", ENG + "/bsym_solve.cpp", "-o", "@OUT@"]))
    h = fhash(ENG + "/bs.h", ENG + "/bs_native.cpp")[:16]
    na = os.path.join(BUILD, "native-%s.o" % h)
    jobs.append((na, [CLANG, "-O1", "-std=c++17", "-c", ENG + "/bs_native.cpp", "-o", "@OUT@"]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: write_if_new(None, *j), jobs))
    return pl, rt, so, na


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        fs = []
        for root in (REPO + "/include", REPO + "/src"):
            for d, _, ff in os.walk(root):
                fs += [os.path.join(d, f) for f in ff if f.endswith((".h", ".hpp", ".in"))]
        _hdr = fhash(*sorted(fs))
    return _hdr


def compile_bc(path, extra=()):
    h = hashlib.sha256((fhash(path) + headers_hash() + " ".join(CFLAGS) + " ".join(extra) +
                        fhash(ENG + "/bs.h")).encode()).hexdigest()[:20]
    if path.startswith(VERIF):
        extra = list(extra) + ["-fno-access-control"]
        hh = [p for p in sorted(glob.glob(VERIF + "/harness/*.h"))]
        h = hashlib.sha256((h + fhash(*hh)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "bc", os.path.basename(path) + "-" + h + ".bc")
    write_if_new(None, out, [CLANG, *CFLAGS, *extra, "-I" + BUILD + "/inc", "-I" + REPO + "/include", "-I" + REPO + "/src",
                             "-I/usr/include/eigen3", "-I" + ENG, "-I" + VERIF + "/harness", "-emit-llvm", "-c", path, "-o", "@OUT@"])
    return out


SRC_DIRS = ["models", "ThermalFunctions", "minimizer", "minimizer/LibNLOPT", "minimum_tracer", "bounce_solution",
            "gravitational_waves", "transition_tracer", "utility", "utility/*"]
DEP_GROUPS = ["^utility/(utility|Logger|parser|Num)", "^utility/", "^ThermalFunctions/", "^models/SMParam", "^models/ModelTest", "^models/ClassPotentialOrigin", "^models/", "^minimizer/",
              "^gravit", "^bounce", "^minimum", "^transition", "."]
EXCLUDE = {"Minfunc_gen.cpp"}


def all_sources():
    r = []
    for d in SRC_DIRS:
        r += sorted(glob.glob("%s/src/%s/*.cpp" % (REPO, d)))
    return [p for p in r if os.path.basename(p) not in EXCLUDE]


def defined_symbols(bc):
    idx = bc + ".syms"
    if not os.path.exists(idx):
        out = sh(["llvm-nm-18", "--defined-only", "--format=just-symbols", bc])
        tmp = idx + ".tmp" + uuid.uuid4().hex
        with open(tmp, "w") as f:
            f.write(out)
        os.replace(tmp, idx)
    return set(open(idx).read().split())


def demangle_map(syms):
    syms = list(syms)
    p = subprocess.run(["c++filt"], input="\n".join(syms), stdout=subprocess.PIPE, text=True)
    return dict(zip(p.stdout.split("\n"), syms)) if False else list(zip(syms, p.stdout.split("\n")))


ALIAS = {"@models": ("models/ClassPotential*.cpp models/SMParam.cpp models/ModelTest*.cpp models/IncludeAllModels.cpp models/ClassTemplate.cpp "
                    "ThermalFunctions/*.cpp utility/*.cpp minimizer/Minimizer.cpp").split()}


def parse_meta(hpath):
    m = {"src": [], "stub": [], "define": [], "scope": []}
    for line in open(hpath):
        g = re.match(r"//\s*bsym-(src|stub|define|scope):\s*(.*)", line)
        if g:
            if g.group(1) == "stub":
                a, b = g.group(2).rsplit("->", 1)
                m["stub"].append((a.strip(), b.strip()))
            else:
                for w in g.group(2).split():
                    m[g.group(1)] += ALIAS.get(w, [w])
    return m


def prewarm(harnesses):
    """compile every source the harnesses name in one parallel batch"""
    todo = []
    for h in harnesses:
        hp = os.path.join(VERIF, "harness", h + ".cpp")
        meta = parse_meta(hp)
        todo.append((hp, tuple("-D" + d for d in meta["define"])))
        for s in meta["src"]:
            for w in (sorted(glob.glob(REPO + "/src/" + s)) if "*" in s else [REPO + "/src/" + s]):
                if os.path.exists(w) and os.path.basename(w) not in EXCLUDE:
                    todo.append((w, ()))
    todo = list(dict.fromkeys(todo))
    todo.sort(key=lambda x: -os.path.getsize(x[0]) - (10**9 if "Origin.cpp" in x[0] or "tracer" in x[0] else 0))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda x: compile_bc(*x), todo))


def build(harness, log=None):
    """harness: name of /verif/harness/<name>.cpp -> (symbolic exe, native exe)"""
    pl, rt, so, na = setup()
    hp = os.path.join(VERIF, "harness", harness + ".cpp")
    meta = parse_meta(hp)
    want = []
    for s in meta["src"]:
        if "*" in s:
            want += sorted(glob.glob(REPO + "/src/" + s))
        else:
            want.append(REPO + "/src/" + s)
    missing = [w for w in want if not os.path.exists(w)]
    want = list(dict.fromkeys(w for w in want if os.path.exists(w) and os.path.basename(w) not in EXCLUDE))
    extra = ["-D" + d for d in meta["define"]]
    with ThreadPoolExecutor(JOBS) as ex:
        fh = ex.submit(compile_bc, hp, extra)
        bcs = list(ex.map(compile_bc, want))
        hbc = fh.result()
    key = hashlib.sha256()

    def link(bcs, tag):
        k = hashlib.sha256((" ".join([hbc] + bcs) + fhash(ENG + "/BsymPass.cpp") + str(meta)).encode()).hexdigest()[:20]
        base = os.path.join(BUILD, "run", harness + "-" + k)
        linked = base + ".opt.bc"
        if not os.path.exists(linked):
            t = base + ".tmp%d" % os.getpid()
            sh(["llvm-link-18", hbc, *bcs, "-o", t + ".1.bc"])
            env = dict(os.environ, BSYM_MODE="stub")
            if meta["scope"]:
                env["BSYM_SCOPE"] = "1"
            if meta["stub"]:
                syms = [x for x in sh(["llvm-nm-18", "--format=just-symbols", t + ".1.bc"]).split()]
                dm = demangle_map(syms)
                lines = []
                for pat, rep in meta["stub"]:
                    rx = re.compile(pat)
                    hit = [s for s, d in dm if rx.search(d)]
                    for s in hit:
                        lines.append(s + " " + rep)
                    if not hit:
                        sys.stderr.write("bsym: note: stub pattern matches nothing: %s\n" % pat)
                with open(t + ".stubs", "w") as f:
                    f.write("\n".join(lines) + "\n")
                env["BSYM_STUBS"] = t + ".stubs"
            sh(["opt-18", "-load-pass-plugin=" + pl,
                "-passes=bsym,internalize,globaldce",
                "-internalize-public-api-list=bs_harness_main", t + ".1.bc", "-o", t + ".2.bc"], env=env)
            os.replace(t + ".2.bc", linked)
            for x in glob.glob(t + ".*"):
                os.unlink(x)
        return base, linked

    for it in range(6):
        base, linked = link(bcs, str(it))
        und = [s for s in sh(["llvm-nm-18", "-u", "--format=just-symbols", linked]).split()
               if re.match(r"_Z.*(BSMPT|cvspline|2tk)", s)]
        if not und:
            break
        und = set(und)
        add = []
        for grp in DEP_GROUPS:
            rest = [p for p in all_sources() if p not in want and re.search(grp, os.path.relpath(p, REPO + "/src"))]
            with ThreadPoolExecutor(JOBS) as ex:
                rbc = list(ex.map(compile_bc, rest))
            for p, b in zip(rest, rbc):
                d = defined_symbols(b)
                if d & und:
                    add.append((p, b))
                    und -= d
            if not und:
                break
        if not add:
            raise BuildError("undefined symbols: " + " ".join(sorted(und))[:1500])
        for p, b in add:
            want.append(p)
            bcs.append(b)
    sym, nat = base + ".sym", base + ".nat"
    tagrt = hashlib.sha256((rt + so + na).encode()).hexdigest()[:12]
    sym += "." + tagrt
    nat += "." + tagrt

    def mk_sym():
        if os.path.exists(sym):
            return
        t = sym + ".tmp%d" % os.getpid()
        sh(["opt-18", "-load-pass-plugin=" + pl,
            "-passes=function(scalarizer),bsym", linked, "-o", t + ".bc"], env=dict(os.environ, BSYM_MODE="inst", BSYM_LEAKCHECK="1"))
        sh(["llvm-split-18", "-j%d" % NSPLIT, "-o", t + ".s", t + ".bc"])
        parts = sorted(glob.glob(t + ".s*"))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda p: sh([CLANG, "-O1", "-c", "-x", "ir", p, "-o", p + ".o"]), parts))
        sh(["g++", rt, so, *[p + ".o" for p in parts], "-o", t, *LIBS, "-lz3", "-lgmpxx", "-lgmp"])
        os.replace(t, sym)
        for x in glob.glob(t + ".*"):
            os.unlink(x)

    mk_sym()
    return sym, (linked, na, nat)


def build_native(spec):
    linked, na, nat = spec
    if os.path.exists(nat):
        return nat
    t = nat + ".tmp%d" % os.getpid()
    sh(["llvm-split-18", "-j%d" % NSPLIT, "-o", t + ".s", linked])
    parts = sorted(glob.glob(t + ".s*"))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda p: sh([CLANG, "-O1", "-c", "-x", "ir", p, "-o", p + ".o"]), parts))
    sh(["g++", na, *[p + ".o" for p in parts], "-o", t, *LIBS])
    os.replace(t, nat)
    for x in glob.glob(t + ".*"):
        os.unlink(x)
    return nat


def run_symbolic(sym, case, env, timeout, jobs):
    out = os.path.join(BUILD, "run", "out-%d-%s.jsonl" % (os.getpid(), re.sub(r"\W", "_", case) + hashlib.md5((sym + case).encode()).hexdigest()[:8]))
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ)
    e.update(env)
    e.update(BSYM_OUT=out, BS_CASE=case, BSYM_JOBS=str(jobs), BSYM_TIME=str(int(timeout)), LC_ALL="C")
    t0 = time.time()
    timed = False
    p = subprocess.Popen(["bash", "-c", "ulimit -s unlimited; exec " + sym], env=e, stdout=subprocess.DEVNULL,
                         stderr=None if os.environ.get("BSYM_VERBOSE") else subprocess.DEVNULL, start_new_session=True)
    try:
        p.wait(timeout + 30)
    except subprocess.TimeoutExpired:
        timed = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                recs.append({"kind": "error", "msg": "garbled record"})
        os.unlink(out)
    if timed:
        recs.append({"kind": "error", "msg": "wall-clock limit"})
    if not any(r["kind"] == "summary" for r in recs):
        recs.append({"kind": "error", "msg": "no summary record (crash?)"})
    return recs, time.time() - t0


def replay(nat, case, ce, label=None, keep=None, timeout=120):
    nat = build_native(nat)
    d = keep or os.path.join(BUILD, "run", "replay-%d.txt" % os.getpid())
    os.makedirs(os.path.dirname(d), exist_ok=True)
    with open(d, "w") as f:
        for k, v in ce.items():
            f.write("%s %.17g\n" % (k, v))
    e = dict(os.environ, BS_CASE=case, LC_ALL="C")
    if label:
        e["BS_ONLY"] = label
    try:
        r = subprocess.run(["bash", "-c", "ulimit -s unlimited; exec %s %s" % (nat, d)], env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stderr[-1500:]
