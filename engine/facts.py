"""Builds the extractor, runs it over every translation unit of /repo, merges the facts.

Facts are cached by content (tool + flags + every repository file the unit read), so an
unchanged unit is not parsed twice; the content is re-hashed from /repo on every run.
"""
import gc, glob, hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = os.path.join(VERIF, "engine")
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def builddir():
    try:
        os.makedirs(BUILD, exist_ok=True)
        t = os.path.join(BUILD, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return BUILD
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "aoclda-verif-build")
        os.makedirs(d, exist_ok=True)
        return d


def tool():
    src = rd(os.path.join(ENGINE, "extractor", "extract.cpp"))
    key = sha(src)[:16]
    b = os.path.join(builddir(), "extract-" + key)
    if os.path.exists(b):
        return b, key
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    flags = [f for f in flags if not f.startswith("-std") and f != "-fno-exceptions"]
    tmp = b + ".tmp%d" % os.getpid()
    so = sorted(glob.glob(LLVM + "/lib/libclang-cpp.so*"))
    r = subprocess.run(["clang++-18", "-std=c++17", "-O1", *flags, os.path.join(ENGINE, "extractor", "extract.cpp"),
                        "-o", tmp, *so[:1], "-L" + LLVM + "/lib", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
    os.replace(tmp, b)
    return b, key


def stubs_key():
    h = []
    for root in ("stubs", "stubs_clang"):
        for d, _, fs in sorted(os.walk(os.path.join(ENGINE, root))):
            for f in sorted(fs):
                h.append(rd(os.path.join(d, f)))
    return sha(*h)


INCS = """include core/drivers core/basic_statistics core/optimization core/utilities
core/dynamic_dispatch core/csv core/metrics core/linear_model core/data_management core/factorization
core/clustering core/decision_forest core/decision_forest/tree core/nlls core/nearest_neighbors core/svm
core/kernel_functions core/interpolation core/approximate_neighbors core/dimension_reduction""".split()


def public_units():
    """The files CMake compiles once (without an architecture namespace)."""
    t = open(os.path.join(REPO, "source/CMakeLists.txt")).read()
    sets = {m.group(1): m.group(2).split() for m in re.finditer(r"set\((\w+)\s+([^)]*)\)", t)}

    def expand(x, depth=0):
        out = []
        for w in x:
            m = re.fullmatch(r"\$\{(\w+)\}", w)
            if m and depth < 5:
                out += expand(sets.get(m.group(1), []), depth + 1)
            else:
                out.append(w)
        return out

    pub = set(expand(sets.get("DA_CORE_PUBLIC", [])))
    arch = set(expand(sets.get("DA_CORE_DYNAMIC_DISPATCH", [])))
    return pub, arch


CONFIGS = {
    "base": ["-march=x86-64", "-mavx2", "-mfma"],
    "avx512": ["-march=x86-64", "-mavx2", "-mfma", "-mavx512f", "-mavx512dq", "-mavx512vl", "-mavx512bw", "-mavx512fp16"],
}


def flags(f, pub, arch, config):
    S = os.path.join(REPO, "source")
    fl = ["-x", "c", "-std=gnu11"] if f.endswith(".c") else ["-x", "c++", "-std=c++17"]
    fl += CONFIGS[config] + ["-fopenmp"]
    fl += ["-I" + os.path.join(ENGINE, d) for d in ("stubs", "stubs_clang")]
    fl += ["-I" + os.path.join(S, d) for d in INCS]
    X = os.path.join(REPO, "external")
    fl += ["-I" + X + d for d in ("/Lbfgsb.3.0", "/RALFit", "/RALFit/libRALFit/include", "/kernel-templates")]
    fl += ["-I/usr/include/x86_64-linux-gnu/openblas-pthread"]
    fl += ["-DZNVER_MAX=generic", "-Dgeneric_AVAILABLE", '-DAOCLDA_VERSION_STRING="AOCL-DA"',
           '-DAOCLDA_GIT_COMMIT="unknown"', '-DINT_LIB="LP64"']
    rel = f[len("source/"):]
    if rel in arch or (rel not in pub and "_public" not in rel):
        fl.append("-DARCH_generic")
    fl += ["-w", "-resource-dir", LLVM + "/lib/clang/18"]
    return fl


_hash = {}


def fhash(rel):
    if rel not in _hash:
        try:
            _hash[rel] = sha(rd(os.path.join(REPO, rel)))
        except OSError:
            _hash[rel] = "absent"
    return _hash[rel]


def extract_unit(f, fl, tl, tkey, skey, cdir):
    """Returns (path of the facts, deps, from_cache, seconds)."""
    base = sha(tkey, skey, f, " ".join(fl))
    man = os.path.join(cdir, base[:24] + ".man")
    if os.path.exists(man):
        try:
            for deps, key in json.load(open(man)):
                if sha(base, *[d + fhash(d) for d in deps]) == key and os.path.exists(os.path.join(cdir, key[:24] + ".json")):
                    return os.path.join(cdir, key[:24] + ".json"), deps, True, 0.0, key
        except (ValueError, OSError):
            pass
    t0 = time.time()
    tmp = os.path.join(cdir, base[:16] + ".tmp%d" % os.getpid())
    r = subprocess.run([tl, REPO, tmp, os.path.join(REPO, f), "--", *fl], capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        raise AnalysisBroken("clang cannot parse %s:\n%s" % (f, r.stderr[-1500:]))
    deps = None
    with open(tmp) as fh:
        for l in fh:
            if l.startswith('{"errors"') or '"k":"deps"' in l[:4000]:
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if o.get("k") == "deps":
                    deps = o["files"]
                    if o["errors"]:
                        raise AnalysisBroken("clang reports errors in " + f)
    if deps is None:
        raise AnalysisBroken("no facts for " + f)
    key = sha(base, *[d + fhash(d) for d in deps])
    os.replace(tmp, os.path.join(cdir, key[:24] + ".json"))
    old = []
    if os.path.exists(man):
        try:
            old = json.load(open(man))[-3:]
        except ValueError:
            old = []
    tm = man + ".tmp%d" % os.getpid()
    with open(tm, "w") as fh:
        json.dump(old + [[deps, key]], fh)
    os.replace(tm, man)
    return os.path.join(cdir, key[:24] + ".json"), deps, False, time.time() - t0, key


def units():
    fs = []
    for d, dirs, names in os.walk(os.path.join(REPO, "source/core")):
        dirs.sort()
        for n in sorted(names):
            if n.endswith((".cpp", ".c")):
                fs.append(os.path.relpath(os.path.join(d, n), REPO))
    return sorted(fs)


class DB:
    pass


def load(config="base", quiet=False):
    t0 = time.time()
    gc.disable()
    tl, tkey = tool()
    skey = stubs_key()
    cdir = os.path.join(builddir(), "cache")
    os.makedirs(cdir, exist_ok=True)
    pub, arch = public_units()
    us = units()
    if len(us) < 80:
        raise AnalysisBroken("only %d translation units found under source/core (84 confirmed)" % len(us))
    # biggest first
    us.sort(key=lambda f: -os.path.getsize(os.path.join(REPO, f)))
    with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(lambda f: extract_unit(f, flags(f, pub, arch, config), tl, tkey, skey, cdir), us))
    fresh = sum(1 for r in res if not r[2])
    order = sorted(range(len(us)), key=lambda i: us[i])
    mkey = sha(open(__file__).read(), *[res[i][4] for i in order])[:24]
    mp = os.path.join(cdir, "merged-" + mkey + ".pkl")
    db = None
    if os.path.exists(mp):
        try:
            with open(mp, "rb") as fh:
                db = pickle.load(fh)
        except Exception:
            db = None
    if db is None:
        db = merge([us[i] for i in order], [res[i] for i in order])
        tmp = mp + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(db, fh, protocol=4)
        for old in glob.glob(os.path.join(cdir, "merged-*.pkl")):
            try:
                if time.time() - os.path.getmtime(old) > 3600 * 4:
                    os.unlink(old)
            except OSError:
                pass
        os.replace(tmp, mp)
    db.stats = dict(translation_units=len(us), parsed_now=fresh, functions=len(db.fns), classes=len(db.recs),
                    facts_s=round(time.time() - t0, 2))
    gc.freeze()
    return db


def merge(us, res):
    db = DB()
    db.fns, db.recs, db.enums, db.gvars, db.fdecls, db.deps, db.tpls = {}, {}, {}, {}, {}, {}, {}
    db.units = us
    for f, r in zip(us, res):
        db.deps[f] = r[1]
        with open(r[0]) as fh:
            for l in fh:
                o = json.loads(l)
                k = o["k"]
                if k == "fn":
                    o["tu"] = f
                    db.fns.setdefault(o["id"], o)
                elif k == "rec":
                    db.recs.setdefault(o["q"], o)
                elif k == "enum":
                    db.enums.setdefault((o["q"], o["file"], o["line"]), o)
                elif k == "gvar":
                    db.gvars.setdefault((o["q"], o["file"], o["line"]), o)
                elif k == "tpl":
                    db.tpls[(o["file"], o["line"])] = o["b"]
                elif k == "fdecl":
                    db.fdecls.setdefault((o["id"], o["file"]), o)
    return db


if __name__ == "__main__":
    db = load()
    print(db.stats)
