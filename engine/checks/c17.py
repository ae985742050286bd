"""Independence of handles: no mutable state is shared between calls (effect analysis over every
variable of static storage) and the caller's OpenMP settings survive every call (path analysis of
every function that changes one).

1. Every variable with static storage duration (namespace scope, static member, static local,
   thread_local) is of const type or is written nowhere in the library: not assigned, stepped,
   bound to a non-const reference, passed by non-const reference or address, nor the object of a
   non-const method. Exempt by role: the architecture description (class context) which only its
   own constructor, refresh() and the helpers they call may write, and the per-thread debug
   settings, which only set_hidden_setting may write.
2. No function of the C library with hidden process-wide state is called (rand, strtok, setenv,
   setlocale, fesetround, ...).
3. omp_set_num_threads and the like: every path from such a call to a return passes the value
   read before it back to the same function.
"""
import interp, ir

BANNED = {"rand", "srand", "random", "srandom", "drand48", "srand48", "lrand48", "mrand48", "strtok", "setlocale", "setenv", "putenv",
          "unsetenv", "signal", "sigaction", "chdir", "umask", "fesetround", "feenableexcept", "fedisableexcept", "_mm_setcsr",
          "set_new_handler", "set_terminate", "openblas_set_num_threads", "bli_thread_set_num_threads", "mkl_set_num_threads",
          "kmp_set_blocktime", "localeconv", "tmpnam", "gmtime", "localtime", "ctime", "asctime", "strerror_r", "atexit", "srand_sse"}
ICV = {"omp_set_num_threads": "omp_get_max_threads", "omp_set_max_active_levels": "omp_get_max_active_levels", "omp_set_dynamic": "omp_get_dynamic",
       "omp_set_nested": "omp_get_nested", "omp_set_schedule": "omp_get_schedule", "omp_set_default_device": "omp_get_default_device"}
READERS = {"size", "empty", "begin", "end", "cbegin", "cend", "find", "at", "count", "data", "c_str", "get", "front", "back", "length", "capacity", "contains"}


def basen(q):
    return q.split("::")[-1].split("<")[0]


def strip(e):
    e = ir.strip(e)
    while e and e[0] == "cast":
        e = ir.strip(e[3])
    return e


def root(e):
    """the variable an lvalue is part of, or is reached from"""
    e = strip(e)
    while e and (e[0] in ("mem", "idx") or e[0] == "un" and e[1] in ("*", "&") or e[0] == "call" and basen(e[2]) in ("operator[]", "at") and e[3] is not None):
        e = strip(e[2] if e[0] == "un" else e[3] if e[0] == "call" else e[1])
    return e


def const_t(t):
    t = t.strip()
    while t.endswith("]"):
        t = t[:t.rindex("[")].strip()
    if t.endswith("*"):
        return False
    return t.startswith("const ") or t.endswith("const")


class Icv(interp.Interp):
    """which OpenMP settings differ from those on entry"""
    CAP = 40
    MAXDEPTH = 4

    def __init__(self, P, touch):
        super().__init__(P)
        self.touch, self.bad, self.sets, self.written = touch, {}, 0, {}

    def inline(self, fn, call, args, obj, st):
        return fn["id"] in self.touch and not any(f["id"] == fn["id"] for f in self.stack) and (obj is None or obj == ("&", "this->"))

    def bucket(self, st):
        return frozenset(f for f in st.must if f.startswith("dirty:"))

    def throws(self, e):
        return False

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = basen(e[2])
        for s, g in ICV.items():
            if n == g:
                d = [f for f in st.must if f.startswith("dirty:%s@" % s)]
                return [(("s", "icv:" + s) if not d else interp.TOP, st)]
            if n == s:
                self.sets += 1
                v = args[0]
                v = st.env.get(v[1], ("s", v[1])) if v and v[0] in ("ref", "lv") else v
                t = st.drop(lambda f: f.startswith("dirty:%s@" % s))
                if v != ("s", "icv:" + s):
                    t = t.add("dirty:%s@%s" % (s, ir.loc(self.stack[-1], ir.line_of(e))))
                return [(interp.TOP, t)]
        return None

    def on_branch(self, e, val, taken, st):
        """a condition over values nothing assigns answers the same both times"""
        f = self.stack[-1]
        w = self.written.get(f["id"])
        if w is None:
            w = self.written[f["id"]] = {y[1] if y[0] == "var" else y[2] for s in ir.walk_stmts(f["body"]) for x in ir.stmt_exprs(s) for a in ir.walk(x) if a[0] == "asg" or a[0] == "un" and a[1] in ("++", "p++", "--", "p--") for y in ir.walk(a[2]) if y[0] in ("var", "mem")}
        if taken not in (True, False) or any(y[0] == "var" and y[1] in w or y[0] == "mem" and y[2] in w for y in ir.walk(e)):
            return st
        k = "br:%s:%s:" % (len(self.stack), ir.show(strip(e)))
        if k + str(not taken) in st.must:
            return None
        return st.add(k + str(taken))

    def on_exit(self, fn, node, val, st):
        if len(self.stack) == 1:
            for f in st.must:
                if f.startswith("dirty:"):
                    s, w = f[6:].split("@")
                    self.bad.setdefault((s, w), node.e if node.e is not None else ["x"])
        return st


def run(ctx):
    P, db = ctx.P, ctx.db
    ctx.rule("no variable of static storage is written after its initialisation; OpenMP settings are restored on every path")
    fns = [f for f in db.fns.values() if f.get("body")]
    gv = {}
    for v in db.gvars.values():
        gv.setdefault(v["id"], v)
    # static locals, whether referenced or not
    for f in fns:
        for s in ir.walk_stmts(f["body"]):
            if s[0] == "decl" and s[6] == "s":
                gv.setdefault(s[1], {"id": s[1], "q": s[2], "t": s[3], "file": f["file"], "line": s[5], "const": const_t(s[3]), "slocal": True, "tls": False, "fn": f["b"]})
    ctx.require(len(gv) > 30, "variables of static storage")
    exempt = {}
    for i, v in gv.items():
        cls = v["t"].replace("const ", "").strip()
        if cls == "context" and v.get("slocal"):
            exempt[i] = "the architecture description"
        elif v.get("tls") and v["q"] == "context::hidden_settings":
            exempt[i] = "per-thread debug settings"
    ctx.count("static_variables", len({(v["file"], v["line"]) for v in gv.values()}))
    mutable = {i for i, v in gv.items() if not v["const"] and i not in exempt}
    ctx.count("static_variables_of_non_const_type", len({(gv[i]["file"], gv[i]["line"]) for i in mutable}))
    for v in gv.values():
        ctx.sample("%s:%s %s" % (v["file"], v["line"], v["q"]))
    # who may write the exempt ones
    ok_ctx = closure(P, {f["id"] for f in fns if f.get("cls") == "context" and ("K" in f["fl"] or "D" in f["fl"] or f["b"] == "context::refresh")}, fns)

    def bad(f, v, line, how):
        key = "%s|%s" % (f["b"], v["q"])
        ctx.finding(key, ir.loc(f, line), "%s: %s %s, which has static storage (%s:%s): its value is shared by all handles%s" % (f["b"], how, v["q"].split("::")[-1], v["file"], v["line"], " of a thread" if v.get("tls") else ""))

    def tvar(e):
        r = root(e)
        return r[1] if r and r[0] == "var" and r[1] in gv else None

    for f in fns:
        ctx.count("functions")
        for s in ir.walk_stmts(f["body"]):
            if s[0] == "decl" and s[6] == "s" and s[4] is not None:
                ctx.count("static_locals_initialised")
                for y in ir.walk(s[4]):
                    if y[0] == "this" or y[0] == "var" and y[4] in ("l", "p"):
                        ctx.finding("%s|%s" % (f["b"], s[2]), ir.loc(f, s[5]), "%s: the static %s is set from %s of the first call and keeps that value for all later ones" % (f["b"], s[2], "the object" if y[0] == "this" else y[2]))
                        break
            if s[0] == "decl" and s[7] and s[4] is not None and not const_t(s[3].rstrip("& ")):
                i = tvar(s[4])
                if i in mutable:
                    bad(f, gv[i], s[5], "takes a writable reference to")
            if s[0] == "decl" and not s[7] and s[4] is not None and s[3].rstrip().endswith("*") and not s[3].startswith("const "):
                x = strip(s[4])
                i = tvar(x) if x and (x[0] == "un" and x[1] == "&" or x[0] == "var" and gv.get(x[1], {}).get("t", "").endswith("]")) else None
                if i in mutable:
                    bad(f, gv[i], s[5], "takes a writable pointer to")
            for x in ir.stmt_exprs(s):
                for e in ir.walk(x):
                    if e[0] == "asg" or e[0] == "un" and e[1] in ("++", "p++", "--", "p--"):
                        ctx.count("writes")
                        l = strip(e[2])
                        i = tvar(l)
                        if i in mutable:
                            bad(f, gv[i], ir.line_of(e), "writes")
                        elif i in exempt and gv[i].get("tls"):
                            if f["b"] != "context::set_hidden_setting":
                                bad(f, gv[i], ir.line_of(e), "writes")
                        m = l
                        while m and m[0] in ("mem", "idx"):
                            if m[0] == "mem" and m[3] == "context" and f["id"] not in ok_ctx:
                                ctx.finding("%s|context.%s" % (f["b"], m[2]), ir.loc(f, ir.line_of(e)), "%s: writes %s of the architecture description outside its initialisation" % (f["b"], m[2]))
                                break
                            m = strip(m[1])
                    elif e[0] in ("call", "ctor", "icall"):
                        args = e[3] if e[0] != "call" else e[4]
                        ts = P.targets(e) if e[0] == "call" else []
                        n = basen(e[2]) if e[0] == "call" else ""
                        if e[0] == "call" and not ts and e[3] is None and n in BANNED:
                            ctx.finding("%s|%s" % (f["b"], n), ir.loc(f, ir.line_of(e)), "%s: calls %s, which keeps or changes state of the whole process" % (f["b"], n))
                        if e[0] == "call" and e[3] is not None:
                            i = tvar(e[3])
                            quiet = all("c" in t["fl"] for t in ts) if ts else n in READERS
                            if i is not None and gv[i]["t"].rstrip().endswith("*"):
                                quiet = True  # acts on what it points to
                            if i in mutable and not quiet:
                                bad(f, gv[i], ir.line_of(e), "calls %s on" % n)
                            elif i in exempt and gv[i].get("tls") and not quiet and f["b"] != "context::set_hidden_setting" and n != "operator[]":
                                bad(f, gv[i], ir.line_of(e), "calls %s on" % n)
                        for j, a in enumerate(args):
                            i = tvar(a)
                            if i not in mutable:
                                continue
                            pt = ts[0]["params"][j][2] if ts and j < len(ts[0]["params"]) else None
                            x = strip(a)
                            addr = x[0] == "un" and x[1] == "&" or x[0] == "var" and gv[x[1]]["t"].endswith("]") if x[0] in ("un", "var") else False
                            if pt is None:
                                fd = None
                                w = addr
                            else:
                                w = pt.rstrip().endswith("&") and not pt.startswith("const ") or addr and pt.rstrip().endswith("*") and not pt.startswith("const ")
                            if w:
                                bad(f, gv[i], ir.line_of(e), "hands out")
    # OpenMP settings
    setters, calls = set(), {}
    for f in fns:
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call":
                        if basen(c[2]) in ICV:
                            setters.add(f["id"])
                        for t in P.targets(c):
                            calls.setdefault(f["id"], set()).add(t["id"])
    wrap = {f["id"] for f in fns if basen(f["b"]) in ICV}
    setters -= wrap
    called = {t for i, ts in calls.items() for t in ts}
    touch = set(setters)
    # a setter that is only a helper of its callers is judged in them
    roots = set(setters)
    for i in setters:
        I = Icv(P, touch)
        f = db.fns[i]
        I.dyncls = f.get("cls")
        I.run(f, interp.St())
        ctx.count("openmp_setting_calls_run", I.sets)
        if I.bad and i in called and not entry(P, f, fns):
            roots.discard(i)
            roots |= {c for c, ts in calls.items() if i in ts}
    ctx.count("functions_changing_openmp_settings", len(roots))
    for i in sorted(roots):
        I = Icv(P, touch)
        f = db.fns[i]
        I.dyncls = f.get("cls")
        I.run(f, interp.St())
        for (s, w), e in sorted(I.bad.items()):
            ctx.finding("%s|%s" % (f["b"], s), w, "%s: the setting changed by %s here is not put back on a path that ends at line %s" % (f["b"], s, ir.line_of(e) or f["end"]))


def entry(P, f, fns):
    """public interface, virtual, or called from outside its own class"""
    if "v" in f["fl"] or "C" in f["fl"]:
        return True
    cl = f.get("cls")
    for g in fns:
        if cl and g.get("cls") == cl:
            continue
        for s in ir.walk_stmts(g["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call" and cl and any(t["id"] == f["id"] for t in P.targets(c)):
                        return True
    return not cl and False


def closure(P, ids, fns):
    by = {f["id"]: f for f in fns}
    out, work = set(ids), list(ids)
    while work:
        f = by.get(work.pop())
        if not f:
            continue
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call":
                        for t in P.targets(c):
                            if t["id"] not in out and t.get("cls") == "context":
                                out.add(t["id"])
                                work.append(t["id"])
    return out
