"""Handle protocol of the public API (typestate over every entry point that takes a handle or a
data store).

Every entry point declared in source/include that takes a `da_handle`/`da_datastore` is explored
path by path, following calls into every library function the handle is passed to (wrappers,
templates, per-architecture forwarders, helpers), and stopping at methods of the algorithm
object. Obligations on each path: (1) the handle is never dereferenced where it may be null, and
the null path returns da_status_handle_not_initialized / da_status_store_not_initialized;
(2) the algorithm object obtained by dynamic_cast is never dereferenced where it may be null;
(3) an entry point of precision T reaches an algorithm object or its options only where
handle->precision is known to be T; (4) the error record of the previous call is cleared before
anything is recorded or any algorithm method runs.
"""
import interp, ir

ST = {}


class HI(interp.Interp):
    CAP = 60
    MAXDEPTH = 9

    def __init__(self, P, ctx, entry, kind):
        super().__init__(P)
        self.ctx, self.entry, self.kind = ctx, entry, kind
        self.bad = {}
        self.T = None
        self.derefs = self.algcalls = self.recs = 0

    def isalg(self, cls):
        return cls.startswith("basic_handle<") or any(s.startswith("basic_handle<") for s in self.P.supers(cls))

    def inline(self, fn, call, args, obj, st):
        if fn["b"].startswith("da_errors::"):
            return False
        if "cls" in fn and self.isalg(fn["cls"]):
            return False
        if "K" in fn["fl"] or "D" in fn["fl"]:
            return False
        if self.kind == "store" and fn.get("cls", "_da_datastore") != "_da_datastore":
            return False
        H = self.H
        hit = lambda v: v is not None and (v[1] == H if v[0] == "s" else v[0] in ("&", "ref") and (v[1] == H + "->" or v[1].startswith(H + "->") or v[1] in self.Hplaces))
        if obj is not None and hit(obj):
            return True
        return any(hit(a) for a in args)

    def on_deref(self, val, e, st, write):
        if val[0] == "s" and (val[1] == self.H or val[1].startswith("dyn:")):
            self.derefs += 1
            if self.truth(val, st) is not True:
                what = "handle" if val[1] == self.H else "algorithm object"
                self.flag("null-" + what, e, "dereferences the %s where it may be null" % what)
        elif val == ("c", 0):
            # a pointer known to be null is dereferenced
            self.flag("null-known", e, "dereferences a null pointer")
        return st

    def on_branch(self, e, val, taken, st):
        # a handle without an error object has no stale record
        if st.ref.get(self.H + "->.err") == ("eq", 0):
            return st.add("cleared")
        return st

    def flag(self, k, e, msg):
        f = self.stack[-1]
        key = "%s|%s|%s" % (self.entry["b"], k, f["b"])
        self.bad.setdefault(key, (ir.loc(f, ir.line_of(e)), msg, [g["b"] + " " + ir.loc(g, g["line"]) for g in self.stack]))

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2]
        if n == "da_errors::da_error_t::clear":
            return [(("c", 0), st.add("cleared"))]
        if n == "da_errors::da_error_t::rec":
            self.recs += 1
            if obj is not None and "cleared" not in st.must and obj in (("&", self.H + "->.err->"), ("s", self.H + "->.err")):
                self.flag("stale-errors", e, "records an error without clearing the previous call's error record first")
            return [(args[0] if args else interp.TOP, st)]
        if n.startswith("da_errors::"):
            return [(("s", self.sym(e)), st)]
        if self.kind == "handle" and obj is not None and len(e) > 8 and self.isalg(e[8]):
            self.algcalls += 1
            if "cleared" not in st.must and not n.endswith("::get_opts") and self.entry["ret"] == "da_status_":
                self.flag("stale-errors", e, "calls %s without clearing the previous call's error record first" % n)
            if self.T is not None:
                want = self.PREC[self.T]
                p = st.env.get(self.H + "->.precision", ("s", self.H + "->.precision"))
                if self.cmp("==", p, ("c", want), st) is not True:
                    self.flag("precision", e, "calls %s for %s where handle->precision is not known to be %s" % (n, self.T, self.T))
            return None
        return None


def precision(P):
    r = {}
    for en in P.db.enums.values():
        for v in en.get("vals", en.get("items", [])):
            if v[0].split("::")[-1] == "da_double":
                r["double"] = v[1]
            if v[0].split("::")[-1] == "da_single":
                r["float"] = v[1]
    return r


def entryT(f):
    t = f.get("targs") or []
    if t and t[0] in ("double", "float"):
        return t[0]
    return None


def run(ctx):
    db, P = ctx.db, ctx.P
    ids = {i for i, _ in db.fdecls}
    names = {d["b"] for d in db.fdecls.values()}
    prec = precision(P)
    ctx.require(prec.get("double") is not None and prec.get("float") is not None, "enumerators da_double/da_single")
    code = {}
    for en in db.enums.values():
        for v in en.get("vals", en.get("items", [])):
            code[v[0].split("::")[-1]] = v[1]
    # handle management functions may answer a null handle with any failure status
    lifecycle = {d["b"] for d in db.fdecls.values() if d["file"].endswith("aoclda_handle.h") or d["b"] in ("da_handle_save_model", "da_handle_load_model") or d["b"].endswith("_print_error_message")}
    entries = []
    for f in db.fns.values():
        if f["b"] not in names or "cls" in f or "lam" in f:
            continue
        for p in f["params"]:
            if p[2] in ("_da_handle *", "_da_datastore *", "_da_handle **", "_da_datastore **"):
                entries.append((f, p))
                break
    ctx.require(len([1 for f, p in entries if p[2] == "_da_handle *"]) >= 250, "public functions taking a da_handle")
    ctx.require(any("da_datastore" in p[2] for f, p in entries), "public functions taking a da_datastore")
    for f, p in sorted(entries, key=lambda x: x[0]["q"]):
        kind = "store" if "datastore" in p[2] else "handle"
        I = HI(P, ctx, f, kind)
        I.PREC = prec
        I.H = "H"
        I.T = entryT(f)
        pl = "L" + p[0]
        if p[2].endswith("**"):
            continue
        I.Hplaces = {pl}
        st = interp.St({pl: ("s", "H")})
        outs = I.run(f, st)
        ctx.count("entry_points")
        ctx.count("paths", len(outs))
        ctx.count("dereferences_checked", I.derefs)
        ctx.count("algorithm_calls_checked", I.algcalls)
        ctx.count("cfg_steps", I.stmts)
        want = code["da_status_handle_not_initialized" if kind == "handle" else "da_status_store_not_initialized"]
        for v, s in outs:
            v = I.val(v, s)
            if s.ref.get("H") == ("eq", 0):
                if f["ret"] == "da_status_" and v != ("c", want) and not (f["b"] in lifecycle and v[0] == "c" and v[1] != 0):
                    key = "%s|null-status" % f["b"]
                    I.bad.setdefault(key, (ir.loc(f, f["line"]), "a null %s is not answered with %s" % (kind, "da_status_handle_not_initialized" if kind == "handle" else "da_status_store_not_initialized"), []))
        ctx.sample("%s (%s): %d paths, %d dereferences" % (f["q"], ir.loc(f, f["line"]), len(outs), I.derefs))
        for k, (w, m, path) in I.bad.items():
            ctx.finding(k, w, "%s: %s" % (f["b"], m), path=path)
    ctx.rule("handle typestate: unknown -> non-null -> cleared -> precision known -> algorithm object checked; every use requires its predecessor state on all paths")
