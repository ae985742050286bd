"""Setting an option either stores a legal value or changes nothing.

 1. Numerical options: the setter of every instance is folded over every combination of bound
    kinds and every order of value, lower and upper bound (NaN included). It must accept exactly
    the values inside the registered range, store the accepted value and report success, and leave
    the stored value alone and report a failure otherwise. The constructor refuses a default
    outside the range in the same way.
 2. String options: the stored label changes only on a path where the label was found among the
    registered ones, or where no labels are registered.
 3. Registry: an option is set only when the registry is not locked, the name was found and the
    type recorded for the option is the one of the class it is accessed as; each class records a
    type of its own. A getter accesses an option under the last two conditions and writes the
    caller's variable in no other case.
 4. Nothing else writes a stored value.
 5. The C string getter copies only what fits into the length the caller gave, and reports the
    length needed otherwise.
"""
import itertools
import interp, ir, lin
from ir import strip
from interp import TOP

NS = "da_options::"


def run(ctx):
    P, db = ctx.P, ctx.db
    base = NS + "OptionBase"
    subs = sorted(c for c in P.subclasses(base) if c != base and c in P.recs)
    ctx.require(len(subs) >= 4, "option classes")
    values = {}
    for c in subs:
        g = [f for f in db.fns.values() if f.get("cls") == c and f["b"].endswith("::get") and len(f["params"]) == 1]
        if not g:
            continue
        v = stored(g[0])
        ctx.require(v is not None, "stored value of " + c)
        values[c] = v
    ctx.require(len(values) >= 4, "getters of option classes")
    tags = {}
    for c in sorted(values):
        numeric(ctx, c, values[c], tags) if "<" in c else string(ctx, c, values[c], tags)
    for c, t in sorted(tags.items()):
        ctx.require(len(t) >= 1, "type recorded by " + c)
        if len(t) != 1:
            ctx.finding("tag|" + c, "source/core/utilities/options.hpp", "%s: records %d different types" % (c, len(t)))
    inv = {}
    for c, t in tags.items():
        for x in t:
            inv.setdefault(x, []).append(c)
    for x, cs in inv.items():
        if len(cs) > 1:
            ctx.finding("tag|%s" % "|".join(sorted(cs)), "source/core/utilities/options.hpp", "%s record the same type" % " and ".join(sorted(cs)))
    registry(ctx, values, {c: next(iter(t)) for c, t in tags.items() if len(t) == 1})
    writers(ctx, values)
    strget(ctx)
    ctx.rule("setter and constructor of numerical options fold to the range test of the registered bounds, for every bound kind and order of value and bounds")
    ctx.rule("labels are stored only after they were found among the registered ones")
    ctx.rule("registry access is dominated by the lock, lookup and type tests; no other writer of stored values")


def stored(g):
    """The member a getter copies to its parameter."""
    out = set()
    pid = g["params"][0][0]
    for e in ir.all_exprs(g):
        l = r = None
        if e[0] == "asg" and e[1] == "=":
            l, r = strip(e[2]), strip(e[3])
        elif e[0] == "call" and e[2].endswith("operator=") and e[3] is not None:
            l, r = strip(e[3]), strip(e[4][0])
        if l and l[0] == "var" and l[1] == pid and r[0] == "mem":
            out.add(r[2])
    return out.pop() if len(out) == 1 else None


class NaN:
    def __repr__(self):
        return "NaN"


NAN = NaN()


class Fold(interp.Interp):
    """Folds comparisons of region representatives; NaN compares false."""
    MAXDEPTH = 8
    CAP = 400

    def __init__(self, P, c, member):
        super().__init__(P)
        self.c, self.member = c, member
        self.dyncls = c

    def inline(self, fn, call, args, obj, st):
        return fn["b"].startswith(NS) and not fn["b"].endswith(("prep_str", "print_option", "print_details"))

    def cmp(self, op, a, b, st):
        a, b = self.val(a, st), self.val(b, st)
        if a == ("c", NAN) or b == ("c", NAN):
            return op == "!="
        return super().cmp(op, a, b, st)

    def assign(self, e, st):
        if e[1] in ("+=", "-=", "|=", "&="):
            e = ["asg", "=", e[2], ["bin", e[1][0], e[2], e[3], e[4], e[5]]] + list(e[4:])
        return super().assign(e, st)

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        if n in ("isnan", "__builtin_isnan", "isfinite", "isinf") and args:
            v = self.val(args[0] if args[0][0] != "ref" else st.env.get(args[0][1], TOP), st)
            if v[0] == "c":
                nan = v[1] is NAN
                return [(("c", int({"isfinite": not nan, "isinf": False}.get(n, nan))), st)]
        return None

    def on_write(self, place, e, val, st):
        if place == "this->." + self.member:
            st = st.add("w:%r" % (self.val(val, st),)).drop(lambda f: f.startswith("w:") and f != "w:%r" % (self.val(val, st),))
        return st


def inside(lb, ub, lo, up, v):
    if v is NAN:
        return False
    return (lb == "m_inf" or (v > lo if lb == "greaterthan" else v >= lo)) and (ub == "p_inf" or (v < up if ub == "lessthan" else v <= up))


def enum(db, name):
    return [x for k, e in db.enums.items() if k[0] == name for x in e["vals"]]


def numeric(ctx, c, member, tags):
    P, db = ctx.P, ctx.db
    lbs = {n.split("::")[-1]: v for n, v in enum(db, NS + "lbound_t")}
    ubs = {n.split("::")[-1]: v for n, v in enum(db, NS + "ubound_t")}
    ctx.require(set(lbs) == {"m_inf", "greaterthan", "greaterequal"} and set(ubs) == {"p_inf", "lessthan", "lessequal"}, "bound kinds")
    isbool = "bool" in c
    flt = "float" in c or "double" in c or "Float16" in c
    names = [n for r in P.supers(c) + [c] for n in [f[0] for f in P.recs.get(r, {}).get("fields", [])]]
    for m in ("lower", "upper", "lbound", "ubound", "otype", "setby"):
        ctx.require(m in names, "member %s of %s" % (m, c))
    setters = [f for f in db.fns.values() if f.get("cls") == c and f["b"].endswith("::set") and f["params"]]
    ctors = [f for f in db.fns.values() if f.get("cls") == c and "K" in f["fl"] and len(f["params"]) > 2]
    ctx.require(setters and (ctors or "_Float16" in c), "setter and constructor of " + c)
    # the type each constructor records
    tags.setdefault(c, set())
    for f in ctors:
        class Tag(Fold):
            def on_write(s, place, e, val, st):
                if place.endswith(".otype") and s.val(val, st)[0] == "c" and s.val(val, st)[1] != 0:
                    tags[c].add(s.val(val, st)[1])
                return st
        Tag(P, c, member).run(f, interp.St({"this": ("&", "this->")}))
    tagv = next(iter(tags[c]), None)
    for f in setters:
        vp = f["params"][0]
        sp = f["params"][1] if len(f["params"]) > 1 else None
        bad = {}
        for lb, ub, (lo, up) in itertools.product(lbs, ubs, ((0, 3), (0, 0), (-2, -2))):
            vals = (0, 1) if isbool else [lo - 2, lo - 1, lo, lo + 1, up - 1, up, up + 1, up + 2] + ([NAN] if flt else [])
            for v in dict.fromkeys(vals):
                I = Fold(P, c, member)
                st = interp.St({"this": ("&", "this->"), "this->.lower": ("c", lo), "this->.upper": ("c", up), "this->.lbound": ("c", lbs[lb]), "this->.ubound": ("c", ubs[ub]), "L" + vp[0]: ("c", v)})
                if tagv is not None:
                    st = st.set("this->.otype", ("c", tagv))
                if sp:
                    st = st.set("L" + sp[0], ("s", "setby"))
                outs = I.run(f, st)
                ctx.count("folded_settings")
                ctx.count("cfg_steps", I.stmts)
                want = isbool or inside(lb, ub, lo, up, v)
                for r, s in outs:
                    r = I.val(r, s)
                    w = [x for x in s.may if x.startswith("w:")]
                    d = "value %r for %s %r, %s %r" % (v, lb, lo, ub, up)
                    if want and not (r == ("c", 0) and w == ["w:%r" % (("c", v),)]):
                        bad.setdefault("reject", "a legal value is refused or not stored (%s)" % d)
                    if not want and (w or r[0] != "c" or r[1] == 0):
                        bad.setdefault("accept", "an illegal value is accepted or stored (%s)" % d)
        for k, m in bad.items():
            ctx.finding("%s|%s" % (c.split("<")[0], k), ir.loc(f, f["line"]), "%s::set: %s" % (c, m))
    if isbool:
        return
    for f in ctors:
        ps = {p[1]: p for p in f["params"]}
        if not {"lower", "lbound", "upper", "ubound", "vdefault"} <= set(ps):
            continue
        bad = {}
        for lb, ub, (lo, up) in itertools.product(lbs, ubs, ((0, 3), (0, 0), (3, 0))):
            for v in dict.fromkeys([-1, 0, 1, 2, 3, 4] + ([NAN] if flt else [])):
                I = Fold(P, c, member)
                st = interp.St({"this": ("&", "this->")})
                for n, x in (("lower", lo), ("upper", up), ("lbound", lbs[lb]), ("ubound", ubs[ub]), ("vdefault", v)):
                    st = st.set("L" + ps[n][0], ("c", x))
                outs = I.run(f, st)
                ctx.count("folded_defaults")
                want = inside(lb, ub, lo, up, v)
                if not want and outs:
                    bad.setdefault("default", "an option can be registered with an illegal default (%r for %s %r, %s %r)" % (v, lb, lo, ub, up))
                for r, s in outs:
                    e = s.env
                    if want and (e.get("this->." + member), e.get("this->.lower"), e.get("this->.upper"), e.get("this->.lbound"), e.get("this->.ubound")) != (("c", v), ("c", lo), ("c", up), ("c", lbs[lb]), ("c", ubs[ub])):
                        bad.setdefault("bounds", "the registered default or bounds are not the ones recorded")
        for k, m in bad.items():
            ctx.finding("%s|%s" % (c.split("<")[0], k), ir.loc(f, f["line"]), "%s: %s" % (c, m))


class Labels(interp.Interp):
    """The string setter: which values were found among the labels."""
    MAXDEPTH = 4

    def __init__(self, P, c, member, ctx):
        super().__init__(P)
        self.c, self.member, self.ctx, self.bad = c, member, ctx, {}

    def inline(self, fn, call, args, obj, st):
        return fn.get("cls") == self.c or fn["b"].startswith(NS + "OptionBase")

    def ident(self, v, st):
        if v[0] in ("ref", "lv"):
            return repr(st.env.get(v[1], ("s", v[1])))
        if v[0] == "&":
            return repr(st.env.get(v[1], ("s", v[1])))
        return repr(v)

    def on_call(self, e, targets, args, obj, st):
        if e[0] == "ctor" and "basic_string" in e[2] and args:
            v = args[0]
            if v[0] in ("ref", "lv", "&"):
                v = st.env.get(v[1], ("s", v[1]))
            return [(v, st)]
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        o = obj[1] if obj and obj[0] == "&" else ""
        if o.endswith(".labels"):
            if n in ("size", "empty"):
                return [(("s", "nlabels") if n == "size" else ("cmp", "==", ("s", "nlabels"), ("c", 0)), st)]
            if n in ("end", "cend"):
                return [(("s", "labels.end"), st)]
            if n in ("find", "count", "contains"):
                return [(("s", n + ":" + self.ident(args[0], st)), st)]
        if n in ("operator==", "operator!="):
            vs = ([obj] if obj is not None else []) + list(args)
            vs = [st.env.get(v[1], ("s", v[1])) if v[0] in ("ref", "lv", "&") and v[1] in st.env else v for v in vs]
            if len(vs) == 2 and ("s", "labels.end") in vs:
                o2 = vs[0] if vs[1] == ("s", "labels.end") else vs[1]
                if o2[0] == "s" and o2[1].startswith("find:"):
                    r = ("s", "found:" + o2[1][5:])
                    return [(r if n == "operator!=" else ("not", r), st)]
        if n == "operator=" and o:
            v = args[0]
            if v[0] in ("ref", "lv", "&"):
                v = st.env.get(v[1], ("s", v[1]))
            st = self.on_write(o, e, v, st)
            return [(("lv", o), st.set(o, v))]
        if n == "prep_str":
            p = args[0][1] if args[0][0] in ("ref", "&", "lv") else None
            if p:
                st = st.set(p, ("s", "prep:" + self.ident(args[0], st)))
            return [(TOP, st)]
        return None

    def on_write(self, place, e, val, st):
        if place == "this->." + self.member:
            self.ctx.count("label_stores")
            val = self.val(val, st)
            k = repr(val)
            ok = any(s == "nlabels" and r == ("eq", 0) for s, r in st.ref.items())
            for s, r in st.ref.items():
                if s in ("found:" + k, "count:" + k, "contains:" + k) and r[0] == "ne" and 0 in r[1]:
                    ok = True
                if s in ("found:" + k, "count:" + k, "contains:" + k) and r[0] == "eq" and r[1]:
                    ok = True
            if not ok:
                self.bad.setdefault("label", (ir.loc(self.stack[-1], ir.line_of(e)), "a label is stored that was not found among the registered ones"))
            st = st.add("stored")
        return st


def string(ctx, c, member, tags):
    P, db = ctx.P, ctx.db
    setters = [f for f in db.fns.values() if f.get("cls") == c and f["b"].endswith("::set") and f["params"]]
    ctx.require(setters, "setter of " + c)
    for f in setters:
        I = Labels(P, c, member, ctx)
        st = interp.St({"this": ("&", "this->"), "L" + f["params"][0][0]: ("s", "value")})
        outs = I.run(f, st)
        ctx.count("cfg_steps", I.stmts)
        for v, s in outs:
            v = I.val(v, s)
            if v == ("c", 0) and "stored" not in s.must:
                I.bad.setdefault("nostore", (ir.loc(f, f["line"]), "success is reported without the value having been stored"))
            if v != ("c", 0) and "stored" in s.may:
                I.bad.setdefault("failstore", (ir.loc(f, f["line"]), "a failing call changes the stored value"))
        for k, (w, m) in I.bad.items():
            ctx.finding("%s|%s" % (c, k), w, "%s::set: %s" % (c, m))
    tags.setdefault(c, set())
    for f in db.fns.values():
        if f.get("cls") == c and "K" in f["fl"] and len(f["params"]) > 2:
            class Tag(Fold):
                def on_write(s, place, e, val, st):
                    if place.endswith(".otype") and s.val(val, st)[0] == "c" and s.val(val, st)[1] != 0:
                        tags[c].add(s.val(val, st)[1])
                    return st
            Tag(P, c, member).run(f, interp.St({"this": ("&", "this->")}))


class Reg(interp.Interp):
    MAXDEPTH = 5

    def __init__(self, P, ctx, values, tags, setting):
        super().__init__(P)
        self.ctx, self.values, self.tags, self.setting = ctx, values, tags, setting
        self.bad = {}
        self.uses = 0

    def inline(self, fn, call, args, obj, st):
        b = fn["b"]
        return b.startswith(NS + "get_type") or b.endswith("operator option_t") or b.startswith((NS + "OptionRegistry",)) or (b.startswith(NS) and call[3] is None and not b.endswith("prep_str"))

    def pure(self, e):
        return e[0] == "call" and e[2].split("::")[-1] in ("operator->", "operator*", "static_pointer_cast", "dynamic_pointer_cast", "get_errmsg", "get_name")

    def at(self, v, st):
        while v[0] in ("ref", "lv", "&") and v[1] in st.env:
            v = st.env[v[1]]
        return v

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        o = obj[1] if obj and obj[0] == "&" else ""
        if o.endswith(".registry"):
            if n in ("end", "cend"):
                return [(("s", "registry.end"), st)]
            if n == "find":
                return [(("s", "find@%s" % ir.line_of(e)), st)]
        if n in ("operator==", "operator!="):
            vs = [self.at(v, st) for v in ([obj] if obj is not None else []) + list(args)]
            if len(vs) == 2 and ("s", "registry.end") in vs:
                o2 = vs[0] if vs[1] == ("s", "registry.end") else vs[1]
                if o2[0] == "s" and o2[1].startswith("find@"):
                    r = ("s", "found:" + o2[1])
                    return [(r if n == "operator!=" else ("not", r), st)]
        if n == "operator=" and o and o.startswith("L"):
            return [(("lv", o), st.set(o, self.at(args[0], st)))]
        if n == "get_option_t":
            return [(("s", "otype"), st)]
        # a use of the option object itself
        if e[3] is not None and n in ("set", "get"):
            for x in ir.walk(e[3]):
                if x[0] == "call" and x[2].split("::")[-1] in ("static_pointer_cast", "dynamic_pointer_cast"):
                    t = x[6]
                    cls = [c for c in self.values if "<" + c in t.replace("shared_ptr", "") or c + ">" in t or c.replace(NS, "") + ">" in t]
                    cls = max(cls, key=len) if cls else None
                    self.use(e, x, cls, st)
                    if n == "get":
                        for v in args:
                            if v[0] in ("ref", "&"):
                                st = st.set(v[1], ("s", "fetched")) if "[]" not in v[1] else st
                        st = st.add("fetched")
                    return [(("s", "result"), st.add("used"))]
        return None

    def use(self, e, x, cls, st):
        self.uses += 1
        self.ctx.count("registry_accesses")
        f = self.stack[-1]
        where = (ir.loc(f, ir.line_of(e)),)
        if cls is None:
            self.bad.setdefault("class", where + ("the option is accessed as an unknown class %s" % x[6],))
            return
        want = self.tags.get(cls)
        r = st.ref.get("otype")
        if want is None or r != ("eq", want):
            self.bad.setdefault("type", where + ("the option is accessed as %s without its recorded type having been found to be that one" % cls,))
        it = None
        for y in ir.walk(x):
            if y[0] == "var":
                it = self.at(("ref", "L" + y[1]), st)
        ok = it is not None and it[0] == "s" and (st.ref.get("found:" + it[1]) or ("",))[0] == "ne"
        if not ok:
            self.bad.setdefault("found", where + ("the option is accessed although the name may not have been found",))
        if self.setting and (st.ref.get("this->.readonly") != ("eq", 0)):
            self.bad.setdefault("locked", where + ("the option is set although the registry may be locked",))


def registry(ctx, values, tags):
    P, db = ctx.P, ctx.db
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f["id"]):
        if f["b"] not in (NS + "OptionRegistry::set", NS + "OptionRegistry::get"):
            continue
        setting = f["b"].endswith("set")
        I = Reg(P, ctx, values, tags, setting)
        st = interp.St({"this": ("&", "this->")})
        outp = [p for p in f["params"] if p[2].rstrip().endswith("&") and not p[2].startswith("const ")]
        for p in outp:
            st = st.set("L" + p[0], ("ref", "OUT" + p[0]))
            st = st.set("OUT" + p[0], ("s", "before" + p[0]))
        outs = I.run(f, st)
        ctx.count("registry_functions")
        ctx.count("cfg_steps", I.stmts)
        n += I.uses
        for v, s in outs:
            v = I.val(v, s)
            ok = v == ("c", 0) or (v[0] == "s" and v[1] == "result")
            if ok and "used" not in s.must:
                I.bad.setdefault("success", (ir.loc(f, f["line"]), "success can be reported without the option having been accessed"))
            if v[0] == "c" and v[1] == 0 and setting:
                I.bad.setdefault("status", (ir.loc(f, f["line"]), "success is reported whatever the option's own setter answered")) if (s.ref.get("result") or ("",))[0] != "eq" else None
            if not ok and not setting and any(s.env.get("OUT" + p[0]) != ("s", "before" + p[0]) for p in outp):
                I.bad.setdefault("clobber", (ir.loc(f, f["line"]), "the caller's variable is written although the option was not found or has another type"))
        for k, (w, m) in I.bad.items():
            ctx.finding("registry|%s|%s" % (f["b"].split("::")[-1], k), w, "%s: %s" % (f["q"], m))
    ctx.require(n >= 8, "accesses of options in the registry")


def writers(ctx, values):
    """Stored values are written by the setter and the constructors only."""
    for f in ctx.db.fns.values():
        for e in ir.all_exprs(f):
            l = None
            if e[0] == "asg":
                l = strip(e[2])
            elif e[0] == "call" and e[2].endswith("operator=") and e[3] is not None:
                l = strip(e[3])
            elif e[0] == "un" and e[1] in ("++", "--", "p++", "p--"):
                l = strip(e[2])
            if l and l[0] == "mem" and l[3] in values and l[2] == values[l[3]]:
                ctx.count("stored_value_writes")
                if f.get("cls") == l[3] and ("K" in f["fl"] or f["b"].endswith("::set")):
                    continue
                # helpers are fine when only the setter reaches them: they are folded with it
                callers = [g for g in ctx.db.fns.values() for c in ir.calls(g) if any(t is f for t in ctx.P.targets(c))]
                if callers and f.get("cls") == l[3] and all(g.get("cls") == l[3] and (g["b"].endswith("::set") or "K" in g["fl"]) for g in callers):
                    continue
                ctx.finding("writer|" + f["b"], ir.loc(f, ir.line_of(e)), "%s writes the stored value of %s past its setter" % (f["b"], l[3]))
            # the loading primitives must not store into it directly either
            if e[0] == "call" and e[2].split("::")[-1] in ("deserialize_data", "dispatch_buffer_io", "memcpy"):
                for a in e[4]:
                    a = strip(a)
                    if a[0] == "un" and a[1] == "&":
                        a = strip(a[2])
                    if a[0] == "mem" and a[3] in values and a[2] == values[a[3]] and (e[2].endswith("memcpy") is False or a is strip(e[4][0])):
                        ctx.finding("writer|" + f["b"], ir.loc(f, ir.line_of(e)), "%s stores bytes of a file as the value of an option without validating them" % f["b"])


class StrGet(lin.Linear):
    MAXDEPTH = 4

    def __init__(self, P, ctx):
        super().__init__(P)
        self.ctx, self.bad, self.n = ctx, {}, 0

    def inline(self, fn, call, args, obj, st):
        return fn["file"].endswith("options_public.cpp") and not fn["b"].endswith("check_precision")

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        if n in ("size", "length") and obj is not None:
            return [(("s", "len"), st)]
        if n in ("copy", "memcpy", "strncpy", "strcpy") and args:
            self.n += 1
            ln = args[1] if n == "copy" and len(args) > 1 else args[-1]
            self.fits(e, ln, 1, st)
            return [(TOP, st)]
        return None

    def fits(self, e, ln, k, st):
        l = lin.lin(self.val(ln, st))
        cap = ((("CAP", 1),), 0)
        f = self.stack[-1]
        self.ctx.count("string_copies")
        if l is None or not self.holds(st, (lin.add(cap, l, -1)[0], lin.add(cap, l, -1)[1] - k)):
            self.bad.setdefault("fits", (ir.loc(f, ir.line_of(e)), "copies a string without having established that it fits into the length the caller gave"))
        if not self.holds(st, (cap[0], 0)) and not self.holds(st, (cap[0], -1)):
            self.bad.setdefault("negative", (ir.loc(f, ir.line_of(e)), "copies a string although the length the caller gave may be negative"))


def strget(ctx):
    P, db = ctx.P, ctx.db
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f["id"]):
        if f["b"].split("::")[-1] not in ("da_options_get", "da_datastore_options_get") or not any(p[2] == "char *" for p in f["params"]):
            continue
        if not f["file"].endswith("options_public.cpp"):
            continue
        I = StrGet(P, ctx)
        lp = [p for p in f["params"] if p[2].replace("da_int", "int") in ("int *", "long *")][0]
        st = interp.St({"L" + lp[0]: ("&", "LEN"), "LEN": ("s", "CAP")})
        outs = I.run(f, st)
        n += I.n
        ctx.count("cfg_steps", I.stmts)
        for k, (w, m) in I.bad.items():
            ctx.finding("strget|%s|%s" % (f["b"], k), w, "%s %s" % (f["b"], m))
    ctx.require(n >= 2, "string option getters")
