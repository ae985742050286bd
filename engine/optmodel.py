"""The option registries of the library, reconstructed from source.

defs(cls)   options a concrete handle class (or the data store) registers, by name
uses        every read/write of an option with a literal name, resolved to the registries
            it may address
"""
import ir
import strconst
from ir import strip, const_int

REG = "da_options::OptionRegistry"


def literal(e):
    """The string literal an expression is made of, if it is one."""
    lits = [x for x in ir.walk(e) if x[0] == "str"] if e else []
    return lits[0][1] if len(lits) >= 1 and lits[0][1] != "?" else None


def tidy(n):
    """The registry's own normalisation of names and labels."""
    return " ".join(n.split()).lower() if n is not None else None


def num(e):
    v = const_int(e)
    if v is not None:
        return v
    x = strip(e)
    neg = False
    while x and (x[0] == "cast" or (x[0] == "un" and x[1] in ("-", "+"))):
        if x[0] == "un":
            neg ^= x[1] == "-"
            x = strip(x[2])
        else:
            x = strip(x[3])
    if x and x[0] in ("flt", "int"):
        return -x[1] if neg else x[1]
    if x and x[0] == "call" and x[2].startswith("std::numeric_limits<") and x[2].endswith("::max"):
        return float("inf")
    return None


class Opt:
    __slots__ = ("name", "kind", "fn", "line", "labels", "args", "default", "expr", "rawlabels")

    def outside(s, v):
        """Reason a constant is outside the registered range."""
        lo, lb, up, ub = s.args[:4]
        if lb in (1, 2) and lo is not None and (v < lo or (lb == 1 and v == lo)):
            return "%s is below the range of '%s'" % (v, s.name)
        if ub in (1, 2) and up is not None and (v > up or (ub == 1 and v == up)):
            return "%s is above the range of '%s'" % (v, s.name)
        return None

    def __init__(s, name, kind, fn, line):
        s.name, s.kind, s.fn, s.line = name, kind, fn, line
        s.labels, s.args, s.default, s.rawlabels = None, None, None, None


def made(P, e):
    """Constructors std::make_unique / make_shared may run."""
    t = e[6]
    i = t.find("<")
    if i < 0:
        return []
    d, j = 0, i
    for j in range(i, len(t)):
        d += t[j] == "<"
        d -= t[j] == ">"
        if d == 0 or (d == 1 and t[j] == ","):
            break
    q = t[i + 1:j].strip()
    return [f for f in P.ctors.get(q, ()) if len(f["params"]) == len(e[4])]


class OptModel:
    def __init__(self, P):
        self.P = P
        self.callers = {}
        for f in P.fns.values():
            for e in ir.all_exprs(f):
                if e[0] in ("call", "ctor"):
                    for t in P.targets(e):
                        self.callers.setdefault(t["id"], []).append((f, e))
                    if e[0] == "call" and e[2] in ("std::make_unique", "std::make_shared"):
                        for c in made(P, e):
                            self.callers.setdefault(c["id"], []).append((f, e))
        self.local = {}  # fn id -> [Opt] registered on behalf of this function
        self.built = {}  # fn id -> [(name, ctor)] option objects constructed here
        self.opaque = set()  # functions building options whose names are not known
        for f in P.fns.values():
            for e in ir.all_exprs(f):
                if e[0] == "ctor" and (e[2] == "da_options::OptionString" or e[2].startswith("da_options::OptionNumeric<")) and len(e[3]) >= 3:
                    self.attribute(f, e, e, 0)
        self._reg = {}
        self.sc = strconst.StrConst(P, self.callers)
        self.registries = self.find_registries()

    def attribute(self, f, e, orig, depth):
        """Parse an option definition; when its name is a parameter of a helper, once per caller."""
        o = self.parse(f, e)
        if depth == 0:
            self.built.setdefault(f["id"], []).append((o.name if o else "?", orig))
        if o:
            self.local.setdefault(f["id"], []).append(o)
            return
        pidx = {p[0]: i for i, p in enumerate(f["params"])}
        used = [x for x in ir.walk(e[3][0]) if x[0] == "var" and x[1] in pidx]
        if f.get("cls", "").startswith("da_options::Option"):
            return
        if not used or depth > 3:
            self.opaque.add(f["id"])
            return
        for g, c in self.callers.get(f["id"], ()):
            a = c[4] if c[0] == "call" else c[3]
            e2 = e[:3] + [[self.subst(x, pidx, a) for x in e[3]]] + e[4:]
            n = len(self.local.get(g["id"], ()))
            self.attribute(g, e2, orig, depth + 1)
            for o in self.local.get(g["id"], ())[n:]:
                o.line = ir.line_of(c) or o.line

    def subst(self, x, pidx, args):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == "var" and x[1] in pidx and pidx[x[1]] < len(args):
                return args[pidx[x[1]]]
            return [self.subst(y, pidx, args) for y in x]
        return x

    def incomplete(self, q):
        chain = [q] + self.P.supers(q)
        return bool(self.opaque) and (q == "_da_datastore" or any(self.reaches(c, self.opaque) for c in self.P.fns.values() if c.get("cls") in chain and "K" in c["fl"]))

    def reaches(self, f, goal, seen=None):
        seen = set() if seen is None else seen
        if f["id"] in goal:
            return True
        if f["id"] in seen:
            return False
        seen.add(f["id"])
        return any(self.reaches(t, goal, seen) for e in ir.all_exprs(f) if e[0] == "call" for t in self.P.targets(e))

    def parse(self, f, e):
        n = literal(e[3][0])
        if n is None:
            return None
        if e[2] == "da_options::OptionString":
            n = tidy(n)
            o = Opt(n, "string", f, e[4])
            labels = {}
            if len(e[3]) >= 3:
                for x in ir.walk(e[3][2]):
                    if x[0] == "ctor" and len(x[3]) == 2 and "pair<" in x[2]:
                        l = literal(x[3][0])
                        labels[tidy(l)] = const_int(x[3][1])
                        o.rawlabels = (o.rawlabels or []) + [(l, const_int(x[3][1]))]
            o.labels = labels
            if len(e[3]) >= 4:
                o.default = literal(e[3][3])
        else:
            n = tidy(n)
            o = Opt(n, e[2][len("da_options::OptionNumeric<"):-1], f, e[4])
            o.args = [num(a) for a in e[3][2:7]] if len(e[3]) >= 7 else None
        o.expr = e
        return o

    # options registered by a function into the registry it is given
    def regs(self, f, seen=()):
        if f["id"] in self._reg:
            return self._reg[f["id"]]
        if f["id"] in seen:
            return []
        out = list(self.local.get(f["id"], ()))
        for e in ir.all_exprs(f):
            if e[0] == "call" and any(strip(a) and self.isreg(strip(a)) for a in e[4]):
                for t in self.P.targets(e):
                    out += self.regs(t, seen + (f["id"],))
        self._reg[f["id"]] = out
        return out

    def isreg(self, a):
        t = a[3] if a[0] == "var" else a[4] if a[0] == "mem" else a[4] if a[0] == "un" and len(a) > 4 else ""
        return "OptionRegistry" in t

    def find_registries(self):
        """registry name -> (options, constructors that fill it)"""
        P = self.P
        out = {}
        for r in P.recs.values():
            q = r["q"]
            if not any(s.startswith("basic_handle<") for s in P.supers(q)):
                continue
            opts = []
            chain = [q] + P.supers(q)
            ctors = [f for f in P.fns.values() if f.get("cls") in chain and "K" in f["fl"] and "Y" not in f["fl"]]
            for c in ctors:
                opts += self.ctor_regs(c)
            if opts:
                out[q] = opts
        for f in P.bybase.get("da_datastore_init", ()):
            out["_da_datastore"] = self.regs(f)
        return out

    def ctor_regs(self, c, seen=()):
        """Registration reachable from a constructor through methods of the same object."""
        if c["id"] in seen:
            return []
        out = list(self.local.get(c["id"], ()))
        for e in ir.all_exprs(c):
            if e[0] == "call":
                if any(strip(a) and self.isreg(strip(a)) for a in e[4]):
                    for t in self.P.targets(e):
                        out += self.regs(t)
                elif e[3] is not None and strip(e[3])[0] == "this":
                    for t in self.P.targets(e):
                        out += self.ctor_regs(t, seen + (c["id"],))
        return out

    def concrete(self, cls):
        P = self.P
        c = [q for q in [cls] + list(P.subclasses(cls)) if q in self.registries]
        # leaves only, unless the class itself is instantiated somewhere
        return c

    def identity(self, f, obj, depth=0):
        """Registries (names) the expression `obj`, evaluated in f, may denote; None if unknown."""
        o = strip(obj)
        while o and o[0] == "un" and o[1] in ("*", "&"):
            o = strip(o[2])
        if not o or depth > 5:
            return None
        if o[0] == "mem":
            base = strip(o[1])
            while base and base[0] == "un" and base[1] in ("*", "&"):
                base = strip(base[2])
            cls = o[3]
            if base and base[0] == "this":
                own = f.get("cls") if "lam" not in f else None
                if "lam" in f:
                    p = self.P.fns.get(f["lam"])
                    while p is not None and "lam" in p:
                        p = self.P.fns.get(p["lam"])
                    own = p.get("cls") if p else None
                if own and (own == cls or cls in self.P.supers(own)):
                    cls = own
            elif base and base[0] in ("var", "mem"):
                t = (base[3] if base[0] == "var" else base[4]).replace("const ", "").rstrip("*& ").strip()
                if t in self.P.recs and (t == cls or cls in self.P.supers(t)):
                    cls = t
            decl = o[3]
            if cls == "_da_datastore":
                return {"_da_datastore"}
            if cls.startswith("basic_handle<") or any(s.startswith("basic_handle<") for s in self.P.supers(cls)):
                return set(self.concrete(cls)) or None
            # a reference member: how is it bound?
            out = set()
            for c in self.P.fns.values():
                if c.get("cls") == decl and "K" in c["fl"] and "Y" not in c["fl"]:
                    for x in ir.all_exprs(c):
                        if x[0] == "asg" and strip(x[2])[0] == "mem" and strip(x[2])[2] == o[2] and strip(x[2])[1][0] == "this":
                            r = self.identity(c, x[3], depth + 1)
                            if r is None:
                                return None
                            out |= r
                    for i in c.get("inits", ()):
                        if i[0] == "m" and i[1] == o[2] and i[2]:
                            r = self.identity(c, i[2], depth + 1)
                            if r is None:
                                return None
                            out |= r
            return out or None
        if o[0] == "call" and "OptionRegistry" in o[6] and o[3] is not None:
            b = strip(o[3])
            if b[0] == "this":
                return self.identity(f, ["mem", b, "opts", o[8], "da_options::OptionRegistry"], depth + 1)
            t = (b[3] if b[0] == "var" else b[4] if b[0] == "mem" else o[8]).replace("const ", "").rstrip("*& ").strip()
            return set(self.concrete(t)) or None
        if o[0] == "ctor" and o[3]:
            # a derived class's constructor hands the registry to its base
            return None
        if o[0] == "var":
            for i, p in enumerate(f["params"]):
                if p[0] == o[1]:
                    out = set()
                    cs = list(self.callers.get(f["id"], ()))
                    if "K" in f["fl"]:
                        # base-class initialisers of derived constructors
                        cs = [(g, e) for g, e in cs]
                    if not cs:
                        return None
                    for g, e in cs:
                        a = e[4] if e[0] == "call" else e[3]
                        if i >= len(a):
                            return None
                        r = self.identity(g, a[i], depth + 1)
                        if r is None:
                            return None
                        out |= r
                    return out
            # a local initialised from something
            for s in ir.walk_stmts(f["body"]):
                if s[0] == "decl" and s[1] == o[1] and s[4]:
                    return self.identity(f, s[4], depth + 1)
        return None

    def isuse(self, e):
        return e[0] == "call" and len(e) > 8 and e[8] == REG and e[2].split("::")[-1] in ("get", "set") and e[3] is not None and e[4]

    def uses(self):
        for f in self.P.fns.values():
            if f.get("cls") == REG:
                continue
            for e in ir.all_exprs(f):
                if self.isuse(e):
                    yield f, e

    def usetype(self, e):
        """Type of the value read or written, as an option kind."""
        op = e[2].split("::")[-1]
        # from the callee's parameter
        ts = self.P.targets(e)
        t = None
        if ts:
            t = ts[0]["params"][1][2]
        elif len(e[4]) > 1:
            a = strip(e[4][1])
            t = a[3] if a[0] == "var" else a[4] if a[0] == "mem" else None
        if t is None:
            return None
        t = t.replace("const ", "").replace("&", "").strip()
        if "basic_string" in t or t == "char *":
            return "string"
        return t

    def names(self, f, e):
        """Normalised option names a get/set may use, or None."""
        v = self.sc.at(f, e, e[4][0])
        return None if v is None else {tidy(x) for x in v}

    def provable(self, f, e):
        """Why this get/set might fail; None when it cannot."""
        ns = self.names(f, e)
        if ns is None:
            return "the option name is not constant"
        ids = self.identity(f, e[3])
        if not ids:
            return "the registry is not known"
        k = self.usetype(e)
        kk = "float" if k == "_Float16" else k
        for n in sorted(ns):
            for q in sorted(ids):
                os_ = [o for o in self.registries.get(q, ()) if o.name == n]
                if not os_:
                    if self.incomplete(q):
                        continue
                    return "option '%s' is not registered by %s" % (n, q)
                kinds = {o.kind for o in os_}
                if kinds != {kk}:
                    return "option '%s' of %s is registered as %s but used as %s" % (n, q, "/".join(sorted(kinds)), k)
                if e[2].endswith("::set"):
                    r = self.value_ok(f, e, os_[0])
                    if r:
                        return r
        return None

    def value_ok(self, f, e, o):
        if o.kind == "string":
            vs = self.sc.at(f, e, e[4][1])
            if vs is None:
                return "the value is not constant"
            if o.labels:
                for v in sorted(vs):
                    if tidy(v) not in o.labels:
                        return "'%s' is not a label of '%s'" % (v, o.name)
            return None
        v = num(e[4][1])
        if v is None:
            return "the value is not constant"
        return o.outside(v)
