"""Arrays given for input are never written (whole-program pointer flow from every place where the
const of the caller's data is lost, plus path-sensitive ownership of the members that hold either
the caller's array or a private copy).

Writing through a pointer to const does not compile, so the caller's input can only be written
through a pointer that has lost its const: the result of a cast that drops it. From each such
cast pointers are followed through variables, parameters, members and out-parameters; no write
(assignment through it, or handing it to a routine outside the library that may write) may be
reached. A member that is also pointed at memory of its own (new, a smart
pointer) is followed path by path instead: wherever it may still be the caller's array it must not
be written or released.
"""
import interp, ir

# routines outside the source that only read the given arguments
READS = {"memcpy": {1, 2}, "memmove": {1, 2}, "memcmp": {0, 1, 2}, "strlen": {0}, "strcmp": {0, 1}, "copy": {0, 1}, "copy_n": {0}, "max_element": {0, 1}, "min_element": {0, 1},
         "minmax_element": {0, 1}, "count_if": {0, 1}, "find": {0, 1, 2}, "find_if": {0, 1}, "accumulate": {0, 1}, "distance": {0, 1}, "all_of": {0, 1}, "any_of": {0, 1}, "none_of": {0, 1},
         "lower_bound": {0, 1}, "isfinite": {0}, "isnan": {0}, "isinf": {0}, "make_pair": {0, 1}, "printf": {0, 1, 2, 3}, "equal": {0, 1, 2}, "partial_sum": {0, 1}, "transform": {0, 1}, "fopen": {0, 1}, "strncasecmp": {0, 1}, "strcasecmp": {0, 1}, "strncmp": {0, 1}, "strncpy": {1}, "strcpy": {1}}
FREE = {"free", "realloc"}


def basen(q):
    return q.split("::")[-1].split("<")[0]


def strip(e):
    e = ir.strip(e)
    while e and e[0] == "cast":
        e = ir.strip(e[3])
    return e


def isptr(t):
    t = (t or "").replace("__restrict__", "").replace("__restrict", "").strip()
    while t.endswith(" const"):
        t = t[:-6].strip()
    return t.endswith("*") or t.endswith("* &") or t.endswith("*&")


def nonconst(t):
    """T * or T ** (possibly by reference) with T not const"""
    return isptr(t) and not t.strip().startswith("const ")


def depth(t):
    return (t or "").count("*")


class Flow:
    """flow-insensitive graph of pointer values"""

    def __init__(self, P, fns):
        self.P = P
        self.succ, self.sinks, self.src, self.owns = {}, {}, {}, {}
        self.edges = 0
        # parameters through which a pointer is returned: set by the function
        self.outs = set()
        for f in fns:
            ix = {p[0]: j for j, p in enumerate(f["params"]) if depth(p[2]) > 1 or isptr(p[2]) and p[2].rstrip().endswith("&")}
            for s in ir.walk_stmts(f["body"]) if ix else ():
                for x in ir.stmt_exprs(s):
                    for e in ir.walk(x):
                        if e[0] == "asg" and isptr(e[5] or ""):
                            l = strip(e[2])
                            if l[0] == "un" and l[1] == "*":
                                l = strip(l[2])
                            if l[0] == "var" and l[1] in ix:
                                self.outs.add((f["id"], ix[l[1]]))
        for f in fns:
            self.f = f
            self.pix = {p[0]: j for j, p in enumerate(f["params"])}
            for i in f.get("inits") or []:
                if i[0] == "m":
                    fd = None
                    self.flow(("m", (f.get("cls") or "").split("<")[0], i[1]), i[2], True)
            for s in ir.walk_stmts(f["body"]):
                if s[0] == "decl" and s[4] is not None and (isptr(s[3])):
                    self.flow(("v", f["id"], s[1]), s[4], nonconst(s[3]) or depth(s[3]) > 1)
                    if s[7]:  # a reference aliases both ways
                        b = self.base(s[4])
                        if b:
                            self.edge(("v", f["id"], s[1]), b)
                if s[0] == "ret" and s[1] is not None and isptr(f["ret"]) and nonconst(f["ret"]):
                    self.flow(("r", f["id"]), s[1], True)
                for x in ir.stmt_exprs(s):
                    for e in ir.walk(x):
                        self.expr(e)

    def edge(self, a, b):
        if a != b:
            self.succ.setdefault(a, set()).add(b)
            self.edges += 1

    def base(self, e):
        e = ir.strip(e)
        while e and e[0] == "cast":
            e = ir.strip(e[3])
        if not e:
            return None
        k = e[0]
        if k == "var":
            if e[1] in self.pix:
                return ("p", self.f["id"], self.pix[e[1]])
            return ("v", self.f["id"] if e[4] in ("l", "p") and not self.f.get("lam") else "*", e[1])
        if k == "mem":
            return ("m", (e[3] or "").split("<")[0], e[2])
        if k == "idx":
            return self.base(e[1])
        if k == "un" and e[1] in ("*", "++", "--", "p++", "p--"):
            return self.base(e[2])
        if k == "un" and e[1] == "&":
            x = strip(e[2])
            return self.base(e[2]) if x and x[0] in ("idx", "var", "mem", "un") else None
        if k == "bin" and e[1] in ("+", "-"):
            return self.base(e[2]) or self.base(e[3])
        if k == "call":
            ts = self.P.targets(e)
            if ts:
                return ("r", ts[0]["id"])
            n = basen(e[2])
            if e[3] is not None and n in ("operator[]", "at", "front", "back") and isptr(e[6] or ""):
                return self.base(e[3])
            if n in ("move", "forward", "min", "max") and e[4]:
                return self.base(e[4][0])
        return None

    def cast(self, e):
        """the const-dropping cast inside the pointer expression e, if any"""
        while e:
            if e[0] == "cast":
                if len(e) > 7 and e[7]:
                    return e
                e = e[3]
            elif e[0] == "paren":
                e = e[1]
            elif e[0] == "bin" and e[1] in ("+", "-"):
                return self.cast(e[2]) or self.cast(e[3])
            elif e[0] == "cond":
                return self.cast(e[2]) or self.cast(e[3])
            else:
                return None
        return None

    def flow(self, dst, e, live):
        """the value of e reaches dst (live: dst permits writing)"""
        if e is None:
            return
        x = strip(e)
        c = self.cast(e)
        if c is not None:
            if live:
                self.src.setdefault(dst, []).append((self.f, ir.line_of(c) or c[4], "the cast of %s to %s" % (ir.show(c[3]), c[2])))
            return
        if x and x[0] == "cond":
            self.flow(dst, x[2], live)
            self.flow(dst, x[3], live)
            return
        if not live:
            return
        if x and (x[0] == "new" or x[0] == "call" and not self.P.targets(x) and basen(x[2]) in ("malloc", "calloc", "get", "data", "aligned_alloc")):
            self.owns.setdefault(dst, []).append((self.f["id"], ir.line_of(x)))
            return
        b = self.base(e)
        if b:
            self.edge(b, dst)

    def write(self, e, line, how):
        b = self.base(e)
        if b:
            self.sinks.setdefault(b, []).append((self.f, line, how))
        c = self.cast(ir.strip(e)) if e else None
        if c is not None:
            self.sinks.setdefault(("cast", self.f["id"], c[4]), []).append((self.f, line, how))
            self.src.setdefault(("cast", self.f["id"], c[4]), []).append((self.f, line, "the cast of %s" % ir.show(c[3])))

    def expr(self, e):
        k = e[0]
        if k == "asg" or k == "un" and e[1] in ("++", "--", "p++", "p--"):
            l = strip(e[2])
            if k == "asg" and isptr(e[5] or ""):
                if e[1] == "=":
                    d = self.base(l)
                    if d:
                        self.flow(d, e[3], nonconst(e[5]) or depth(e[5]) > 1)
                return
            if k == "un" and isptr(e[4] or ""):
                return
            if l and l[0] == "idx" or l and l[0] == "un" and l[1] == "*":
                self.write(l[1] if l[0] == "idx" else l[2], ir.line_of(e), "written")
        elif k == "del":
            self.write(e[1], ir.line_of(e), "released")
        elif k in ("call", "ctor"):
            args = e[4] if k == "call" else e[3]
            ts = self.P.targets(e) if k == "call" else [t for t in [self.P.fns.get(e[1])] if t]
            n = basen(e[2])
            line = ir.line_of(e)
            for j, a in enumerate(args):
                if ts:
                    for t in ts:
                        if j >= len(t["params"]):
                            continue
                        pt = t["params"][j][2]
                        if not isptr(pt) or not (nonconst(pt) or depth(pt) > 1):
                            continue
                        if (t["id"], j) not in self.outs:
                            self.flow(("p", t["id"], j), a, True)
                        if depth(pt) > 1 or pt.rstrip().endswith("&"):
                            b = self.base(a)
                            if b:
                                self.edge(("p", t["id"], j), b)  # the callee may store a pointer there
                    continue
                if j in READS.get(n, ()):
                    continue
                x = strip(a)
                b = self.base(a)
                if b is None and self.cast(a) is None:
                    continue
                t = a_type(a)
                if not isptr(t) or not nonconst(t):
                    continue
                if n in FREE:
                    self.write(a, line, "released")
                elif e[3] is not None and k == "call" or k == "ctor":
                    continue  # containers and smart pointers
                else:
                    self.write(a, line, "handed to %s" % n)
        elif k == "icall":
            for a in e[2 + 0] if isinstance(e[2], list) and e[2] and isinstance(e[2][0], list) else e[3] if isinstance(e[3], list) else []:
                pass

    def reach(self, start, stop):
        """node -> predecessor, for everything the pointer reaches"""
        pred = {n: None for n in start}
        work = list(start)
        while work:
            n = work.pop()
            if n in stop:
                continue
            for m in self.succ.get(n, ()):
                if m not in pred:
                    pred[m] = n
                    work.append(m)
        return pred


def a_type(a):
    a = ir.strip(a)
    if not a:
        return ""
    k = a[0]
    if k == "cast":
        return a[2]
    if k == "var":
        return a[3]
    if k == "mem":
        return a[4]
    if k == "idx":
        return a[4] or ""
    if k == "un":
        return a[4] or ""
    if k in ("bin", "asg"):
        return a[5] or ""
    if k == "cond":
        return a[5] or ""
    if k == "call":
        return a[6] or ""
    return ""


class Own(interp.Interp):
    """which of the tracked members may still be the caller's array"""
    CAP = 8
    MAXDEPTH = 8

    def __init__(self, P, names, family, relevant, mods, writes, F):
        super().__init__(P)
        self.names, self.family, self.relevant, self.mods, self.writes, self.F = names, family, relevant, mods, writes, F
        self.bad, self.uses, self.entered, self.memo = {}, 0, set(), {}
        # enumerated members that decide, in a function that renews a tracked member or in its callers
        self.deciding = set()
        sets = {f["id"] for f in P.fns.values() if f["id"] in relevant and any(e[0] == "asg" and strip(e[2])[0] == "mem" and strip(e[2])[2] in names for s in ir.walk_stmts(f["body"]) for x in ir.stmt_exprs(s) for e in ir.walk(x))}
        self.sets, self._bools = sets, {}
        for i in relevant:
            for c in conds(P.fns[i], sets, i in sets, P):
                ps = [q[0] for q in P.fns[i]["params"]]
                asks = {ps.index(y[1]) for y in ir.walk(c) if y[0] == "var" and y[1] in ps}
                given = [e[4][j] for g in relevant for s in (ir.walk_stmts(P.fns[g]["body"]) if asks else ()) for x in ir.stmt_exprs(s) for e in ir.walk(x) if e[0] == "call" and any(t["id"] == i for t in P.targets(e)) for j in asks if j < len(e[4])]
                for y in [y for z in [c] + given for y in ir.walk(z)]:
                    if y[0] == "mem" and strip(y[1])[0] == "this" and not isptr(y[4] or "") and y[4] not in ("int", "long", "double", "float", "_Float16", "bool") and "<" not in y[4]:
                        self.deciding.add(y[2])
        self.deciding = sorted(self.deciding)
        self.ltypes, self.dtypes = {}, set()
        # containers asked whether they are empty
        self.asked = {strip(e[3])[2] for i in relevant for s in ir.walk_stmts(P.fns[i]["body"]) for x in ir.stmt_exprs(s) for e in ir.walk(x) if e[0] == "call" and basen(e[2]) == "empty" and e[3] is not None and strip(e[3])[0] == "mem"}
        for i in relevant:
            f = P.fns[i]
            for q in f["params"]:
                self.ltypes[q[0]] = q[2].replace("&", "").strip()
            for s in ir.walk_stmts(f["body"]):
                if s[0] == "decl":
                    self.ltypes[s[1]] = s[3].replace("const ", "").strip()
                for x in ir.stmt_exprs(s):
                    self.dtypes |= {y[4] for y in ir.walk(x) if y[0] == "mem" and y[2] in self.deciding}

    def keep(self, p):
        """only places that help to tell the paths apart are followed"""
        if p.startswith("this->."):
            return p[7:] in self.names or p[7:] in self.deciding
        if p.startswith("L"):
            t = self.ltypes.get(p[1:])
            return t is None or t in ("bool", "da_status_") or isptr(t) or t in self.dtypes
        return p == "this" or not p.startswith("this->")

    def rsym(self, sym, op, n, st):
        if not sym.startswith("r:") and not self.keep(sym.split("@")[0]) and not any(st.env.get("this->." + k) == ("s", sym) for k in self.deciding):
            return st
        return super().rsym(sym, op, n, st)

    def cmp(self, op, a, b, st):
        if op in ("==", "!=") and a[0] == "s" and b[0] == "s" and a != interp.TOP and b != interp.TOP and ("own:" in a[1]) != ("own:" in b[1]):
            return op == "!="  # a private block is not the caller's
        return super().cmp(op, a, b, st)

    def mine(self, fn):
        return (fn.get("cls") or "").split("<")[0] in self.family

    def inline(self, fn, call, args, obj, st):
        return fn["id"] in self.relevant and (obj is None or obj == ("&", "this->"))

    def enter(self, fn, args, obj, st, lam=False):
        self.entered.add(fn["id"])
        # the callee sees the object and its arguments; the locals of its callers are put back after it
        loc = any(a and a[0] in ("ref", "&", "lv") and str(a[1]).startswith("L") for a in args)
        env = {k: v for k, v in st.env.items() if loc or not k.startswith("L")}
        syms = {v[1] for v in list(env.values()) + list(args) if v and v[0] == "s"} | {k for k in st.ref if not k.startswith(("L", "r:"))}
        ref = {k: v for k, v in st.ref.items() if loc or k in syms}
        key = (fn["id"], tuple(args), frozenset(env.items()), frozenset(ref.items()), st.must, len(self.stack))
        out = self.memo.get(key)
        if out is None:
            out = self.memo[key] = self.enter1(fn, args, obj, interp.St(env, ref, st.must, st.may), lam)
        back = {k: v for k, v in st.env.items() if k not in env}
        bref = {k: v for k, v in st.ref.items() if k not in ref}
        return [(v, interp.St({**s.env, **back}, {**s.ref, **bref}, s.must, s.may)) for v, s in out]

    def enter1(self, fn, args, obj, st, lam):
        out = super().enter(fn, args, obj, st, lam)
        by = {}
        for v, s in out:
            v = v if v[0] == "c" else interp.TOP
            k = (v, self.bucket(s))
            by[k] = interp.join(by[k], s) if k in by else s
        return [(v, s) for (v, b), s in by.items()]

    def throws(self, e):
        return any(x[0] == "new" or x[0] in ("call", "ctor") for x in ir.walk(e))

    def owned(self, m, st):
        v = st.env.get("this->." + m)
        return v is not None and v[0] == "s" and ("own:" in v[1]) or v == ("c", 0)

    def bools(self, f):
        """flags that decide whether a function renewing a tracked member is called"""
        r = self._bools.get(f["id"])
        if r is None:
            asked = {y[1] for c in conds(f, self.sets, f["id"] in self.sets, self.P) for y in ir.walk(c) if y[0] == "var"}
            r = [(p[0], p[1]) for p in f["params"] if p[2] == "bool"] + [(s[1], s[2]) for s in ir.walk_stmts(f["body"]) if s[0] == "decl" and s[3] in ("bool", "const bool") and s[1] in asked]
            self._bools[f["id"]] = r
        return r

    def bucket(self, st):
        c = []
        for k in self.deciding:
            v = st.env.get("this->." + k)
            v = self.val(v if v is not None else ("s", "this->." + k), st)
            if v[0] == "c":
                c.append((k, v[1]))
            elif v[0] == "s" and v[1] in st.ref:
                c.append((k, st.ref[v[1]]))
        f = self.stack[-1] if self.stack else None
        for vid, n in self.bools(f) if f else ():
            v = self.val(st.env.get("L" + vid, ("s", "L" + vid)), st)
            if v[0] == "c":
                c.append((n, v[1]))
        return (frozenset(m for m in self.names if self.owned(m, st)), frozenset(f for f in st.must if f.startswith("empty:")), tuple(c))

    def ev(self, e, st):
        if e[0] == "new":
            return [(("s", "own:new@%s" % ir.line_of(e)), s) for v, s in super().ev(e, st) if s is not None]
        if e[0] == "cast" and len(e) > 7 and e[7]:
            return [(v if v and v[0] == "s" and v != interp.TOP else ("s", "user:" + ir.show(strip(e[3]))), s) for v, s in super().ev(e, st)]
        if e[0] == "un" and e[1] in ("++", "--", "p++", "p--") and not isptr(e[4] or ""):
            return [(interp.TOP, self.write(p, ("s", p + "@n"), s) if p and p != "?" else s) for p, s in self.place(e[2], st)]
        if e[0] == "del":
            self.use(e[1], e, "released", st)
        return super().ev(e, st)

    def member(self, e):
        """the tracked member that the pointer expression e leads to"""
        x = strip(e)
        while x:
            if x[0] == "bin" and x[1] in ("+", "-"):
                l = self.member(x[2])
                return l or self.member(x[3])
            if x[0] == "un":
                x = strip(x[2])
            elif x[0] == "idx":
                x = strip(x[1])
            else:
                break
        if x and x[0] == "mem" and x[2] in self.names and strip(x[1])[0] == "this":
            return ("m", x[2])
        if x and x[0] == "var":
            f = self.stack[-1] if self.stack else None
            al = self.alias(f)
            if x[1] in al:
                return ("v", x[1], al[x[1]])
        return None

    def alias(self, f):
        """local pointers of f set from a tracked member"""
        if f is None:
            return {}
        r = getattr(self, "_al", None)
        if r is None:
            r = self._al = {}
        if f["id"] in r:
            return r[f["id"]]
        out = r[f["id"]] = {}
        for s in ir.walk_stmts(f["body"]):
            if s[0] == "decl" and s[4] is not None and isptr(s[3]) and nonconst(s[3]):
                for x in ir.walk(s[4]):
                    if x[0] == "mem" and x[2] in self.names and strip(x[1])[0] == "this":
                        out[s[1]] = x[2]
            for x in ir.stmt_exprs(s):
                for e in ir.walk(x):
                    if e[0] == "asg" and e[1] == "=" and strip(e[2])[0] == "var" and isptr(e[5] or "") and nonconst(e[5]):
                        for y in ir.walk(e[3]):
                            if y[0] == "mem" and y[2] in self.names and strip(y[1])[0] == "this":
                                out[strip(e[2])[1]] = y[2]
        return out

    def userval(self, v):
        return v is not None and v[0] == "s" and (v[1].startswith("user:") or any(v[1].startswith("this->." + m) for m in self.names) and "own:" not in v[1])

    def use(self, e, at, how, st):
        m = self.member(e)
        if m is None:
            x = strip(e)
            if x and x[0] == "var" and self.stack:
                v = st.env.get("L" + x[1])
                if self.userval(v):
                    self.report(v[1].replace("this->.", "").split("@")[0], at, how)
            return
        name = m[1] if m[0] == "m" else m[2]
        self.uses += 1
        if m[0] == "v":
            v = st.env.get("L" + m[1])
            if v is not None and v[0] == "s" and "own:" in v[1]:
                return
        if self.owned(name, st):
            return
        self.report(name, at, how)

    def report(self, name, at, how):
        f = self.stack[-1]
        self.bad.setdefault((f["id"], name, how), at)

    def assign(self, e, st):
        l = strip(e[2])
        if not isptr(e[5] or "") and l and (l[0] == "idx" or l[0] == "un" and l[1] == "*"):
            self.use(l[1] if l[0] == "idx" else l[2], e, "written", st)
        return super().assign(e, st)

    def on_write(self, place, e, val, st):
        if place and place.startswith("this->.") and place[7:] in self.names:
            x = strip(e[3]) if e[0] == "asg" else None
            ca = self.F.cast(e[3]) if e[0] == "asg" else None
            if ca is None and x and (x[0] == "new" or x[0] == "call" and not self.P.targets(x) and basen(x[2]) in ("get", "data", "malloc", "aligned_alloc", "calloc")):
                return st.add("set:%s:own" % place[7:])
            return st.drop(lambda f: f.startswith("set:%s:" % place[7:]))
        return st

    def write(self, p, v, st):
        if not self.keep(p):
            return st.set(p, None)
        if p.startswith("this->.") and p[7:] in self.names:
            if "set:%s:own" % p[7:] in st.must or v[0] == "s" and "own:" in v[1]:
                return super().write(p, ("s", "own:" + p), st).drop(lambda f: f.startswith("set:"))
        return super().write(p, v, st)

    def on_branch(self, e, val, taken, st):
        """m != the caller's pointer: m is a private copy"""
        x = strip(e)
        if x and x[0] == "bin" and x[1] in ("==", "!=") and taken in (True, False):
            diff = (x[1] == "!=") == taken
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                a, b = strip(a), strip(b)
                if a and a[0] == "mem" and a[2] in self.names and strip(a[1])[0] == "this" and b and b[0] == "mem" and isptr(b[4] or "") and not nonconst(b[4]):
                    if diff and not self.owned(a[2], st):
                        v = st.env.get("this->." + a[2])
                        return super().write("this->." + a[2], ("s", "own:this->." + a[2]), st)
                    if not diff and self.owned(a[2], st):
                        return None
        return st

    def on_call(self, e, ts, args, obj, st):
        if e[0] not in ("call", "ctor"):
            return None
        av = e[4] if e[0] == "call" else e[3]
        n = basen(e[2])
        if n == "rec" and ts and "da_status" in ts[0]["ret"]:
            return [(args[0] if args and args[0][0] == "c" else interp.TOP, st)]
        if e[0] == "call" and e[3] is not None and not ts:
            k = "empty:" + ir.show(strip(e[3]))
            if n == "clear" and ir.show(strip(e[3])).split(".")[-1].split("->")[-1] in self.asked:
                return [(interp.TOP, st.add(k))]
            if n == "empty" and k in st.must:
                return [(("c", 1), st)]
            if k in st.must and n not in ("size", "data", "begin", "end", "operator[]", "capacity"):
                return [(interp.TOP, self.havoc(e, av, args, st.drop(lambda f: f == k), obj, ts))]
        if e[0] == "call" and any(self.inline(t, e, args, obj, st) for t in ts) and len(self.stack) < self.MAXDEPTH and not any(f is t for f in self.stack for t in ts):
            return None
        for j, a in enumerate(av):
            if ts:
                w = any(("p", t["id"], j) in self.writes for t in ts)
            else:
                t = a_type(a)
                w = j not in READS.get(n, ()) and isptr(t) and nonconst(t) and not (e[0] == "call" and e[3] is not None) and e[0] == "call"
            if w:
                self.use(a, e, "released" if n in FREE else "handed for writing to %s" % n, st)
        return None

    def havoc(self, e, argexprs, args, st, obj=None, ts=None):
        s = super().havoc(e, argexprs, args, st, obj, ts)
        if s is not st:
            for m in list(self.names) + self.deciding:
                p = "this->." + m
                v = st.env.get(p)
                if v is None and (s.env.get(p) is not None or p in st.ref) and ts and not any(m in self.mods.get(t["id"], ()) for t in ts):
                    s = s.set(p, None)
                    if p in st.ref:
                        s = s.setref(p, st.ref[p])
                    continue
                if v is not None and s.env.get(p) != v and (not ts or not any(m in self.mods.get(t["id"], ()) for t in ts)):
                    s = s.set(p, v)
        if ts:
            mm = set()
            for t in ts:
                mm |= self.mods.get(t["id"], set())
            s = s.drop(lambda f: f.startswith("empty:") and f[6:].split(".")[-1].split("->")[-1] in mm)
        return s


def conds(f, sets, direct, P):
    """conditions around, or returning before, a call that renews a tracked member"""
    def renews(s):
        return any(e[0] == "call" and any(t["id"] in sets for t in P.targets(e)) or direct and e[0] == "new" for y in ir.walk_stmts(s) for x in ir.stmt_exprs(y) for e in ir.walk(x))

    def leaves(s):
        """returns without recording an error"""
        return any(y[0] == "ret" and y[1] is not None and strip(y[1])[0] == "enum" for y in ir.walk_stmts(s))

    if not renews(f["body"]):
        return []
    out = []
    for s in ir.walk_stmts(f["body"]):
        if s[0] == "if" and (any(renews(b) or leaves(b) for b in s[2:4] if b)):
            out.append(s[1])
    return out


def touches(P, f, names, writes):
    """does f set, compare, write through, release or hand on for writing one of the members?"""
    def has(e):
        return any(y[0] == "mem" and y[2] in names for y in ir.walk(e))

    al = set()
    for s in ir.walk_stmts(f["body"]):
        if s[0] == "decl" and s[4] is not None and isptr(s[3]) and nonconst(s[3]) and has(s[4]):
            return True
        for x in ir.stmt_exprs(s):
            for e in ir.walk(x):
                if e[0] == "asg" and has(e[2]) or e[0] == "asg" and isptr(e[5] or "") and nonconst(e[5]) and has(e[3]):
                    return True
                if e[0] == "un" and e[1] in ("++", "--", "p++", "p--") and has(e[2]) or e[0] == "del" and has(e[1]):
                    return True
                if e[0] == "bin" and e[1] in ("==", "!=") and (has(e[2]) or has(e[3])):
                    return True
                if e[0] in ("call", "ctor"):
                    ts = P.targets(e) if e[0] == "call" else [P.fns[e[1]]] if e[1] in P.fns else []
                    for j, a in enumerate(e[4] if e[0] == "call" else e[3]):
                        if has(a) and (any(("p", t["id"], j) in writes for t in ts) or not ts and j not in READS.get(basen(e[2]), ()) and isptr(a_type(a)) and nonconst(a_type(a))):
                            return True
    return False


def run(ctx):
    import checks.c13 as c13
    P, db = ctx.P, ctx.db
    ctx.rule("no write or release is reached by a pointer to the caller's input that lost its const")
    fns = [f for f in db.fns.values() if f.get("body")]
    F = Flow(P, fns)
    casts = set()
    for f in fns:
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for e in ir.walk(x):
                    if e[0] == "cast" and len(e) > 7 and e[7]:
                        casts.add((f["file"], ir.line_of(e) or e[4]))
    ctx.count("const_dropping_casts", len(casts))
    ctx.count("pointer_flows", F.edges)
    tainted = F.reach(list(F.src), ())
    mixed = {n for n in tainted if n[0] == "m" and n in F.owns and n in F.src}
    ctx.count("members_either_private_or_the_callers", len(mixed))
    back = {}
    for a, bs in F.succ.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    # what may be written
    writes = set(F.sinks)
    work = list(F.sinks)
    while work:
        n = work.pop()
        for m in back.get(n, ()):
            if m not in writes and n not in mixed:
                writes.add(m)
                work.append(m)
    for n, ss in sorted(F.src.items(), key=str):
        if n in mixed:
            continue
        pred = F.reach([n], mixed)
        ctx.count("sources_followed", len(ss))
        for m in sorted(pred, key=str):
            if m in mixed:
                continue
            for f, line, how in F.sinks.get(m, ()):
                if (how == "released") and m in F.owns:
                    continue
                sf, sl, what = ss[0]
                ctx.finding("%s|%s|%s" % (sf["b"], n[-1], f["b"]), ir.loc(f, line), "%s: memory of the caller is %s here: %s (%s)" % (f["b"], how, what, ir.loc(sf, sl)))
    # members that hold either
    fam = {}
    for m in mixed:
        fam.setdefault(m[1], set()).add(m[2])
    for cls, names in sorted(fam.items()):
        family = {cls} | {c.split("<")[0] for c in P.subclasses(cls)} | {c.split("<")[0] for c in P.supers(cls)}
        mods = c13.modsets(P, fns, family)
        mine = [f for f in fns if (f.get("cls") or "").split("<")[0] in family]
        direct = {f["id"] for f in mine if touches(P, f, names, writes)}
        calls = {}
        for f in mine:
            for s in ir.walk_stmts(f["body"]):
                for x in ir.stmt_exprs(s):
                    for e in ir.walk(x):
                        if e[0] == "call":
                            calls.setdefault(f["id"], set()).update(t["id"] for t in P.targets(e))
        rel = set(direct)
        while True:
            more = {f["id"] for f in mine if calls.get(f["id"], set()) & rel} - rel
            if not more:
                break
            rel |= more
        # helpers that decide by value (const methods of the class) help to relate paths
        help_ = {t for i in rel for t in calls.get(i, ()) if t in db.fns and (db.fns[t].get("cls") or "").split("<")[0] in family and len(list(ir.walk_stmts(db.fns[t]["body"]))) < 30}
        ids = {f["id"] for f in mine}
        called = set()
        for f in mine:
            for s in ir.walk_stmts(f["body"]):
                for x in ir.stmt_exprs(s):
                    for e in ir.walk(x):
                        if e[0] == "call" and e[3] is not None and strip(e[3])[0] == "this":
                            called |= {t["id"] for t in P.targets(e) if t["id"] != f["id"]}
        roots = [f for f in mine if f["id"] in rel and (f["id"] not in called or "v" in f["fl"]) and "K" not in f["fl"]]
        # a derived override calling its base's method enters it there
        for f in sorted(roots, key=lambda f: f["id"]):
            I = Own(P, names, family, rel | help_, mods, writes, F)
            I.dyncls = f.get("cls")
            I.run(f, interp.St({"this": ("&", "this->")}))
            ctx.count("methods_followed_path_by_path")
            ctx.count("uses_of_such_members", I.uses)
            for (i, name, how), at in sorted(I.bad.items(), key=str):
                g = db.fns[i]
                ctx.finding("%s|%s|%s" % (g["b"], name, how), ir.loc(g, ir.line_of(at)), "%s: %s may still be the caller's array when it is %s here (path from %s)" % (g["b"], name, how, f["b"]))
        ctx.sample("%s: %s" % (cls, ", ".join(sorted(names))))
