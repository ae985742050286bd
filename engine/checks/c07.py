"""A result query writes within the array the caller described.

Every function with an array of the caller and a pointer (or reference) to its length is run
with symbolic length DIM and array RES. Each access RES[i], and each bulk copy into it, must be
proved to lie below DIM: from a size N the path has compared with DIM, and from the bounds the
loops put on i (a loop variable is replaced by its bound in a polynomial over the sizes, which are
not negative). The bound of i must not be DIM itself: what is delivered does not depend on how
much longer the array is. A path that found the array too small reports a failure and leaves in
*dim the size it compared with.
"""
import re
import interp, ir, lin
from ir import strip
from interp import TOP

M = "\u2297"
DIM = "DIM0"
LOCALCOUNT = re.compile(r"^L")


def mono(x):
    return tuple(sorted(x.split(M))) if x else ()


def poly(v):
    l = lin.lin(v)
    if l is None:
        return None
    d = {mono(s): c for s, c in l[0]}
    if l[1]:
        d[()] = d.get((), 0) + l[1]
    return d


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
    return {m: c for m, c in d.items() if c}


def pmul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            t = tuple(sorted(m + n))
            d[t] = d.get(t, 0) + c * e
    return {m: c for m, c in d.items() if c}


def toval(p):
    if len(p) > 9:
        return TOP
    t = tuple(sorted((M.join(m), c) for m, c in p.items() if m))
    k = p.get((), 0)
    if not t:
        return ("c", k)
    if len(t) == 1 and t[0][1] == 1 and k == 0:
        return ("s", t[0][0])
    return ("lin", t, k)


def pshow(p):
    def one(m, c):
        s = "*".join(re.sub(r"@[^:]*", "", x).replace("this->.", "").replace("RES:", "") or x for x in m)
        return ("%d" % c if not s else s if c == 1 else "%d*%s" % (c, s))
    return " + ".join(one(m, c) for m, c in sorted(p.items())).replace("+ -", "- ") or "0"


class Query(lin.Linear):
    CAP = 6
    MAXDEPTH = 8

    def __init__(self, P, ctx, arrays):
        super().__init__(P)
        self.ctx, self.arrays, self.bad = ctx, arrays, {}
        self.nwrites = self.undecided = 0
        self.und, self._li, self._defs, self.rel2, self._lits = set(), {}, {}, set(), {}

    def report(self, key, e, msg):
        f = self.stack[-1]
        self.bad.setdefault(key, (ir.loc(f, ir.line_of(e) or f["line"]), msg))

    def bucket(self, st):
        # each query is a path of its own
        return tuple(sorted((k, r[1]) for k, r in st.ref.items() if r[0] == "eq" and "query" in k)) + (st.env.get("DIM") == ("s", DIM),)

    # ---- values ------------------------------------------------------------------------------
    def ev(self, e, st):
        if e and e[0] == "bin" and e[1] in ("+", "-", "*", "/"):
            out = []
            for (a, b), s in self.seq([e[2], e[3]], st):
                a, b = self.val(a, s), self.val(b, s)
                pa, pb = poly(a), poly(b)
                v = TOP
                if a[0] == "&" or b[0] == "&":
                    v = a if a[0] == "&" else b
                elif pa is not None and pb is not None:
                    if e[1] == "*":
                        v = toval(pmul(pa, pb))
                    elif e[1] == "/":
                        if set(pb) == {()} and all(c % pb[()] == 0 for c in pa.values()):
                            v = toval({m: c // pb[()] for m, c in pa.items()})
                        else:
                            v = ("s", "q%d(%s)" % (e[4] if len(e) > 4 and isinstance(e[4], int) else 0, repr(sorted(pa.items()))[:60].replace(M, "x")))
                    else:
                        v = toval(padd(pa, pb, 1 if e[1] == "+" else -1))
                out.append((v, s))
            return out
        if e and e[0] == "init" and len(e[1]) == 1 and len(e) > 2 and e[2] in ("int", "long", "unsigned long", "unsigned int"):
            return self.ev(e[1][0], st)
        if e and e[0] == "asg" and e[1] == "=" and id(e) in self.loopinit(self.fn()):
            out = []
            for v, s in self.ev(e[3], st):
                for p, s1 in self.place(e[2], s):
                    if p:
                        s1 = self.write(p, ("s", p + "@"), self.on_write(p, e, v, s1))
                    out.append((v, s1))
            return out
        if e and e[0] == "asg" and e[1] in ("+=", "-="):
            out = []
            for v, s in self.ev(e[3], st):
                for p, s1 in self.place(e[2], s):
                    old, w = poly(self.val(s1.env.get(p, ("s", p or "?")), s1)), poly(self.val(v, s1))
                    nv = ("s", "%s@" % p)
                    if p:
                        s1 = self.on_write(p, e, nv, s1)
                        s1 = self.write(p, nv, s1)
                    out.append((nv, s1))
            return out
        if e and e[0] == "un" and e[1] in ("++", "--", "p++", "p--") and not self.etype(e).rstrip().endswith("*"):
            q = strip(e[2])
            if q[0] == "var" and q[1] in self.loopinit(self.fn()):
                out = []
                for p, s in self.place(e[2], st):
                    v = ("s", p + "@")
                    s = self.write(p, v, self.on_write(p, e, v, s))
                    out.append((v, s))
                return out
        return super().ev(e, st)

    def loopinit(self, fn):
        """Declarations and assignments that start a counting loop: the counter is unknown."""
        r = self._li.get(fn["id"])
        if r is None:
            r = set()
            for s in ir.walk_stmts(fn["body"]):
                if s[0] == "for" and s[1]:
                    for x in ir.walk_stmts(s[1]) if isinstance(s[1][0], str) else []:
                        if x[0] == "decl":
                            r.add(x[1])
                        for y in ir.stmt_exprs(x):
                            for z in ir.walk(y):
                                if z[0] == "asg":
                                    r.add(id(z))
                for x in ir.stmt_exprs(s):
                    for z in ir.walk(x):
                        if z[0] == "un" and z[1] in ("++", "--", "p++", "p--") or z[0] == "asg" and z[1] in ("+=", "-="):
                            v = strip(z[2])
                            if v[0] == "var" and not self.etype(v).rstrip().endswith("*"):
                                r.add(v[1])
            self._li[fn["id"]] = r
        return r

    def on_decl(self, s, val, st):
        if s[1] in self.loopinit(self.stack[-1]):
            p = "L" + s[1]
            return self.write(p, ("s", p + "@"), self.on_write(p, None, val, st))
        return st

    def cmp(self, op, a, b, st):
        """A size compared with itself decides."""
        r = super().cmp(op, a, b, st)
        if r is None:
            pa, pb = poly(self.val(a, st)), poly(self.val(b, st))
            if pa is not None and pb is not None:
                d = padd(pa, pb, -1)
                if not d or set(d) == {()}:
                    k = d.get((), 0)
                    return {"<": k < 0, "<=": k <= 0, ">": k > 0, ">=": k >= 0, "==": k == 0, "!=": k != 0}[op]
        return r

    def on_write(self, place, e, val, st):
        pat = re.compile(re.escape(place) + r"(@\w*)?(?=['%s])" % M)
        st = st.drop(lambda f: place in f and pat.search(f) is not None)
        new = {k: v for k, v in st.env.items() if not (v[0] in ("s", "lin") and k != place and place in repr(v) and pat.search(repr(v)))}
        if len(new) != len(st.env):
            st = interp.St(new, st.ref, st.must, st.may)
        return st

    # ---- accesses ----------------------------------------------------------------------------
    def arr(self, v):
        """(array, offset) of a pointer into one of the caller's arrays"""
        p = poly(v) if v is not None else None
        if p is None:
            return None
        for a in self.arrays:
            if p.get((a,)) == 1:
                return a, padd(p, {(a,): 1}, -1)
        return None

    def place(self, e, st):
        e0 = e
        while e0 and e0[0] == "cast":
            e0 = e0[3]
        if e0 and e0[0] == "idx":
            out = []
            for v, s in self.ev(e0[1], st):
                v = self.val(v, s)
                a = self.arr(v)
                if a is None:
                    return super().place(e, st)
                for iv, s1 in self.ev(e0[2], s):
                    i = poly(self.val(iv, s1))
                    self.access(a[0], None if i is None else padd(a[1], i), e0, s1)
                    out.append(("%s->[]" % a[0], s1))
            return out
        if e0 and e0[0] == "un" and e0[1] == "*":
            out = []
            for v, s in self.ev(e0[2], st):
                a = self.arr(self.val(v, s))
                if a is not None:
                    self.access(a[0], a[1], e0, s)
                    out.append(("%s->[]" % a[0], s))
                else:
                    out.append((self.target(self.val(v, s)), s))
            return out
        return super().place(e, st)

    def sizes(self, st, counted=False):
        """sizes the path knows to fit: N with DIM >= N"""
        for a, c in self.facts(st):
            d = {mono(s): k for s, k in a}
            if d.get((DIM,)) == 1 and not any(DIM in m for m in d if m != (DIM,)):
                d.pop((DIM,))
                n = {m: -k for m, k in d.items()}
                if c:
                    n[()] = n.get((), 0) - c
                n = {m: k for m, k in n.items() if k}
                if counted or not any(self.counter(x) for m in n for x in m):
                    yield n

    def literals(self, fn):
        """string local -> the length of the longest literal it is given, when it is given nothing else"""
        r = {}
        for s in ir.walk_stmts(fn["body"]):
            for v, e in [(s[1], s[4])] if s[0] == "decl" and "basic_string" in s[3] else []:
                t = [len(x[1]) for x in ir.walk(e)if x[0] == "str"] if e else [0]
                r[v] = max(t) if t and not any(x[0] == "call" for x in ir.walk(e or ["null"])) else None
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call" and c[3] is not None and strip(c[3])[0] == "var" and strip(c[3])[1] in r:
                        v = strip(c[3])[1]
                        if c[2].endswith("operator=") and c[4] and strip(c[4][0])[0] == "str" and r[v] is not None:
                            r[v] = max(r[v], len(strip(c[4][0])[1]))
                        elif c[2].split("::")[-1] not in ("begin", "end", "size", "length", "c_str", "data"):
                            r[v] = None
        return r

    def ups(self, st):
        """symbol -> polynomials it is at most"""
        out = {}
        for a, c in self.facts(st):
            d = {mono(s): k for s, k in a}
            for m, k in d.items():
                if len(m) == 1 and k == -1 and not any(m[0] in n for n in d if n != m):
                    r = {n: x for n, x in d.items() if n != m}
                    if c:
                        r[()] = r.get((), 0) + c
                    if not any(DIM in n for n in r):
                        out.setdefault(m[0], []).append(r)
        for f in self.stack:
            if f["id"] not in self._lits:
                self._lits[f["id"]] = self.literals(f)
            for v, k in self._lits[f["id"]].items():
                if k is not None:
                    out.setdefault("size:L" + v, []).append({(): k} if k else {})
        for s, r in st.ref.items():
            if r[0] == "eq" and isinstance(r[1], int):
                out.setdefault(s, []).append({(): r[1]} if r[1] else {})
        return out

    def nonneg(self, p, ups, depth=6):
        if all(c >= 0 for c in p.values()):
            return True
        if depth == 0:
            return False
        negs = {x for m, c in p.items() if c < 0 for x in m}
        for x in sorted(negs):
            if x not in ups:
                continue
            co = {}
            for m, c in p.items():
                if x in m:
                    r = list(m)
                    r.remove(x)
                    co[tuple(r)] = -c
            if any(c < 0 for c in co.values()) and not any(all(c >= 0 for c in padd(co, u, -1).values()) for y, us in ups.items() if "@" in y for u in us):
                continue
            for u in ups[x]:
                q = {}
                for m, c in p.items():
                    if x in m:
                        r = list(m)
                        r.remove(x)
                        q = padd(q, pmul({tuple(r): c}, u))
                    else:
                        q = padd(q, {m: c})
                if self.nonneg(q, ups, depth - 1):
                    return True
        return False

    def classdefs(self):
        """member (or size:member) -> the polynomials its class gives it, over members by name"""
        cls = self.dyncls or (self.stack[0].get("cls") if self.stack else None)
        if cls in self._defs:
            return self._defs[cls]
        out = {}
        own = {cls} | set(self.P.supers(cls)) if cls else set()
        for f in self.P.fns.values() if cls else ():
            if f.get("cls") not in own or not f.get("body"):
                continue
            for s in ir.walk_stmts(f["body"]):
                for x in ir.stmt_exprs(s):
                    for e in ir.walk(x):
                        t = src = None
                        if e[0] == "asg" and e[1] == "=":
                            l = strip(e[2])
                            if l[0] == "mem" and strip(l[1])[0] == "this":
                                t, src = "this->." + l[2], e[3]
                        elif e[0] == "call" and e[3] is not None and e[2].endswith("::resize") and e[4]:
                            l = strip(e[3])
                            if l[0] == "mem" and strip(l[1])[0] == "this":
                                t, src = "size:this->." + l[2], e[4][0]
                        if t:
                            for c in self.alts(src):
                                p = self.byname(c)
                                if p and p not in out.setdefault(t, []) and set(p) != {()}:
                                    out[t].append(p)
        self._defs[cls] = out
        return out

    def alts(self, e):
        e = strip(e)
        return self.alts(e[2]) + self.alts(e[3]) if e[0] == "cond" else [e]

    def byname(self, e):
        e = strip(e)
        if e[0] == "int":
            return {(): e[1]} if e[1] else {}
        if e[0] == "mem" and strip(e[1])[0] == "this":
            return {("this->." + e[2],): 1}
        if e[0] == "var":
            return {("this->." + e[2],): 1}
        if e[0] == "bin" and e[1] in "+-*":
            a, b = self.byname(e[2]), self.byname(e[3])
            if a is None or b is None:
                return None
            return pmul(a, b) if e[1] == "*" else padd(a, b, 1 if e[1] == "+" else -1)
        return None

    def subst(self, p, x, q):
        r = {}
        for m, c in p.items():
            k = m.count(x)
            t = {tuple(y for y in m if y != x): c}
            for _ in range(k):
                t = pmul(t, q)
            r = padd(r, t)
        return r

    def fits(self, idx, ns, ups, defs, depth):
        for n in ns:
            if self.nonneg(padd(padd(n, idx, -1), {(): 1}, -1), ups):
                return True
        if depth:
            for x in sorted({x for p in [idx] + ns for m in p for x in m}):
                for q in defs.get(x, ()):
                    if any(x in m for m in q):
                        continue
                    u = {k: [self.subst(p, x, q) for p in v] for k, v in ups.items()}
                    if self.fits(self.subst(idx, x, q), [self.subst(n, x, q) for n in ns], u, defs, depth - 1):
                        return True
        return False

    def counter(self, sym):
        """a local that is stepped or accumulated as the results are delivered"""
        return sym.startswith("L") and "@" in sym

    def access(self, arr, idx, e, st, what="accesses element"):
        self.nwrites += 1
        ups = self.ups(st)
        ns = list(self.sizes(st))
        f = self.stack[-1]
        if idx is not None and ns:
            if self.fits(idx, ns, ups, {}, 0):
                return
            if self.fits(idx, ns, ups, self.classdefs(), 2):
                self.rel2.add((f["b"], ir.line_of(e)))
                return
        if idx is not None and any(set(n) != {()} for n in self.sizes(st, True) if n):
            free = {x for m in idx for x in m if x not in ups}
            if any(self.counter(x) for x in free) or any(x.startswith("size:this->.") and x not in self.classdefs() for x in free):
                # positions counted as results are delivered: bounded by data, not by sizes
                self.und.add((f["b"], ir.line_of(e)))
                return
        self.report("%s|%s" % (f["b"], pshow(idx) if idx is not None else "?"), e, "%s: %s %s of the caller's array, which is not known to lie within the %s" % (f["b"], what, pshow(idx) if idx is not None else "at a position that could not be followed", "size that was compared with its length" if ns else "array: its length has not been compared with anything"))

    # ---- calls -------------------------------------------------------------------------------
    def inline(self, fn, call, args, obj, st):
        if fn["b"].startswith(("da_errors::", "std::")):
            return False
        for v in args:
            if self.arr(self.val(v, st)) or v in (("ref", "DIM"), ("&", "DIM")):
                return True
        return obj == ("&", "this->") and False

    def on_call(self, e, targets, args, obj, st):
        n = e[2].split("::")[-1] if e[0] in ("call", "ctor") else "?"
        if e[0] != "call":
            return None
        if e[2].startswith("da_errors::") and "da_status" in e[6]:
            return [(("c", 1), st)]
        if obj is not None and obj[0] == "&":
            if n in ("size", "length"):
                return [(("s", "size:" + obj[1]), st)]
            if n in ("begin", "cbegin", "data"):
                return [(("s", "begin:" + obj[1]), st)]
            if n in ("end", "cend"):
                return [(toval({("begin:" + obj[1],): 1, ("size:" + obj[1],): 1}), st)]
        vals = [st.env.get(v[1], ("s", v[1])) if v and v[0] in ("ref", "lv") and v[1] not in ("DIM",) else v for v in args]
        vals = [self.val(v, st) for v in vals]
        if n in ("min", "max") and len(vals) == 2:
            if args[0] == ("ref", "DIM"):
                vals[0] = st.env.get("DIM")
            if args[1] == ("ref", "DIM"):
                vals[1] = st.env.get("DIM")
            pa, pb = poly(vals[0]), poly(vals[1])
            s = "m%s" % self.sym(e)
            if pa is not None and pb is not None:
                st = self.on_write(s, e, TOP, st)
                for x in (vals[0], vals[1]):
                    st = self.rel("<=" if n == "min" else ">=", ("s", s), x, st)
                return [(("s", s), st)]
        hit = [i for i, v in enumerate(vals) if self.arr(v)]
        if not hit:
            return None
        arr, off = self.arr(vals[hit[-1]])
        if n in ("copy",) and len(vals) == 3 and hit == [2]:
            a, b = poly(vals[0]), poly(vals[1])
            ln = padd(b, a, -1) if a is not None and b is not None else None
            self.span(arr, off, ln, e, st)
            return [(vals[2], st)]
        if n in ("copy_n", "fill_n") and hit[-1] == (2 if n == "copy_n" else 0):
            self.span(arr, off, poly(vals[1]), e, st)
            return [(vals[2], st)]
        if n in ("memcpy", "memmove") and hit == [0]:
            ln = poly(vals[2])
            sz = 4 if "float" in repr(self.etype(e[4][0])) else None
            if ln is not None:
                k = [c for c in ln.values()]
                ok = all(c % 4 == 0 for c in k)
                w = min((c for c in k), default=1)
                t = self.fn()["params"]
                unit = self.unit
                ln = {m: c // unit for m, c in ln.items()} if all(c % unit == 0 for c in k) else None
            self.span(arr, off, ln, e, st)
            return [(vals[0], st)]
        if n == "omatcopy":
            # (order?, trans, rows, cols, alpha, A, lda, B, ldb)
            i = hit[-1]
            r, c = poly(vals[i - 5]), poly(vals[i - 4])
            self.span(arr, off, pmul(r, c) if r is not None and c is not None else None, e, st)
            return [(TOP, st)]
        if not targets or all(t["b"].startswith("std::") for t in targets):
            self.report("%s|%s" % (self.stack[-1]["b"], n), e, "%s: hands the caller's array to %s, whose extent is not known" % (self.stack[-1]["b"], n))
            return [(TOP, st)]
        return None

    def span(self, arr, off, ln, e, st):
        self.access(arr, None if ln is None else padd(padd(off, ln), {(): 1}, -1), e, st, "copies up to position")


def lossy(I, v, s):
    v = I.val(v, s)
    return v[0] == "c" and v[1] != 0 or I.truth(v, s) is True


def analyse(ctx, f, dimp, arrps):
    P = ctx.P
    arrays = ["RES:" + p[1] for p in arrps]
    I = Query(P, ctx, arrays)
    I.unit = 4 if "float" in arrps[0][2] else 1 if "char" in arrps[0][2] else 8
    if "da_int" in arrps[0][2] or arrps[0][2].startswith("int"):
        I.unit = 4
    st = interp.St({"DIM": ("s", DIM)})
    st = st.set("L" + dimp[0], ("ref", "DIM") if dimp[2].rstrip().endswith("&") else ("&", "DIM"))
    for a, p in zip(arrays, arrps):
        st = st.set("L" + p[0], ("s", a))
    I.dyncls = f.get("cls")
    outs = I.run(f, st)
    ctx.count("paths", len(outs))
    ctx.count("array_accesses", I.nwrites)
    for b, l in sorted(I.und):
        ctx.count("positions_counted_at_run_time")
    for b, l in sorted(I.rel2):
        ctx.count("positions_within_a_size_the_class_keeps")
    for k, (w, m) in sorted(I.bad.items()):
        ctx.finding(k, w, m)
    # too small: failure, and the needed size
    short = 0
    for v, s in outs:
        need = []
        for a, c in I.facts(s):
            d = {mono(x): k for x, k in a}
            if d.get((DIM,)) == -1:
                d.pop((DIM,))
                d[()] = d.get((), 0) + c + 1
                need.append({m: k for m, k in d.items() if k})
        need = [n for n in need if n and not (set(n) == {()} and n[()] <= 1)]
        tested = [n for n in need if not any(I.counter(x) for m in n for x in m)]
        if not tested:
            continue
        # only a test DIM < N is a size test; DIM <= N - ... with a matching lower bound is an equality
        fits = list(I.sizes(s))
        tested = [n for n in tested if n not in fits and padd(n, {(): 1}, -1) not in fits]
        if not tested:
            continue
        short += 1
        ctx.count("short_array_paths")
        if not lossy(I, v, s) and v != TOP:
            ctx.finding("%s|short" % f["b"], ir.loc(f, f["line"]), "%s: reports success on a path that found the array too small" % f["b"])
        left = poly(I.val(s.env.get("DIM", TOP), s))
        if left is None or left not in tested:
            ctx.finding("%s|size|%s" % (f["b"], pshow(tested[0])), ir.loc(f, f["line"]), "%s: having found the array shorter than %s it leaves %s in the length" % (f["b"], pshow(tested[0]), "its old value" if left == {(DIM,): 1} else pshow(left) if left is not None else "something else"))
    return I, short


def run(ctx):
    P, db = ctx.P, ctx.db
    ctx.rule("every access to the caller's array lies below a size the path compared with its length")
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f["id"]):
        if not f.get("body") or "_Float16" in f["id"] or any("_Float16" in p[2] for p in f["params"]):
            continue
        b = f["b"].split("::")[-1]
        ps = {p[1]: p for p in f["params"]}
        if b == "get_result" and "dim" in ps and "result" in ps:
            t = (ps["dim"], [ps["result"]])
        elif b == "da_nn_classes" or b == "nn_classes":
            t = (ps["n_classes"], [ps["classes"]]) if b == "nn_classes" else None
        elif b == "da_get_arch_info":
            t = (ps["len"], [ps["arch"], ps["ns"]])
        elif b == "da_get_int_info":
            t = (ps["len"], [ps["int_type"]])
        else:
            continue
        if t is None:
            continue
        n += 1
        ctx.count("queries")
        analyse(ctx, f, *t)
    ctx.require(n >= 40, "result queries")
