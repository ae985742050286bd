"""A small path-sensitive abstract interpreter over the extracted facts.

Abstract values   ("c", n)          integer / enumerator / boolean / null constant
                  ("s", name)       the unknown initial content of a place or result of a call
                  ("&", place)      address of a place (never null)
                  ("cmp", op, a, b) truth value of a comparison
                  ("not", v)
Places are access paths. No values are computed beyond constants and no solver is used: a
branch only records which constants an unknown is (not) equal to. When a program point
collects more than CAP states they are merged (facts kept only when they hold in all).
"""
import ir
from ir import strip, const_int

TOP = ("s", "?")
NULL = ("c", 0)


class St:
    __slots__ = ("env", "ref", "must", "may", "_h")

    def __init__(self, env=None, ref=None, must=frozenset(), may=frozenset()):
        self.env = env or {}
        self.ref = ref or {}
        self.must, self.may = must, may
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()), frozenset(self.ref.items()), self.must, self.may)
        return self._h

    def set(self, pl, v):
        if self.env.get(pl) == v:
            return self
        e = dict(self.env)
        if v is None:
            e.pop(pl, None)
        else:
            e[pl] = v
        return St(e, self.ref, self.must, self.may)

    def dropprefix(self, pres):
        if not any(k.startswith(p) for k in self.env for p in pres):
            return self
        return St({k: v for k, v in self.env.items() if not any(k.startswith(p) for p in pres)}, self.ref, self.must, self.may)

    def setref(self, sym, c):
        r = dict(self.ref)
        r[sym] = c
        return St(self.env, r, self.must, self.may)

    def add(self, *facts):
        n = self.must.union(facts)
        if n == self.must and self.may.issuperset(facts):
            return self
        return St(self.env, self.ref, n, self.may.union(facts))

    def addmay(self, *facts):
        if self.may.issuperset(facts):
            return self
        return St(self.env, self.ref, self.must, self.may.union(facts))

    def drop(self, pred):
        n = frozenset(x for x in self.must if not pred(x))
        m = frozenset(x for x in self.may if not pred(x))
        if n == self.must and m == self.may:
            return self
        return St(self.env, self.ref, n, m)


def _res(v, st):
    if v is not None and v[0] == "s":
        r = st.ref.get(v[1])
        if r and r[0] == "eq":
            return ("c", r[1])
    return v


def join(a, b):
    env = {}
    for k, v in a.env.items():
        w = b.env.get(k)
        if w == v:
            env[k] = v
        elif w is not None:
            v = _res(v, a)
            if v == _res(w, b):
                env[k] = v
        elif v[0] != "ref" and _res(("s", k), b) == _res(v, a):
            env[k] = _res(v, a)
    for k, w in b.env.items():
        if k not in a.env and w[0] != "ref" and _res(("s", k), a) == _res(w, b):
            env[k] = _res(w, b)
    ref = {k: v for k, v in a.ref.items() if b.ref.get(k) == v}
    return St(env, ref, a.must & b.must, a.may | b.may)


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


class Interp:
    CAP = 80
    MAXDEPTH = 6
    dyncls = None  # dynamic class of the object under analysis, when known

    def __init__(self, prog):
        self.P = prog
        self.stack = []
        self.stmts = 0
        self._vids = {}

    # ---- client hooks ------------------------------------------------------------------
    def inline(self, fn, call, args, obj, st):
        return False

    def on_call(self, e, targets, args, obj, st):
        return None

    def on_deref(self, val, e, st, write):
        return st

    def on_read(self, place, e, st):
        return st

    def on_write(self, place, e, val, st):
        return st

    def on_branch(self, e, val, taken, st):
        return st

    def throws(self, e):
        """may evaluating e raise an exception? (asked inside try blocks only)"""
        return True

    def on_decl(self, s, val, st):
        return st

    def on_omp(self, node, begin, st):
        return st

    def on_exit(self, fn, node, val, st):
        return st

    def bucket(self, st):
        """States that may be merged when a program point collects too many of them."""
        return None

    def pure(self, e):
        """Calls that leave tracked state alone."""
        return False

    # ---- values -------------------------------------------------------------------------
    def fn(self):
        return self.stack[-1]

    def val(self, v, st):
        """Resolve a symbol through its refinements."""
        if v[0] == "s":
            r = st.ref.get(v[1])
            if r and r[0] == "eq":
                return ("c", r[1])
        return v

    def truth(self, v, st):
        v = self.val(v, st)
        k = v[0]
        if k == "c":
            return v[1] != 0
        if k == "&":
            return True
        if k == "s":
            r = st.ref.get(v[1])
            if r and r[0] == "ne" and 0 in r[1]:
                return True
            return None
        if k == "not":
            t = self.truth(v[1], st)
            return None if t is None else not t
        if k == "cmp":
            return self.cmp(v[1], v[2], v[3], st)
        return None

    def cmp(self, op, a, b, st):
        a, b = self.val(a, st), self.val(b, st)
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
            except TypeError:
                return None
        if b[0] != "c" and a[0] == "c":
            a, b, op = b, a, SWAP[op]
        if b[0] == "c":
            if a[0] == "s":
                r = st.ref.get(a[1])
                if r and r[0] == "ne" and b[1] in r[1] and op in ("==", "!="):
                    return op == "!="
            if a[0] == "&" and b[1] == 0 and op in ("==", "!="):
                return op == "!="
            if a[0] in ("cmp", "not") and op in ("==", "!="):
                t = self.truth(a, st)
                if t is not None:
                    return (int(t) == b[1]) == (op == "==")
            return None
        if a == b and a != TOP and a[0] in ("s", "&"):
            return op in ("==", "<=", ">=")
        return None

    def refine(self, v, want, st):
        """State on the branch where v is true (want) / false; None if impossible."""
        t = self.truth(v, st)
        if t is not None:
            return st if t == want else None
        k = v[0]
        if k == "not":
            return self.refine(v[1], not want, st)
        if k == "s":
            if v == TOP:
                return st
            return self.rsym(v[1], "!=" if want else "==", 0, st)
        if k == "cmp":
            op = v[1] if want else NEG[v[1]]
            a, b = self.val(v[2], st), self.val(v[3], st)
            if a[0] == "c":
                a, b, op = b, a, SWAP[op]
            if b[0] == "c":
                if a[0] == "s" and a != TOP:
                    return self.rsym(a[1], op, b[1], st)
                if a[0] in ("cmp", "not") and op in ("==", "!="):
                    return self.refine(a, (b[1] != 0) == (op == "=="), st)
            st = self.rel(op, a, b, st)
            return st
        return st

    def rel(self, op, a, b, st):
        return st

    def rsym(self, sym, op, n, st):
        r = st.ref.get(sym)
        if op == "==":
            if r and r[0] == "ne" and n in r[1]:
                return None
            return st.setref(sym, ("eq", n))
        if op == "!=" or (op in ("<", ">")):
            ns = frozenset([n]) | (r[1] if r and r[0] == "ne" else frozenset())
            return st.setref(sym, ("ne", ns))
        return st

    # ---- places --------------------------------------------------------------------------
    def place(self, e, st):
        """Yields (place or None, state)."""
        e0 = e
        while e and e[0] == "cast":
            e = e[3]
        if not e:
            return [(None, st)]
        k = e[0]
        if k == "var":
            p = ("G" if e[4] in ("g", "s") else "L") + e[1]
            b = st.env.get(p)
            if b is not None and b[0] == "ref":
                return [(b[1], st)]
            return [(p, st)]
        if k == "this":
            b = st.env.get("this")
            if b is not None and b[0] == "&":
                return [(b[1], st)]
            return [("this->", st)]
        if k == "mem":
            base = e[1]
            bt = self.etype(base)
            if base[0] == "this":
                return [(p + "." + e[2], s) for p, s in self.place(base, st)]
            isptr = bt.rstrip().endswith("*") or bt.rstrip().endswith("*const")
            if isptr:
                out = []
                for v, s in self.ev(base, st):
                    s = self.on_deref(v, e, s, False)
                    if s is None:
                        continue
                    out.append((self.target(v) + "." + e[2], s))
                return out
            return [((p + "." + e[2]) if p else None, s) for p, s in self.place(base, st)]
        if k == "un" and e[1] == "*":
            out = []
            for v, s in self.ev(e[2], st):
                s = self.on_deref(v, e, s, False)
                if s is not None:
                    out.append((self.target(v), s))
            return out
        if k == "idx":
            out = []
            for v, s in self.ev(e[1], st):
                for iv, s1 in self.ev(e[2], s):
                    if s1 is None:
                        continue
                    s1 = self.on_deref(v, e, s1, False)
                    if s1 is None:
                        continue
                    t = self.target(v)
                    out.append((t + "[%s]" % (iv[1] if iv[0] == "c" else ""), s1))
            return out
        if k == "cond":
            out = []
            for c, s in self.ev(e[1], st):
                for w, sub in ((True, e[2]), (False, e[3])):
                    s2 = self.refine(c, w, s)
                    if s2 is not None:
                        out += self.place(sub, s2)
            return out
        if k == "asg":
            return [(p, s) for _, s0 in self.ev(e, st) for p, s in self.place(e[2], s0)]
        if k == "call" and e[3] is not None and (e[2].endswith("operator*") or e[2].endswith("operator->")):
            return [((p + ".*") if p else None, s) for p, s in self.place(e[3], st)]
        if k in ("call", "icall"):
            out = []
            for v, s in (self.call(e, st) if k == "call" else self.ev(e, st)):
                if v[0] == "lv":
                    out.append((v[1], s))
                elif (e[6] if k == "call" else e[5]).rstrip().endswith("&") and v[0] == "s":
                    out.append(("T" + v[1], s))
                else:
                    out.append(("T" + self.sym(e), s))
            return out
        return [(None, s) for _, s in self.ev(e, st)]

    def target(self, v):
        if v[0] == "&":
            return v[1]
        if v[0] == "s":
            return v[1] + "->"
        return "?->"

    def etype(self, e):
        e0 = e
        while e and e[0] == "cast":
            return e[2]
        k = e[0]
        if k == "var":
            return e[3]
        if k == "mem":
            return e[4]
        if k == "call":
            if e[2].endswith("operator->"):
                return e[6] if e[6].endswith("*") else "*"
            return e[6]
        if k == "icall":
            return e[5]
        if k == "this":
            return "*"
        if k == "un":
            return e[4] if len(e) > 4 else ""
        if k == "idx":
            return e[4] if len(e) > 4 else ""
        if k == "cond":
            return e[5] if len(e) > 5 else ""
        if k in ("bin", "asg"):
            return e[5]
        if k == "new":
            return e[1] + " *"
        return ""

    def sym(self, e):
        return "r:%s:%s:%s" % (len(self.stack) and self.stack[-1]["id"][-40:], ir.line_of(e), (e[2] if e[0] in ("call", "ctor") else ir.show(e[1]))[-40:])

    # ---- expressions -------------------------------------------------------------------------
    def seq(self, es, st):
        """Evaluate a list left to right: yields ([values], state)."""
        acc = [([], st)]
        for e in es:
            nxt = []
            for vs, s in acc:
                for v, s1 in self.ev(e, s):
                    if s1 is not None:
                        nxt.append((vs + [v], s1))
            if len(nxt) > 40:
                nxt = self.dedupe(nxt)
            acc = nxt
        return acc

    def dedupe(self, outs):
        seen, r = set(), []
        for v, s in outs:
            k = (tuple(v) if isinstance(v, list) else v, s.key())
            if k not in seen:
                seen.add(k)
                r.append((v, s))
        if len(r) > 64:
            # merge the states of equal values
            by = {}
            for v, s in r:
                k = (tuple(v) if isinstance(v, list) else v, self.bucket(s))
                by[k] = (v, join(by[k][1], s)) if k in by else (v, s)
            r = list(by.values())
        return r

    def ev(self, e, st):
        if e is None:
            return [(TOP, st)]
        k = e[0]
        if k in ("int", "enum", "bool"):
            n = e[2] if k == "enum" else e[1]
            return [(("c", int(n) if isinstance(n, bool) else n), st)]
        if k == "null":
            return [(NULL, st)]
        if k == "flt":
            return [(("c", e[1]), st)]
        if k == "str":
            return [(("&", "str"), st)]
        if k == "fn":
            return [(("&", "fn:" + e[1]), st)]
        if k == "cast":
            if e[1] == "Dynamic":
                return [(self.dyn(v, e, s), s) for v, s in self.ev(e[3], st)]
            return self.ev(e[3], st)
        if k == "var":
            p = ("G" if e[4] in ("g", "s") else "L") + e[1]
            v = st.env.get(p)
            if v is not None and v[0] == "ref":
                p = v[1]
                v = st.env.get(p)
            st = self.on_read(p, e, st)
            if v is not None:
                return [(v, st)]
            if "[" in e[3]:
                return [(("&", p), st)]
            return [(("s", p), st)]
        if k == "this":
            b = st.env.get("this")
            return [(b if b is not None else ("&", "this->"), st)]
        if k in ("mem", "idx") or (k == "un" and e[1] == "*"):
            out = []
            for p, s in self.place(e, st):
                if p is None:
                    out.append((TOP, s))
                    continue
                s = self.on_read(p, e, s)
                v = s.env.get(p)
                if v is not None and v[0] == "ref":
                    v = s.env.get(v[1], ("s", v[1]))
                if v is None:
                    v = ("s", p) if "[]" not in p else TOP
                out.append((v, s))
            return out
        if k == "un":
            op = e[1]
            if op == "&":
                return [((("&", p) if p else ("&", "?")), s) for p, s in self.place(e[2], st)]
            if op == "!":
                return [(self.neg(v, s), s) for v, s in self.ev(e[2], st)]
            if op == "-":
                return [((("c", -v[1]) if v[0] == "c" and isinstance(v[1], (int, float)) else TOP), s) for v, s in self.ev(e[2], st)]
            if op in ("++", "--", "p++", "p--"):
                out = []
                for p, s in self.place(e[2], st):
                    if p:
                        old = s.env.get(p, ("s", p))
                        s = self.on_write(p, e, TOP, s)
                        old = self.val(old, s)
                        nv = ("c", old[1] + (1 if "+" in op else -1)) if old[0] == "c" and isinstance(old[1], int) and -4 < old[1] < 4 else ("s", p + "@%s" % ir.line_of(e))
                        s = self.write(p, nv, s)
                        out.append((nv if op[0] != "p" else old, s))
                    else:
                        out.append((TOP, s))
                return out
            return [(TOP, s) for _, s in self.ev(e[2], st)]
        if k == "bin":
            op = e[1]
            if op in NEG:
                out = []
                for (a, b), s in self.seq([e[2], e[3]], st):
                    t = self.cmp(op, a, b, s)
                    if t is not None:
                        out.append((("c", int(t)), s))
                    elif self.scalarish(a) and self.scalarish(b):
                        out.append((("cmp", op, a, b), s))
                    else:
                        out.append((TOP, s))
                return out
            if op in ("&&", "||"):
                out = []
                for a, s in self.ev(e[2], st):
                    s1 = self.refine(a, op == "&&", s)
                    s2 = self.refine(a, op != "&&", s)
                    if s2 is not None:
                        out.append((("c", int(op == "||")), s2))
                    if s1 is not None:
                        out += [(b, s3) for b, s3 in self.ev(e[3], s1)]
                return out
            if op == ",":
                return [(vs[1], s) for vs, s in self.seq([e[2], e[3]], st)]
            out = []
            for (a, b), s in self.seq([e[2], e[3]], st):
                a, b = self.val(a, s), self.val(b, s)
                v = TOP
                if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
                    x, y = a[1], b[1]
                    if op in ("+", "-", "*", "&", "|") and abs(x) < 1 << 40 and abs(y) < 1 << 40:
                        v = ("c", {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y}[op])
                elif op in ("+", "-") and self.etype(e).rstrip().endswith("*"):
                    # pointer arithmetic stays within the object
                    v = a if a[0] in ("s", "&") else b
                elif op in ("|", "&") and "c" in (a[0], b[0]) and 0 in (a[1], b[1]):
                    o = b if a == ("c", 0) else a
                    v = o if op == "|" else ("c", 0)
                out.append((v, s))
            return out
        if k == "asg":
            return self.assign(e, st)
        if k == "cond":
            out = []
            for c, s in self.ev(e[1], st):
                for w, sub in ((True, e[2]), (False, e[3])):
                    s2 = self.refine(c, w, s)
                    if s2 is not None:
                        s2 = self.on_branch(e[1], c, w, s2)
                    if s2 is not None:
                        out += self.ev(sub, s2)
            return out
        if k == "call":
            return [(self.rv(v, s), s) for v, s in self.call(e, st)]
        if k == "icall":
            f0 = strip(e[1])
            es = [e[1]] + ([e[2]] if e[2] else []) + e[3]
            out = []
            for vs, s in self.seq(es, st):
                r = self.on_call(e, self.P.targets(e), vs[1:], None, s)
                if r is not None:
                    out += r
                    continue
                out.append((("s", self.sym(e)), self.havoc(e, e[3], vs[-len(e[3]):] if e[3] else [], s)))
            return out
        if k == "ctor":
            out = []
            for vs, s in self.seq(e[3], st):
                r = self.on_call(e, self.P.targets(e), vs, None, s)
                if r is not None:
                    out += r
                    continue
                out.append((("s", self.sym(e)), self.havoc(e, e[3], vs, s)))
            return out
        if k == "new":
            out = []
            for vs, s in self.seq([x for x in (e[3], e[4]) if x], st):
                out.append((("&", "new:%s:%s" % (self.stack[-1]["id"][-40:], ir.line_of(e))) if not e[5] else ("s", "newnt:%s:%s" % (self.stack[-1]["id"][-40:], ir.line_of(e))), s))
            return out
        if k == "stmtexpr":
            return [(TOP, st)]
        if k == "lam":
            return [(("&", e[1]), st)]
        if k == "del":
            return [(TOP, s) for _, s in self.ev(e[1], st)]
        out = [(TOP, s) for _, s in self.seq(ir.kids(e), st)]
        return out

    def rv(self, v, st):
        if v[0] in ("lv", "ref"):
            return st.env.get(v[1], ("s", v[1]))
        return v

    def scalarish(self, v):
        return v[0] in ("c", "s", "&", "cmp", "not") and v != TOP

    def dyn(self, v, e, st):
        return ("s", "dyn:%s:%s" % (v[1] if len(v) > 1 else "", e[2]))

    def neg(self, v, st):
        t = self.truth(v, st)
        if t is not None:
            return ("c", int(not t))
        if v[0] == "cmp":
            return ("cmp", NEG[v[1]], v[2], v[3])
        if v[0] == "not":
            return v[1]
        return ("not", v) if v != TOP else TOP

    def write(self, p, v, st):
        st = st.dropprefix((p + ".", p + "[", p + "->"))
        if "[]" in p or p.startswith("?"):
            return st
        if v == TOP:
            v = ("s", p + "@w")
            st = St(st.env, {k: x for k, x in st.ref.items() if k != v[1]}, st.must, st.may) if v[1] in st.ref else st
        return st.set(p, v)

    def assign(self, e, st):
        out = []
        op = e[1]
        for v, s in self.ev(e[3], st):
            if s is None:
                continue
            for p, s1 in self.place(e[2], s):
                nv = v
                if op != "=":
                    old = self.val(s1.env.get(p, ("s", p or "?")), s1)
                    w = self.val(v, s1)
                    nv = TOP
                    if old[0] == "c" and w[0] == "c" and isinstance(old[1], int) and isinstance(w[1], int) and op in ("|=", "&="):
                        nv = ("c", old[1] | w[1] if op == "|=" else old[1] & w[1])
                    elif op in ("+=", "-=") and self.etype(e).rstrip().endswith("*"):
                        nv = old
                    elif op == "|=" and old == ("c", 0):
                        nv = w
                if p:
                    s1 = self.on_write(p, e, nv, s1)
                    if s1 is None:
                        continue
                    s1 = self.write(p, nv, s1)
                out.append((nv, s1))
        return out

    def vids(self, fn):
        r = self._vids.get(fn["id"])
        if r is None:
            r = [p[0] for p in fn["params"]]
            for s in ir.walk_stmts(fn["body"]):
                if s[0] == "decl":
                    r.append(s[1])
            r = self._vids[fn["id"]] = tuple("L" + x for x in r)
        return r

    def call(self, e, st):
        out = []
        P = self.P
        ts = P.targets(e, self.dyncls) if self.dyncls and e[3] is not None and strip(e[3])[0] == "this" else P.targets(e)
        ol = [e[3]] if e[3] is not None else []
        pre = []
        if ol:
            t = self.etype(e[3])
            if t.rstrip().endswith("*") or e[3][0] == "this":
                for v, s in self.ev(e[3], st):
                    if e[3][0] != "this":
                        s = self.on_deref(v, e, s, False)
                    if s is not None:
                        pre.append((v, s))
            else:
                for p, s in self.place(e[3], st):
                    pre.append((("&", p) if p else TOP, s))
        else:
            pre = [(None, st)]
        # by-reference parameters are bound to places
        refp = [False] * len(e[4])
        ptypes = None
        if ts:
            ptypes = [p[2] for p in ts[0]["params"]]
            for i in range(min(len(e[4]), len(ptypes))):
                refp[i] = ptypes[i].rstrip().endswith("&")
        acc = [([o], s) for o, s in pre]
        for i, a in enumerate(e[4]):
            nxt = []
            for vs, s in acc:
                if refp[i] and self.isplace(a):
                    for p, s1 in self.place(a, s):
                        nxt.append((vs + [("ref", p) if p else TOP], s1))
                else:
                    for v, s1 in self.ev(a, s):
                        if s1 is not None:
                            nxt.append((vs + [v], s1))
            if len(nxt) > 40:
                nxt = self.dedupe(nxt)
            acc = nxt
        for vs, s in acc:
            obj, args = vs[0], vs[1:]
            r = self.on_call(e, ts, args, obj, s)
            if r is not None:
                out += r
                continue
            done = False
            if e[1].startswith("lambda@") and ts and not any(f is ts[0] for f in self.stack):
                out += self.enter(ts[0], args, None, s, lam=True)
                continue
            inl = [t for t in ts if len(self.stack) < self.MAXDEPTH and not any(f is t for f in self.stack) and self.inline(t, e, args, obj, s)]
            if inl and len(inl) == len(ts):
                for t in inl:
                    out += self.enter(t, args, obj, s)
                continue
            out.append((("s", self.sym(e)), self.havoc(e, e[4], args, s, obj, ts)))
        return self.dedupe(out) if len(out) > 8 else out

    def isplace(self, a):
        while a and a[0] == "cast":
            a = a[3]
        return bool(a) and (a[0] in ("var", "mem", "idx") or (a[0] == "un" and a[1] == "*"))

    def enter(self, fn, args, obj, st, lam=False):
        saved_this = st.env.get("this")
        s = st
        if not lam and obj is not None:
            s = s.set("this", obj if obj[0] in ("&", "s") else ("&", "?"))
            if obj[0] == "s":
                s = s.set("this", ("&", obj[1] + "->"))
        for i, p in enumerate(fn["params"]):
            if i < len(args):
                s = s.dropprefix(("L" + p[0] + ".", "L" + p[0] + "["))
                s = s.set("L" + p[0], args[i] if args[i] != TOP else ("s", "L" + p[0] + "@arg"))
        outs = self.run(fn, s)
        res = []
        vids = self.vids(fn)
        for v, s2 in outs:
            if v[0] == "ref":
                v = ("lv", v[1])
            if v[0] == "s":
                v = self.val(v, s2)
            e = {k: x for k, x in s2.env.items() if not k.startswith(vids)}
            if saved_this is None:
                e.pop("this", None)
            else:
                e["this"] = saved_this
            res.append((v, St(e, s2.ref, s2.must, s2.may)))
        return self.dedupe(res)

    def havoc(self, e, argexprs, args, st, obj=None, ts=None):
        """Forget what an unanalysed call may have changed."""
        if self.pure(e):
            return st
        pre = []
        for i, v in enumerate(args):
            t = None
            if ts and i < len(ts[0]["params"]):
                t = ts[0]["params"][i][2]
            elif i < len(argexprs) and argexprs[i]:
                t = self.etype(argexprs[i])
            if v and v[0] in ("ref", "&", "lv") and not (t and t.startswith("const ")):
                pre.append(v[1])
            elif v and v[0] == "s" and t and "*" in t and not t.startswith("const "):
                pre.append(v[1] + "->")
        if obj is not None and obj[0] in ("&", "s"):
            const = bool(ts) and all("c" in t["fl"] for t in ts)
            if not const:
                pre.append(obj[1] if obj[0] == "&" else obj[1] + "->")
        if not pre:
            return st
        tag = "@%s" % ir.line_of(e)
        env = {}
        ch = False
        for k, v in st.env.items():
            if k != "this" and v[0] != "ref" and any(k == p or (k.startswith(p) and k[len(p):len(p) + 1] in (".", "[", "-", "")) or (p.endswith("->") and k.startswith(p)) for p in pre):
                ch = True
                env[k] = ("s", k + tag)
            else:
                env[k] = v
        for p in pre:
            if p not in env and not p.endswith("->") and "[]" not in p:
                env[p] = ("s", p + tag)
                ch = True
        # places not in the environment are their own initial symbol: refinements about them go too
        ref = {k: v for k, v in st.ref.items() if not any(k == p or (k.startswith(p) and k[len(p):len(p) + 1] in (".", "[", "@")) or (p.endswith("->") and k.startswith(p)) for p in pre) and not k.endswith(tag)}
        if not ch and len(ref) == len(st.ref):
            return st
        return St(env, ref, st.must, st.may)

    # ---- control flow --------------------------------------------------------------------------
    def run(self, fn, st):
        """All (return value, state) outcomes of the function from state st."""
        self.stack.append(fn)
        g = ir.cfg(fn)
        seen = {}
        work = [(g.entry.id, st)]
        exits = []
        retref = fn["ret"].rstrip().endswith("&")

        def push(t, s):
            if s is None:
                return
            d = seen.setdefault(t, {})
            k = s.key()
            if k in d:
                return
            if len(d) >= self.CAP:
                b = ("join", self.bucket(s))
                j = d.get(b)
                n = join(j, s) if j is not None else s
                if j is None:
                    for x in list(d.values()):
                        if self.bucket(x) == b[1]:
                            n = join(n, x)
                if j is not None and n.key() == j.key():
                    return
                d[b] = n
                work.append((t, n))
                return
            d[k] = s
            work.append((t, s))

        while work:
            nid, st = work.pop()
            self.stmts += 1
            n = g.nodes[nid]
            k = n.kind
            if k == "exit":
                s = self.on_exit(fn, n, TOP, st)
                exits.append((TOP, s))
                continue
            exc = [t for t, l in n.succ if l == "exc"]
            if exc and n.kind != "thr" and not self.throws(n.e):
                exc = []
            for t in exc:
                push(t, st)
            if k == "ret":
                if n.e is None:
                    exits.append((TOP, self.on_exit(fn, n, TOP, st)))
                elif retref and self.isplace(n.e):
                    for p, s in self.place(n.e, st):
                        v = ("ref", p) if p else TOP
                        exits.append((v, self.on_exit(fn, n, v, s)))
                else:
                    for v, s in self.ev(n.e, st):
                        if s is not None:
                            v = self.val(v, s)
                            exits.append((v, self.on_exit(fn, n, v, s)))
                continue
            if k == "br":
                for v, s in self.ev(n.e, st):
                    if s is None:
                        continue
                    for t, l in n.succ:
                        if l == "exc":
                            continue
                        if l is None:
                            push(t, s)
                            continue
                        s2 = self.refine(v, l, s)
                        if s2 is not None:
                            push(t, self.on_branch(n.e, v, l, s2))
                continue
            if k == "sw":
                cs = [l[1] for t, l in n.succ if isinstance(l, tuple) and l[0] == "case"]
                for v, s in self.ev(n.e, st):
                    if s is None:
                        continue
                    for t, l in n.succ:
                        if l == "exc" or l is None:
                            continue
                        if l[0] == "case":
                            s2 = self.refine(("cmp", "==", v, ("c", l[1])), True, s) if l[1] is not None else s
                        else:
                            s2 = s
                            for c in cs:
                                if c is not None and s2 is not None:
                                    s2 = self.refine(("cmp", "==", v, ("c", c)), False, s2)
                        if s2 is not None:
                            push(t, self.on_branch(n.e, v, l, s2))
                continue
            if k == "decl":
                s = n.stmt
                p = "L" + s[1]
                if s[6] in ("g", "s"):
                    p = "G" + s[1]
                isref = s[7] or s[3].rstrip().endswith("&")
                if n.e is None:
                    s1 = st.dropprefix((p + ".", p + "["))
                    s1 = s1.set(p, None)
                    s1 = St(s1.env, {a: b for a, b in s1.ref.items() if a != p and not a.startswith(p + ".")}, s1.must, s1.may)
                    s1 = self.on_decl(s, None, s1)
                    for t, l in n.succ:
                        if l != "exc":
                            push(t, s1)
                    continue
                if isref and self.isplace(n.e):
                    for q, s1 in self.place(n.e, st):
                        s1 = s1.set(p, ("ref", q) if q else None)
                        for t, l in n.succ:
                            if l != "exc":
                                push(t, s1)
                    continue
                for v, s1 in self.ev(n.e, st):
                    if s1 is None:
                        continue
                    s1 = s1.dropprefix((p + ".", p + "["))
                    if v[0] == "lv":
                        if isref:
                            v = ("ref", v[1])
                        else:
                            v = s1.env.get(v[1], ("s", v[1]))
                    s1 = s1.set(p, v if v != TOP else None)
                    if v == TOP:
                        s1 = St(s1.env, {a: b for a, b in s1.ref.items() if a != p}, s1.must, s1.may)
                    s1 = self.on_decl(s, v, s1)
                    if s1 is None:
                        continue
                    for t, l in n.succ:
                        if l != "exc":
                            push(t, s1)
                continue
            if k in ("ompb", "ompe"):
                s = self.on_omp(n, k == "ompb", st)
                for t, l in n.succ:
                    push(t, s)
                continue
            if n.e is not None:
                for v, s in self.ev(n.e, st):
                    if s is None:
                        continue
                    if n.stmt and n.stmt[0] == "minit":
                        i = n.stmt[1]
                        if i[0] == "m":
                            b = s.env.get("this")
                            p = (b[1] if b is not None and b[0] == "&" else "this->") + "." + i[1]
                            s = self.on_write(p, n.e, v, s)
                            s = self.write(p, v, s)
                    if k == "thr":
                        continue
                    for t, l in n.succ:
                        if l != "exc":
                            push(t, s)
                continue
            for t, l in n.succ:
                if l != "exc":
                    push(t, st)
        self.stack.pop()
        return self.dedupe(exits)
