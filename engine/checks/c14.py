"""Threads of a team never write the same place (effect and index-dependence analysis of every
OpenMP region).

For every parallel region and every task, each write its code can make - itself or through any
chain of calls - to memory that the team shares has to be

* to a place that belongs to the work item: its address depends on the iteration a worksharing loop
  handed out, on the thread number, on a ticket drawn by an atomic capture, or on the values a task
  was created with; or
* to a private object (declared inside, private, firstprivate, reduction, allocated inside); or
* inside critical, atomic, single, master, or between omp_set_lock and omp_unset_lock.

An address that depends on a work item only through a value loaded from a shared table (a
permutation, the bounds of disjoint ranges) is accepted for plain stores and refused for
accumulations, where two work items may find the same value. With collapse(n), an address has to
depend on all n loop variables. A condition only one work item can meet (i == n - 1) makes what it
guards that work item's own. Elements of std::vector<bool>
share their words and belong to nobody.
"""
import re

import ir

PROT = {"critical", "atomic", "single", "master", "masked", "ordered"}
MUT = {"push_back", "emplace_back", "pop_back", "resize", "reserve", "clear", "insert", "erase", "assign", "emplace", "push_front", "pop_front", "emplace_front", "swap",
       "operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator|=", "operator&=", "append", "reset", "shrink_to_fit", "splice", "merge", "sort", "push", "pop", "operator++", "operator--"}
ELEM = {"operator[]", "at", "operator()"}
VIEW = {"data", "begin", "end", "get", "front", "back", "operator*", "operator->", "c_str", "rbegin", "rend", "base", "operator+", "operator-", "operator++", "operator+=", "value", "operator basic_string", "next", "prev", "ref", "move", "forward", "addressof", "find"}
# external functions writing through a plain argument: name -> written positions
WR = {"memcpy": [0], "memset": [0], "memmove": [0], "copy": [2], "copy_n": [2], "copy_if": [2], "move": [2], "transform": [-2], "fill": [0], "fill_n": [0], "iota": [0], "sort": [0], "stable_sort": [0], "nth_element": [0],
      "partial_sort": [0], "swap": [0, 1], "generate": [0], "reverse": [0], "rotate": [0], "partition": [0], "stable_partition": [0], "swap_ranges": [0, 2], "inclusive_scan": [2], "partial_sum": [2], "iter_swap": [0, 1], "push_heap": [0], "pop_heap": [0], "make_heap": [0], "shuffle": [0], "for_each": [0]}
SHARED_OK = re.compile(r"^(std::(atomic|mutex|cout|cerr)|omp_lock_t|omp_nest_lock_t)")


def last(q):
    d = 0
    for i in range(len(q) - 1, 0, -1):
        if q[i] == ">" and q[i - 1] != "-":
            d += 1
        elif q[i] == "<":
            d -= 1
        elif d == 0 and q[i - 1:i + 1] == "::":
            q = q[i + 1:]
            break
    return q if q.startswith("operator") else q.split("<")[0]


def ptrlike(t):
    t = t.replace("const", "").strip()
    return t.endswith("*") or t.endswith("* __restrict") or "__normal_iterator" in t or t.startswith("std::reference_wrapper") or "_iterator" in t or t.endswith("&") or t.startswith(("std::span", "std::unique_ptr", "std::shared_ptr"))


def etype(e):
    return e[3] if e[0] == "var" else e[4] if e[0] == "mem" else ""


FULL = frozenset(["D"])
ERR = re.compile(r"utilities/(da_error|options)\.hpp")


def ends(s):
    """the statement always leaves the function"""
    if not s:
        return False
    if s[0] == "seq":
        return bool(s[1]) and any(ends(c) for c in s[1] if c)
    return s[0] == "ret"


def clash(gs):
    """the facts cannot all hold"""
    return any(eq and any(j == i and (c2 != c if eq2 else c2 == c) for j, eq2, c2 in gs) for i, eq, c in gs)


def own(ds, acc):
    """the dependences make the place the work item's own"""
    if "D" in ds or "L" in ds and not acc:
        return True
    dims = {}
    for x in ds:
        if isinstance(x, str) and x[0] == "C":
            nest, rest = x.split(".")
            k, n = rest.split("/")
            dims.setdefault((nest, n), set()).add(k)
    return any(len(v) == int(n) for (nest, n), v in dims.items())


class Body:
    """One piece of code with its definitions: a function, or a region inside one."""

    def __init__(self, A, fn, stmt, mode, clauses=None, kind="", outer=None):
        self.A, self.fn, self.mode, self.kind = A, fn, mode, kind
        self.defs, self.inside, self.D, self.priv, self.nest = {}, set(), {}, set(), 0
        self.lam = {}
        self.params = {p[0]: i for i, p in enumerate(fn["params"])}
        self.team = frozenset()
        self.stmt = stmt
        self.memo, self.cond, self.lone = {}, {}, {}
        scope = fn["body"] if mode == "region" else stmt
        for s in ir.walk_stmts(scope):
            self.scan(s)
        if mode == "fn":
            self.conds(stmt, frozenset(), stmt)
            self.memo = {}
        if mode == "region":
            self.defs_all, self.defs = self.defs, {}
            for s in ir.walk_stmts(stmt):
                if s[0] == "decl":
                    self.inside.add(s[1])
                if s[0] == "rfor":
                    self.inside.add(s[1][1] if isinstance(s[1], list) else s[1])
                self.scan(s)
            cl = clauses or {}
            for k in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                for e in cl.get(k, ()):
                    for y in ir.walk(e):
                        if y[0] == "var":
                            self.priv.add(y[1])
                            if k == "firstprivate" and kind.startswith("task"):
                                self.D[y[1]] = FULL
            self.loops(stmt, cl, kind)
            for s in ir.walk_stmts(stmt):
                if s[0] == "omp":
                    for k in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                        for e in s[2].get(k, ()):
                            self.priv |= {y[1] for y in ir.walk(e) if y[0] == "var"}
                    if s[1] in ("for", "for simd", "parallel for", "parallel for simd", "taskloop"):
                        self.loops(s[3], s[2], s[1])
                    if s[1] == "atomic" and "capture" in s[2]:
                        for t in ir.walk_stmts(s[3]):
                            for e in ir.stmt_exprs(t):
                                for y in ir.walk(e):
                                    if y[0] == "asg" and ir.strip(y[2])[0] == "var":
                                        self.D[ir.strip(y[2])[1]] = FULL
            fixed = set(self.D)
            ch = True
            while ch:
                ch = False
                for v, ds in self.defs.items():
                    if v in fixed or not (v in self.inside or v in self.priv):
                        continue
                    x = self.D.get(v, frozenset())
                    for d in ds:
                        x |= self.deps(d)
                    if x != self.D.get(v, frozenset()):
                        self.D[v] = x
                        ch = True
            self.conds(stmt, frozenset(), stmt)
            self.memo = {}

    def label(self, n, n0):
        return FULL if n0 == 1 else frozenset(["C%d.%d/%d" % (self.nest, n, n0)])

    def loops(self, s, cl, kind):
        if "for" not in kind and kind != "taskloop":
            return
        n = 1
        self.nest += 1
        for e in cl.get("collapse", ()):
            c = ir.const_int(e)
            n = c if c else n
        n0 = n
        while s and n:
            if s[0] == "seq":
                s = next((x for x in s[1] if x and x[0] in ("for", "rfor", "seq")), None)
                continue
            if s[0] == "rfor":
                v = s[1][1] if isinstance(s[1], list) else s[1]
                self.D[v] = self.label(n, n0)
                self.inside.add(v)
                s, n = s[3], n - 1
                continue
            if s[0] != "for":
                break
            i = s[1]
            if i and i[0] == "seq":
                i = i[1][0] if i[1] else None
            if i and i[0] == "decl":
                self.D[i[1]] = self.label(n, n0)
                self.inside.add(i[1])
            elif i and i[0] == "e":
                for y in ir.walk(i[1]):
                    if y[0] == "asg" and ir.strip(y[2])[0] == "var":
                        self.D[ir.strip(y[2])[1]] = self.label(n, n0)
                        self.priv.add(ir.strip(y[2])[1])
                        break
            s, n = s[4], n - 1

    def scan(self, s):
        if s[0] == "decl" and s[4]:
            self.defs.setdefault(s[1], []).append(s[4])
            if ir.strip(s[4])[0] == "lam":
                self.lam[s[1]] = ir.strip(s[4])
        if s[0] == "rfor":
            v = s[1][1] if isinstance(s[1], list) else s[1]
            self.defs.setdefault(v, []).append(s[2])
        for e in ir.stmt_exprs(s) + ([s[3]] if s[0] == "for" and s[3] else []):
            for y in ir.walk(e):
                if y[0] == "asg" and y[2]:
                    l = ir.strip(y[2])
                    if l[0] == "var":
                        self.defs.setdefault(l[1], []).append(y[3])
                    while l and (l[0] in ("idx", "mem") or l[0] == "call" and last(l[2]) in ELEM and l[3] is not None):
                        l = ir.strip(l[3] if l[0] == "call" else l[1])
                        if l[0] == "var" and not ptrlike(l[3]):
                            self.defs.setdefault(l[1], []).append(y[3])
                elif y[0] == "call" and last(y[2]) == "operator=" and y[3] is not None and ir.strip(y[3])[0] == "var" and ptrlike(ir.strip(y[3])[3]) and y[4]:
                    self.defs.setdefault(ir.strip(y[3])[1], []).append(y[4][0])
                elif y[0] == "call":
                    fns = self.A.P.targets(y, None)
                    for k, x in enumerate(y[4]):
                        x = ir.strip(x) if x else None
                        if not x or not fns or k >= len(fns[0]["params"]):
                            continue
                        t = fns[0]["params"][k][2]
                        if x[0] == "un" and x[1] == "&":
                            x = ir.strip(x[2])
                        elif not t.rstrip().endswith("&") or t.startswith("const "):
                            continue
                        if x[0] == "var" and isval(x):
                            self.defs.setdefault(x[1], []).extend(b for m, b in enumerate(y[4]) if b and m != k and not (ir.strip(b)[0] == "un" and ir.strip(b)[1] == "&"))

    # ---------------------------------------------------------------- dependence of values
    def deps(self, e, depth=0):
        """what the value depends on: 'D' (work item), parameter numbers"""
        e = ir.strip(e)
        if not e or depth > 14:
            return frozenset()
        k = e[0]
        if k == "cast":
            return self.deps(e[3], depth + 1)
        if k == "var":
            v = e[1]
            if v in self.D:
                return self.D[v]
            if self.mode == "fn":
                if v in self.params:
                    return frozenset([self.params[v]])
                if ("d", v) in self.memo:
                    return self.memo[("d", v)]
                self.memo[("d", v)] = frozenset()
                r = frozenset()
                for d in self.defs.get(v, ()):
                    r |= self.deps(d, depth + 1)
                self.memo[("d", v)] = r
                return r
            return frozenset()
        if k == "mem":
            return self.deps(e[1], depth + 1)
        if k == "call":
            n = last(e[2])
            if n == "omp_get_thread_num":
                return frozenset(["D"])
            if e[3] is not None and n in ELEM or n in ("load", "operator*", "front", "back", "operator int", "operator bool"):
                return self.load(e[3] if e[3] is not None else (e[4][0] if e[4] else None), e[4], depth)
            r = frozenset()
            fs = self.A.P.targets(e, None)
            if fs:
                rd = self.A.retdeps(fs[0])
                for i in rd:
                    if isinstance(i, str) and i != "this":
                        r |= {i}
                    elif i == "this":
                        r |= self.deps(e[3], depth + 1) if e[3] else frozenset()
                    elif i < len(e[4]) and e[4][i]:
                        r |= self.deps(e[4][i], depth + 1)
                return r
            for a in ([e[3]] if e[3] else []) + [x for x in e[4] if x]:
                r |= self.deps(a, depth + 1)
            return r
        if k == "idx":
            return self.load(e[1], [e[2]], depth)
        if k == "un" and e[1] == "*":
            return self.load(e[2], [], depth)
        if k == "bin" and e[1] in ("%", "==", "<", ">", "<=", ">=", "!=", "&&", "||"):
            return frozenset()
        if k in ("lam", "int", "flt", "str", "this"):
            return frozenset()
        r = frozenset()
        for c in ir.kids(e):
            if c:
                r |= self.deps(c, depth + 1)
        return r

    def load(self, base, idx, depth):
        """a value read from memory: it identifies the work item only when the memory is private to
        it, or the table is known to hold different values at different positions"""
        b = ir.strip(base) if base else None
        r = frozenset()
        own = all(root == "local" for root, ds in self.place(b, depth + 1, ptr=True)) if b else True
        if own and b:
            r |= self.deps(b, depth + 1)
            if b[0] == "var" and self.mode == "region":
                for d in self.defs.get(b[1], ()):
                    r |= self.deps(d, depth + 1)
        for i in idx:
            x = self.deps(i, depth + 1)
            r |= x if own else frozenset("L" if y == "D" else y for y in x)
        return r

    # ---------------------------------------------------------------- places
    def place(self, e, depth=0, ptr=False):
        """[(root, deps)]: what the lvalue e lies in (ptr: what the pointer value e points into)"""
        e = ir.strip(e)
        if not e or depth > 12:
            return [("local", frozenset())]
        k = e[0]
        if k == "cast":
            return self.place(e[3], depth + 1, ptr)
        if k == "this":
            return [("this", frozenset())]
        if k == "var":
            v, t = e[1], e[3]
            byptr = ptrlike(t) and (ptr or t.rstrip().endswith("&"))
            if self.mode == "region":
                own = v in self.inside or v in self.priv
                if not own:
                    if e[4] in ("p", "l") or True:
                        return [(("v", e[2], t), frozenset())]
                if not byptr:
                    return [("local", frozenset())]
                ds = self.defs.get(v) or []
                if not ds and v in self.priv and self.kind.startswith("task"):
                    return [("local", FULL)]
                if not ds and v in self.priv:
                    ds = self.defs_all.get(v) or []
                if not ds and v in self.D:
                    return [("local", FULL)]
            else:
                if v in self.params:
                    if byptr:
                        return [(("p", self.params[v]), frozenset())]
                    return [("local", frozenset())]
                if e[4] in ("g", "s"):
                    return [(("g", e[2], t), frozenset())]
                if not byptr:
                    return [("local", frozenset())]
                ds = self.defs.get(v) or []
            if ("pl", v) in self.memo:
                return self.memo[("pl", v)]
            self.memo[("pl", v)] = [("local", frozenset())]
            out = []
            add = frozenset()
            for d in ds:
                d0, d = d, ir.strip(d)
                if isval(d):
                    add |= self.deps(d)
                    continue
                if "D" in self.lone.get(id(d0), ()):
                    out.append(("local", FULL))
                    continue
                out += self.gplace(d0, d, depth + 1, ptr=t.rstrip().endswith("*") or "iterator" in t or "_ptr<" in t or not t.rstrip().endswith("&"))
            out = [(r, x | add) for r, x in out][:8] or [("local", add)]
            self.memo[("pl", v)] = out
            return out
        if k == "mem":
            b = ir.strip(e[1])
            if b[0] == "this":
                return [("this." + e[2] if False else ("m", e[2], e[4]), frozenset())]
            bt = etype(b)
            return self.place(b, depth + 1, ptr=bt.rstrip().endswith("*") or "_ptr" in bt)
        if k == "idx":
            d = self.deps(e[2], depth + 1)
            return [(r, x | d) for r, x in self.place(e[1], depth + 1, ptr=True)]
        if k == "un":
            if e[1] == "*":
                return self.place(e[2], depth + 1, ptr=True)
            return self.place(e[2], depth + 1, ptr)
        if k == "bin":
            l, r = self.place(e[2], depth + 1, True), self.deps(e[3], depth + 1)
            if isval(ir.strip(e[2])):
                l, r = self.place(e[3], depth + 1, True), self.deps(e[2], depth + 1)
            return [(a, x | r) for a, x in l]
        if k == "cond":
            a, b = self.eqdeps(e[1]), self.eqdeps(e[1], True)
            return [(r, x | a) for r, x in self.place(e[2], depth + 1, ptr)] + [(r, x | b) for r, x in self.place(e[3], depth + 1, ptr)]
        if k == "asg":
            return self.place(e[2], depth + 1, ptr)
        if k == "new" or k == "null":
            return [("local", frozenset())]
        if k == "ctor":
            a = [x for x in e[3] if x]
            return self.place(a[0], depth + 1, ptr=True) if len(a) == 1 else [("local", frozenset())]
        if k == "call":
            n = last(e[2])
            o = e[3]
            a = [x for x in e[4] if x]
            if o is None and a and (n in VIEW or n in ELEM):
                o, a = a[0], a[1:]
            d = frozenset()
            for x in a:
                d |= self.deps(x, depth + 1)
            fs = self.A.P.targets(e, None)
            if fs and n not in VIEW and n not in ELEM:
                out = []
                for root, ds in self.A.retplace(fs[0]):
                    out += self.subst(e, root, ds, depth)
                return out or [("local", frozenset())]
            if o is not None:
                ot = etype(ir.strip(o))
                return [(r, x | d) for r, x in self.place(o, depth + 1, ptr=ptrlike(ot))]
            out = []
            for x in a:
                if not isval(ir.strip(x)):
                    out += self.place(x, depth + 1, True)
            return [(r, x | d) for r, x in out][:8] or [("local", frozenset())]
        return [("local", frozenset())]

    def gplace(self, d0, d, depth, ptr):
        g = self.cond.get(id(d0), frozenset()) | self.lone.get(id(d0), frozenset())
        out = self.place(d, depth, ptr)
        return [(r, x | g) for r, x in out] if g else out

    def conds(self, s, gd, scope):
        """under which member conditions a definition is the last word: an assignment under a
        condition replaces the initial value when the condition holds"""
        if not s:
            return
        if s[0] == "e" and s[1]:
            for y in ir.walk(s[1]):
                tgt = None
                if y[0] == "asg" and y[1] == "=":
                    tgt, val = ir.strip(y[2]), y[3]
                elif y[0] == "call" and last(y[2]) == "operator=" and y[3] is not None and y[4]:
                    tgt, val = ir.strip(y[3]), y[4][0]
                if tgt and tgt[0] == "var" and gd:
                    self.cond[id(val)] = frozenset(("G",) + g for g in gd)
                    ds = self.defs.get(tgt[1], ())
                    if len(ds) == 2 and len(gd) == 1 and ds[1] is val:
                        (n, eq, c), = gd
                        self.cond[id(ds[0])] = frozenset([("G", n, not eq, c)])
        if s[0] == "if":
            self.conds(s[2], gd | frozenset(self.conj(s[1])), scope)
            if s[3]:
                self.conds(s[3], gd | frozenset(self.conj(s[1], True)), scope)
            for t, neg in ((s[2], False), (s[3], True)):
                x = self.eqdeps(s[1], neg)
                if t and x:
                    for u in ir.walk_stmts(t):
                        for e in ir.stmt_exprs(u):
                            for y in ir.walk(e):
                                if y[0] == "asg":
                                    self.lone[id(y[3])] = x
            return
        for c in ir.substmts(s):
            self.conds(c, gd, scope)

    def subst(self, e, root, ds, depth=0):
        """a place of the callee in terms of this body"""
        d = frozenset()
        args = e[4] if e[0] == "call" else e[3]
        for x in ds:
            if isinstance(x, (str, tuple)):
                d |= {x}
            elif isinstance(x, int) and x < len(args) and args[x]:
                d |= self.deps(args[x], depth + 1)
                for r2, x2 in (self.place(args[x], depth + 1, True) if not isval(ir.strip(args[x])) else ()):
                    d |= x2
        if root == "local":
            return [("local", d)]
        if root[0] == "p":
            i = root[1]
            if i >= len(args) or not args[i]:
                return [("local", d)]
            a = ir.strip(args[i])
            return [(r, x | d) for r, x in self.place(a, depth + 1, ptr=True)]
        if root == "this" or root[0] == "m":
            o = e[3] if e[0] == "call" else None
            if o is None:
                return [("local", d)]
            o = ir.strip(o)
            if o[0] == "this":
                return [(root, d)]
            return [(r, x | d) for r, x in self.place(o, depth + 1, ptr=ptrlike(etype(o)))]
        return [(root, d)]

    # ---------------------------------------------------------------- writes
    def writes(self):
        """(line, description, [(root, deps)], guards, accumulates) of every unprotected write"""
        yield from self.walkw(self.stmt, frozenset())

    def conj(self, e, neg=False):
        """(parameter, op, constant) facts that hold when e is true (neg: false)"""
        e = ir.strip(e)
        if not e:
            return []
        if e[0] == "un" and e[1] == "!":
            return self.conj(e[2], not neg)
        if e[0] == "bin" and e[1] == ("||" if neg else "&&"):
            return self.conj(e[2], neg) + self.conj(e[3], neg)
        if e[0] == "bin" and e[1] in ("==", "!="):
            for a, c in ((e[2], e[3]), (e[3], e[2])):
                v, a = ir.const_int(c), ir.strip(a)
                while a[0] == "cast":
                    a = ir.strip(a[3])
                if v is not None and a[0] == "var" and a[1] in self.params and self.mode == "fn":
                    return [(self.params[a[1]], (e[1] == "==") != neg, v)]
                if v is not None and a[0] == "mem" and a[1][0] == "this":
                    return [("m:" + a[2], (e[1] == "==") != neg, v)]
        while e[0] == "cast":
            e = ir.strip(e[3])
        if e[0] == "var" and e[1] in self.params and self.mode == "fn":
            return [(self.params[e[1]], neg, 0)]
        if e[0] == "mem" and e[1][0] == "this" and e[4].replace("const ", "") in ("bool", "int", "long"):
            return [("m:" + e[2], neg, 0)]
        return []

    def eqdeps(self, e, neg=False):
        """what singles out the one work item that can find e true (neg: false)"""
        e = ir.strip(e)
        if not e:
            return frozenset()
        if e[0] == "un" and e[1] == "!":
            return self.eqdeps(e[2], not neg)
        if e[0] == "bin" and e[1] == ("||" if neg else "&&"):
            return self.eqdeps(e[2], neg) | self.eqdeps(e[3], neg)
        if e[0] == "bin" and e[1] == ("!=" if neg else "=="):
            for a, c in ((e[2], e[3]), (e[3], e[2])):
                x = self.deps(a)
                if ("D" in x or self.mode == "fn" and x) and not self.deps(c):
                    return x
                a = ir.strip(a)
                if ir.const_int(c) == 1 and a[0] == "var" and a[1] in self.team:
                    return FULL
        return frozenset()

    def walkw(self, s, gd):
        if not s:
            return
        if s[0] == "omp":
            if s[1] in PROT:
                return
            if s[1] == "task":
                return   # a work item of its own
        if s[0] == "seq":
            lock = 0
            for c in s[1]:
                if not c:
                    continue
                if c[0] == "e" and c[1] and ir.strip(c[1])[0] == "call":
                    n = last(ir.strip(c[1])[2])
                    lock += n in ("omp_set_lock", "omp_set_nest_lock")
                    lock -= n in ("omp_unset_lock", "omp_unset_nest_lock")
                if c[0] == "decl" and re.match(r"std::(lock_guard|scoped_lock|unique_lock)", str(c[3])):
                    lock += 1
                if lock <= 0:
                    yield from self.walkw(c, gd)
                if c[0] == "if" and ends(c[2]) and not c[3]:
                    gd = gd | frozenset(self.conj(c[1], True))
            return
        for e in ir.stmt_exprs(s) + ([s[3]] if s[0] == "for" and s[3] and s[3] not in ir.stmt_exprs(s) else []):
            for y in ir.walk(e):
                for w in self.ewrites(y, gd):
                    yield w if len(w) == 5 else w + (gd, y[0] == "un" or y[0] == "asg" and y[1] != "=")
        if s[0] == "if":
            for t, neg in ((s[2], False), (s[3], True)):
                x = self.eqdeps(s[1], neg)
                if t and "D" not in x:
                    for line, what, pl, g, acc in self.walkw(t, gd | frozenset(self.conj(s[1], neg))):
                        yield line, what, [(r, d | x) for r, d in pl] if x else pl, g, acc
            return
        for c in ir.substmts(s):
            yield from self.walkw(c, gd)

    def arg(self, a, eq, c, depth=0):
        """what follows from (a == c) == eq for the parameters and members here (None: impossible)"""
        a = ir.strip(a)
        while a and a[0] == "cast":
            a = ir.strip(a[3])
        if not a or depth > 3:
            return []
        v = ir.const_int(a)
        if v is not None:
            return None if (v == c) != eq else []
        if a[0] == "var" and self.mode == "fn" and a[1] in self.params and not self.defs.get(a[1]):
            return [(self.params[a[1]], eq, c)]
        if a[0] == "mem" and a[1][0] == "this":
            return [("m:" + a[2], eq, c)]
        if a[0] == "var" and len(self.defs.get(a[1], ())) == 1 and a[1] not in self.params:
            return self.arg(self.defs[a[1]][0], eq, c, depth + 1)
        if a[0] == "cond":
            alts = []
            for x, neg in ((a[2], False), (a[3], True)):
                fs = self.arg(x, eq, c, depth + 1)
                if fs is not None:
                    fs = set(fs) | set(self.conj(a[1], neg))
                    for i, e2, k in list(fs):
                        if e2:   # equal to k: different from every other constant in play
                            fs.add((i, False, c)) if k != c else None
                    if not clash(fs):
                        alts.append(fs)
            if not alts:
                return None
            return list(set.intersection(*alts))
        return []

    def guards(self, y, g2, gd):
        args = y[4] if y[0] == "call" else y[3]
        out = set(gd)
        same = y[0] == "call" and (y[3] is None or ir.strip(y[3])[0] == "this")
        for i, eq, c in g2:
            if isinstance(i, str):
                if same:
                    out.add((i, eq, c))
                continue
            a = ir.strip(args[i]) if i < len(args) and args[i] else None
            while a and a[0] == "cast":
                a = ir.strip(a[3])
            fs = self.arg(a, eq, c) if a else []
            if fs is None:
                return None
            out.update(fs)
        return None if clash(out) else frozenset(out)

    def ewrites(self, y, gd):
        k = y[0]
        if k == "asg":
            yield ir.line_of(y), y[2], self.place(y[2])
        elif k == "un" and y[1] in ("p++", "++p", "++", "--", "p--", "--p", "++pre", "--pre"):
            yield ir.line_of(y), y[2], self.place(y[2])
        elif k == "lam":
            f = self.A.P.fns.get(y[1])
            if f and f["body"]:
                for t in ir.walk_stmts(f["body"]):
                    if t[0] == "decl":
                        self.inside.add(t[1])
                    self.scan(t)
                for p in f["params"]:
                    self.inside.add(p[0])
                yield from self.walkw(f["body"], gd)
        elif k in ("call", "ctor"):
            fs = self.A.P.targets(y, None)
            if fs:
                for f in fs:
                    for root, ds, g2, acc, why in self.A.effects(f):
                        g3 = self.guards(y, g2, gd)
                        if g3 is None:
                            continue
                        for r, x in self.subst(y, root, ds):
                            yield ir.line_of(y), why, [(r, x)], g3, acc
                return
            if k == "ctor":
                return
            n = last(y[2])
            a = [x for x in y[4] if x]
            o = y[3]
            if o is None and n in MUT and n.startswith("operator") and a:
                o, a = a[0], a[1:]
            if o is not None:
                if n in MUT:
                    oo = ir.strip(o)
                    if SHARED_OK.match(etype(oo)):
                        return
                    bits = oo[0] == "call" and "_Bit_reference" in y[2] or "vector<bool" in y[2]
                    pl = self.place(o, ptr=False)
                    if "_Bit_reference" in y[2]:
                        pl = [(r, frozenset() if r != "local" else x) for r, x in pl]
                    yield ir.line_of(y), o, pl
                return
            if n in WR and (y[2].startswith("std::") or y[2] == n):
                for i in WR[n]:
                    if -len(a) <= i < len(a):
                        d = frozenset()
                        yield ir.line_of(y), a[i], self.place(a[i], ptr=True)
            elif n.startswith(("cblas_", "LAPACKE")) or n.endswith("_") or y[2].startswith(("da_blas", "da::", "blas", "lapack")):
                for x in a:
                    t = typ(x)
                    if t.rstrip().endswith("*") and "const" not in t and re.match(r"(float|double|_Float16|std::complex)", t):
                        yield ir.line_of(y), x, self.place(x, ptr=True)


def isval(e):
    """an arithmetic value, not a pointer or object"""
    if not e:
        return True
    k = e[0]
    if k in ("int", "flt", "bool", "str", "enum", "sizeof"):
        return True
    if k == "cast":
        return isval(ir.strip(e[3])) if "*" not in e[2] else False
    t = etype(e)
    if k in ("var", "mem"):
        return t.replace("const ", "") in ("int", "long", "unsigned long", "double", "float", "bool", "unsigned int", "short", "size_t", "char") or t.endswith(("int &", "long &")) and False
    if k == "bin":
        return isval(ir.strip(e[2])) and isval(ir.strip(e[3]))
    if k == "un":
        return isval(ir.strip(e[2])) if e[1] not in ("*", "&") else e[1] == "*"
    if k == "idx":
        return False
    if k == "call":
        return e[6].replace("const ", "").rstrip(" &") in ("int", "long", "unsigned long", "double", "float", "bool", "unsigned int") and last(e[2]) not in ELEM
    return False


def typ(e):
    e = ir.strip(e)
    if e[0] == "cast":
        return e[2]
    if e[0] == "call":
        return e[6]
    return etype(e)


def names(e):
    out = set()
    for y in ir.walk(e) if e else ():
        if y[0] in ("var", "mem"):
            out.add(y[2])
    return out


class Analysis:
    def __init__(self, P, tables):
        self.P, self.tls = P, tables
        self.eff, self.ret, self.retd, self.body = {}, {}, {}, {}

    def b(self, f):
        if f["id"] not in self.body:
            self.body[f["id"]] = Body(self, f, f["body"], "fn")
        return self.body[f["id"]]

    def effects(self, f):
        """writes of f to memory its caller can name: {(root, deps, description)}"""
        i = f["id"]
        if i in self.eff:
            return self.eff[i]
        self.eff[i] = ()
        if not f["body"]:
            return ()
        out = {}
        b = self.b(f)
        for line, what, pl, gd, acc in b.writes():
            for r, x in pl:
                if r == "local" or r[0] in ("g", "m") and SHARED_OK.match(r[2]) or r[0] == "g" and r[1] in self.tls:
                    continue
                if ERR.search(ir.loc(f, line)) and not isinstance(what, str):
                    continue
                why = what if isinstance(what, str) else "%s (%s)" % (ir.show(what), ir.loc(f, line))
                out.setdefault((r, frozenset(y for y in x if not isinstance(y, tuple)), gd, acc), why)
        self.eff[i] = tuple((r, x, g, a, w) for (r, x, g, a), w in out.items())
        return self.eff[i]

    def retplace(self, f):
        i = f["id"]
        if i not in self.ret:
            self.ret[i] = []
            if f["body"]:
                b = self.b(f)
                self.ret[i] = [(r, x) for r, x in self.rets(b, f["body"], frozenset(), f["ret"].rstrip().endswith("*"))][:8]
        return self.ret[i]

    def rets(self, b, s, ds, ptr):
        if not s:
            return
        if s[0] == "ret":
            if s[1] and not isval(ir.strip(s[1])):
                for r, x in b.place(s[1], ptr=ptr):
                    yield r, x | ds
        elif s[0] == "if":
            yield from self.rets(b, s[2], ds | b.eqdeps(s[1]), ptr)
            yield from self.rets(b, s[3], ds | b.eqdeps(s[1], True), ptr)
        else:
            if s[0] == "seq":
                for c in s[1]:
                    if not c:
                        continue
                    yield from self.rets(b, c, ds, ptr)
                    if c[0] == "if" and ends(c[2]) and not c[3]:
                        ds = ds | b.eqdeps(c[1], True)
                return
            for c in ir.substmts(s):
                yield from self.rets(b, c, ds, ptr)

    def retdeps(self, f):
        i = f["id"]
        if i not in self.retd:
            self.retd[i] = frozenset()
            if f["body"]:
                b = self.b(f)
                r = frozenset()
                for s in ir.walk_stmts(f["body"]):
                    if s[0] == "ret" and s[1]:
                        r |= b.deps(s[1])
                self.retd[i] = r
        return self.retd[i]


def run(ctx):
    P = ctx.P
    A = Analysis(P, {v["q"].split("::")[-1] for v in ctx.db.gvars.values() if v.get("tls")})
    seen = {}
    for f in P.fns.values():
        if not f["body"]:
            continue
        for s in ir.walk_stmts(f["body"]):
            if s[0] != "omp" or not (s[1].startswith("parallel") or s[1] == "task" or s[1] == "taskloop"):
                continue
            kind = s[1]
            ctx.count("tasks" if kind.startswith("task") else "parallel_regions")
            b = Body(A, f, s[3], "region", s[2], kind)
            b.team = {y[1] for e in s[2].get("num_threads", ()) for y in ir.walk(e) if y[0] == "var"}
            for line, what, pl, gd, acc in b.writes():
                ctx.count("writes_followed")
                for r, x in pl:
                    if r == "local":
                        ctx.count("writes_to_private_objects")
                        continue
                    if clash(set(gd) | {g[1:] for g in x if isinstance(g, tuple)}):
                        continue
                    if own(x, acc):
                        ctx.count("writes_to_the_place_of_a_work_item")
                        continue
                    if r[0] in ("v", "m", "g") and SHARED_OK.match(r[2]) or r[0] == "g" and r[1] in A.tls:
                        continue
                    w = what if isinstance(what, str) else ir.show(what)
                    nm = r if isinstance(r, str) else r[1]
                    key = "%s|%s|%s" % (re.sub(r"<.*?>", "", f["q"]), kind, w.split(" (")[0])
                    if key not in seen:
                        seen[key] = 1
                        ctx.finding(key, ir.loc(f, line), "threads of the region at line %d may write the same place: %s of the shared %s" % (s[4], w, nm))
    c = ctx.counts
    ctx.require(c.get("parallel_regions", 0) >= 100, "parallel regions")
    ctx.require(c.get("tasks", 0) >= 6, "tasks")
    ctx.require(c.get("writes_to_the_place_of_a_work_item", 0) >= 200, "writes to shared memory")
