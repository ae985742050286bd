"""Error discipline: path-wise tracking of failure results.

For every function, explores the (status-abstracted) paths of its CFG under the hypothesis
"one operation fails on this path" and reports the exits at which that failure is lost.
"""
import re
import ir
from ir import strip, const_int

STATUS_T = ("da_status_", "aoclsparse_status_")
S = "S"
U = "U"
NN = "NN"  # a pointer known not to be null


def k_virtual(e):
    return e[0] == "icall"


def tbase(b):
    """Qualified name without template arguments."""
    out, d = [], 0
    i = 0
    if "operator" in b:
        m = re.search(r"operator\s*(<<|>>|<=>|<=|>=|<|>|->)", b)
        if m:
            b = b[:m.start()] + "operatorX" + b[m.end():]
    for ch in b:
        if ch == "<":
            d += 1
        elif ch == ">":
            d = max(0, d - 1)
        elif d == 0:
            out.append(ch)
    return "".join(out)


class Site:
    __slots__ = ("callee", "line", "kind")

    def __init__(self, callee, line, kind):
        self.callee, self.line, self.kind = callee, line, kind


class StatusAnalysis:
    def __init__(self, prog, never_fails=lambda fn, call: False):
        self.P = prog
        self.never = never_fails
        self.mayfail = {}
        self.sites = {}  # (fn id, callee, line, kind)
        self.truncated = []
        self._flags, self._infos = {}, {}
        self._seeded, self._stack, self.seedmode, self.fn = {}, [], False, None
        self._int, self._keep = {}, []
        self._compute_mayfail()

    # -- which status-returning functions can return a failure at all
    def _compute_mayfail(self):
        P = self.P
        fns = [f for f in P.fns.values() if f["ret"] in STATUS_T]
        mf = {f["id"]: False for f in fns}
        # direct failures: any enum constant of da_status other than success appearing in the body,
        # or a call to an external/virtual/unknown status function
        deps = {}
        for f in fns:
            ds = []
            direct = False
            for e in ir.all_exprs(f):
                if e[0] == "enum" and e[1].startswith("da_status_") and e[1] != "da_status_success":
                    direct = True
                elif e[0] in ("call", "icall") and (e[6] if e[0] == "call" else e[5]) in STATUS_T:
                    if e[0] == "icall":
                        direct = True
                    elif e[2].endswith("da_error_t::rec") or e[2].endswith("da_error_t::clear"):
                        pass
                    else:
                        ts = P.targets(e)
                        if not ts:
                            direct = True
                        ds += [t["id"] for t in ts]
            if f["b"].endswith("da_error_t::rec"):
                direct = True
            mf[f["id"]] = direct
            deps[f["id"]] = ds
        ch = True
        while ch:
            ch = False
            for k, ds in deps.items():
                if not mf[k] and any(mf.get(d, True) for d in ds):
                    mf[k] = ch = True
        self.mayfail = mf
        self._disc = {}

    def can_fail(self, fn, e):
        if e[0] == "icall":
            return True
        n = e[2]
        if n.endswith("da_error_t::clear"):
            return False
        if self.never(fn, e):
            return False
        ts = self.P.targets(e)
        if not ts:
            return True
        if not any(self.mayfail.get(t["id"], True) for t in ts):
            return False
        if k_virtual(e) or len(ts) != 1:
            return True
        return self.seeded_may_fail(ts[0], e[4])

    def seeded_may_fail(self, t, args):
        """Can this callee fail when called with these constant or non-null arguments?"""
        seed = []
        for p, a in zip(t["params"], args):
            a0 = strip(a)
            if not a0:
                continue
            c = const_int(a)
            if a0[0] == "enum" and not a0[1].startswith("da_status_"):
                seed.append((p[0], ("I", a0[2])))
            elif c is not None:
                seed.append((p[0], ("I", c)))
            elif a0[0] == "bool":
                seed.append((p[0], bool(a0[1])))
            elif p[2].endswith("*") and (a0[0] == "un" and a0[1] == "&" or a0[0] == "call" and a0[2].split("::")[-1] == "data"
                                         and a0[2].startswith("std::")):
                seed.append((p[0], NN))
        if not seed:
            return True
        k = (t["id"], frozenset(seed))
        r = self._seeded.get(k)
        if r is None:
            self._seeded[k] = True  # recursion: assume the worst
            if len(self._stack) > 3:
                del self._seeded[k]
                return True
            save = self.fn, self._int, self._keep, dict(self.sites), list(self.truncated), self.seedmode
            self._stack.append(t["id"])
            self.fn, self._int, self._keep, self.seedmode = t, {}, [], True
            n = len(self.truncated)
            exits = self.run(t, (None, False, False, frozenset(seed)))
            r = len(self.truncated) > n or any(v != S for v, s in exits) or not exits
            self._stack.pop()
            self.fn, self._int, self._keep, self.sites, self.truncated, self.seedmode = save
            self._seeded[k] = r
        return r

    # -- expression evaluation -------------------------------------------------------------
    def tracked_type(self, t):
        return t in STATUS_T or t == "bool"

    def key(self, e):
        e = strip(e)
        if not e:
            return None
        if e[0] == "var":
            return e[1]
        if e[0] == "mem" and e[1][0] == "this":
            return "this." + e[2]
        if e[0] == "un" and e[1] == "*" and strip(e[2])[0] in ("var", "mem"):
            k = self.key(e[2])
            return "*" + k if k else None
        return None

    def interesting(self, e):
        r = self._int.get(id(e))
        if r is None:
            r = False
            for x in ir.walk(e):
                k = x[0]
                if k == "call" and (x[6] in STATUS_T or x[1].startswith("lambda@") or self.info_arg(x) is not None or self.out_status(x)):
                    r = True
                elif k == "icall" and x[5] in STATUS_T:
                    r = True
                elif k == "asg" and (x[5] in STATUS_T or x[5] == "bool" or self.seedmode or strip(x[2]) and strip(x[2])[0] == "var" and (strip(x[2])[1] in self.flags(self.fn) or x[1] in ("+=", "|=") and (strip(x[2])[1] in self.infos(self.fn) or strip(x[3]) and strip(x[3])[0] == "var" and strip(x[3])[1] in self.infos(self.fn)))):
                    r = True
                elif k == "un" and "++" in x[1] and strip(x[2]) and strip(x[2])[0] == "var" and strip(x[2])[1] in self.flags(self.fn):
                    r = True
                if r:
                    break
            self._int[id(e)] = r
            self._keep.append(e)
        return r

    def info_arg(self, c):
        """LAPACK-style call: index of the trailing `da_int *info` argument."""
        if c[0] != "call" or not c[2].startswith("da::") or not c[4]:
            return None
        a = strip(c[4][-1])
        if a and a[0] == "un" and a[1] == "&" and c[6] == "void":
            k = strip(a[2])
            if k[0] in ("var", "mem") and "info" in k[2].lower():
                return len(c[4]) - 1
        return None

    def out_status(self, c):
        """Arguments passed by reference/pointer to a da_status the callee may set."""
        if c[0] != "call":
            return []
        out = []
        for i, a in enumerate(c[4]):
            a0 = strip(a)
            if not a0:
                continue
            if a0[0] == "un" and a0[1] == "&" and strip(a0[2]) and strip(a0[2])[0] in ("var", "mem") and (strip(a0[2])[3] if strip(a0[2])[0] == "var" else strip(a0[2])[4]) in STATUS_T:
                out.append((i, a0[2]))
            elif a0[0] in ("var", "mem") and (a0[3] if a0[0] == "var" else a0[4]) in ("da_status_", "da_status_ &"):
                ts = self.P.targets(c)
                for t in ts:
                    if i < len(t["params"]) and t["params"][i][2] == "da_status_ &":
                        out.append((i, a0))
                        break
        return out

    def ev(self, e, st, depth=0):
        """Yields (value, state). state = (fail site or None, seen, carried, env dict as frozenset)."""
        if e is None:
            return [(U, st)]
        k = e[0]
        if k == "cast":
            return self.ev(e[3], st, depth)
        if k == "enum":
            if e[1] == "da_status_success" or e[1] == "aoclsparse_status_success":
                return [(S, st)]
            if e[1].startswith("da_status_") or e[1].startswith("aoclsparse_status_"):
                return [(("C", e[1]), st)]
            return [(("I", e[2]), st)]
        if k == "bool":
            return [(bool(e[1]), st)]
        if k == "int":
            return [(("I", e[1]), st)]
        if k == "null":
            return [("NULL", st)]
        if k in ("var", "mem"):
            key = self.key(e)
            if key is not None:
                v = dict(st[3]).get(key)
                if v is not None:
                    return [(v, st)]
            if k == "mem" and e[1][0] != "this":
                return [(U, s) for _, s in (self.ev(e[1], st, depth) if self.interesting(e[1]) else [(U, st)])]
            return [(U, st)]
        if k == "bin":
            op = e[1]
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out = []
                for a, s1 in self.ev(e[2], st, depth):
                    for b, s2 in self.ev(e[3], s1, depth):
                        out.append(self.compare(op, a, b, s2, e))
                return out
            if op in ("&&", "||"):
                out = []
                for a, s1 in self.ev(e[2], st, depth):
                    a = self.truth(a)
                    if a is not None:
                        if a == (op == "||"):
                            out.append((a, s1))
                        else:
                            out += self.ev(e[3], s1, depth)
                    else:
                        out.append((op == "||", s1))
                        out += self.ev(e[3], s1, depth)
                return out
            if op in ("|", "&"):
                out = []
                for a, s1 in self.ev(e[2], st, depth):
                    for b, s2 in self.ev(e[3], s1, depth):
                        out.append((U, s2))
                return out
        if k == "un" and "++" in e[1] and strip(e[2]) and strip(e[2])[0] == "var" and strip(e[2])[1] in self.flags(self.fn):
            return [(U, self.assign(e[2], ("I", 1) if st[0] is not None else U, st))]
        if k == "un" and e[1] == "!":
            return [((None if self.truth(v) is None else (not self.truth(v))) if self.truth(v) is not None else U, s) for v, s in self.ev(e[2], st, depth)]
        if k == "un" and e[1] == "*":
            key = self.key(e)
            if key:
                v = dict(st[3]).get(key)
                if v is not None:
                    return [(v, st)]
        if k == "cond":
            out = []
            for c, s in self.ev(e[1], st, depth):
                c = self.truth(c)
                if c is not False:
                    out += self.ev(e[2], s, depth)
                if c is not True:
                    out += self.ev(e[3], s, depth)
            return out
        if k == "asg":
            out = []
            if e[1] != "=":
                for v, s in self.ev(e[3], st, depth):
                    nv = U
                    if e[1] in ("+=", "|="):  # a failure accumulated into a flag stays visible in it
                        old = dict(s[3]).get(self.key(e[2]))
                        isf = lambda x: isinstance(x, tuple) and x[0] in ("F", "F+", "F-")
                        pos = lambda x: isinstance(x, tuple) and x[0] == "I" and x[1] > 0
                        nv = v if isf(v) else old if isf(old) else ("I", 1) if s[0] is not None and (pos(v) or pos(old)) else U
                    out.append((nv, self.assign(e[2], nv, s)))
                return out
            for v, s in self.ev(e[3], st, depth):
                for _, s1 in (self.ev(e[2], s, depth) if self.interesting(e[2]) else [(U, s)]):
                    out.append((v, self.assign(e[2], v, s1)))
            return out
        if k == "stmtexpr":
            return [(U, st)]
        if k in ("call", "icall"):
            sts = [st]
            cs = ir.kids(e)
            argv = None
            name = e[2] if k == "call" else ""
            isrec = name.endswith("da_error_t::rec")
            for i, c in enumerate(cs):
                if self.interesting(c):
                    sts = [s for s0 in sts for _, s in self.ev(c, s0, depth)]
            if isrec:
                out = []
                for s0 in sts:
                    for v, s1 in self.ev(e[4][0], s0, depth):
                        # a recorded hard error is a failure of the function that records it
                        if s1[0] is None and isinstance(v, tuple) and v[0] == "C" and any((strip(a) or [""])[:2] == ["enum", "DA_ERROR"] for a in e[4]) and self.fn["ret"] in STATUS_T and self.discarded(e):
                            site = self.site(e, "recorded error " + str(v[1]).split("::")[-1], "record")
                            out.append((("F", site), (site, False, False, s1[3])))
                        else:
                            out.append((v, s1))
                return out
            if k == "call" and e[1].startswith("lambda@"):
                f = self.P.fns.get(e[1])
                if f is not None and depth < 4:
                    return [r for s0 in sts for r in self.inline(f, s0, depth + 1)]
            rt = e[6] if k == "call" else e[5]
            if k == "call":
                ia = self.info_arg(e)
                if ia is not None:
                    out = []
                    site = self.site(e, e[2], "info")
                    tgt = strip(e[4][ia])[2]
                    for s in sts:
                        out.append((U, self.assign(tgt, ("I", 0), s)))
                        if s[0] is None:
                            s = (site, False, False, s[3])
                            out.append((U, self.assign(tgt, ("F", site), s)))
                    return out
                os_ = self.out_status(e)
                if os_ and rt not in STATUS_T:
                    out = []
                    site = self.site(e, e[2], "outref")
                    for s in sts:
                        cur = self.key(os_[0][1])
                        curv = dict(s[3]).get(cur, U)
                        out.append((U, s))  # the callee leaves the status as it is
                        if s[0] is None:
                            s2 = (site, False, False, s[3])
                            for _, a in os_:
                                s2 = self.assign(a, ("F", site), s2)
                            out.append((U, s2))
                    return out
            if rt in STATUS_T:
                if not self.can_fail(self.fn, e):
                    return [(S, s) for s in sts]
                site = self.site(e, name or ir.show(e[1]), "call")
                out = []
                for s in sts:
                    out.append((S, s))
                    if s[0] is None:
                        out.append((("F", site), (site, False, False, s[3])))
                return out
            return [(U, s) for s in sts]
        sts = [st]
        for c in ir.kids(e):
            if c and self.interesting(c):
                sts = [s for s0 in sts for _, s in self.ev(c, s0, depth)]
        return [(U, s) for s in sts]

    def discarded(self, e):
        m = self._disc.get(self.fn["id"])
        if m is None:
            m = self._disc[self.fn["id"]] = {id(strip(x[1])) for x in ir.walk_stmts(self.fn.get("body") or []) if x and x[0] == "e" and strip(x[1])}
        return id(e) in m

    def site(self, e, callee, kind):
        k = (self.fn["id"], tbase(callee), ir.line_of(e), kind)
        self.sites[k] = True
        return (tbase(callee), ir.line_of(e), kind)

    def truth(self, v):
        if v is True or v is False:
            return v
        if v == S or v == "NULL":
            return False
        if v == NN:
            return True
        if isinstance(v, tuple) and v[0] in ("F", "C", "F+", "F-"):
            return True
        if isinstance(v, tuple) and v[0] == "I":
            return v[1] != 0
        return None

    def compare(self, op, a, b, st, e):
        isf = lambda v: isinstance(v, tuple) and v[0] in ("F", "F+", "F-")
        seen = isf(a) or isf(b)
        if seen and not st[1]:
            st = (st[0], True, st[2], st[3])
        zero = lambda v: v == S or v == ("I", 0)
        r = None
        if (isf(a) and zero(b)) or (isf(b) and zero(a)):
            f = a if isf(a) else b
            o = op
            if isf(b):
                o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if o == "==":
                r = False
            elif o == "!=":
                r = True
            elif f[0] == "F+":
                r = o in (">", ">=")
            elif f[0] == "F-":
                r = o in ("<", "<=")
        elif zero(a) and zero(b):
            r = op in ("==", "<=", ">=")
        elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "C" and b[0] == "C":
            if op == "==":
                r = a[1] == b[1]
            elif op == "!=":
                r = a[1] != b[1]
        elif (zero(a) and isinstance(b, tuple) and b[0] == "C") or (zero(b) and isinstance(a, tuple) and a[0] == "C"):
            if op in ("==", "!="):
                r = op == "!="
        elif isinstance(a, bool) and isinstance(b, bool) and op in ("==", "!="):
            r = (a == b) == (op == "==")
        elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "I" and b[0] == "I":
            r = {"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]
        elif op in ("==", "!=") and (a == NN and b == "NULL" or a == "NULL" and b == NN):
            r = op == "!="
        return (r if r is not None else U, st)

    def refine(self, e, want, st):
        """Narrow the state on a branch whose condition evaluated to unknown."""
        x = strip(e)
        if x and x[0] == "bin" and x[1] in ("==", "!=", "<", ">", "<=", ">="):
            for a, b, flip in ((x[2], x[3], False), (x[3], x[2], True)):
                key = self.key(a)
                if key is None:
                    continue
                c = strip(b)
                v = dict(st[3]).get(key)
                op = x[1]
                if flip:
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if isinstance(v, tuple) and v[0] == "F" and const_int(b) == 0 and op in ("<", ">", "<=", ">="):
                    pos = (op in (">", ">=")) == want
                    return self.assign(a, ("F+" if pos else "F-", v[1]), st)
                if v is None or v == U:
                    if c and c[0] == "enum" and c[1].startswith("da_status_") and op in ("==", "!="):
                        eq = (op == "==") == want
                        if eq:
                            return self.assign(a, S if c[1] == "da_status_success" else ("C", c[1]), st, quiet=True)
        if x and x[0] in ("var", "mem"):
            key = self.key(x)
            t = x[3] if x[0] == "var" else x[4]
            if key and t == "bool":
                return self.assign(x, want, st, quiet=True)
        return st

    def assign(self, lv, v, st, quiet=False):
        key = self.key(lv)
        fail, seen, carried, env = st
        isf = isinstance(v, tuple) and v[0] in ("F", "F+", "F-")
        if key is None:
            if isf or (isinstance(v, tuple) and v[0] == "C"):
                carried = True
            return (fail, seen, carried, env)
        d = dict(env)
        if fail is None and not self.seedmode and isinstance(v, tuple) and v[0] == "I" and v[1] != 0:
            v = U
        if v == U or v == "NULL" or v == NN and not self.seedmode or (isinstance(v, tuple) and v[0] == "I" and v[1] != 0 and not self.seedmode
                                                                      and key not in self.flags(self.fn)):
            d.pop(key, None)
        else:
            d[key] = v
        return (fail, seen, carried, frozenset(d.items()))

    def infos(self, fn):
        """Variables that receive a LAPACK-style info result."""
        r = self._infos.get(fn["id"])
        if r is None:
            r = self._infos[fn["id"]] = set()
            for e in ir.all_exprs(fn):
                if e[0] == "call":
                    i = self.info_arg(e)
                    if i is not None:
                        r.add(self.key(strip(e[4][i])[2]))
        return r

    def flags(self, fn):
        """Local integer variables that only ever hold literal constants (error flags)."""
        r = self._flags.get(fn["id"])
        if r is None:
            cand, bad = set(), set()
            for st in ir.walk_stmts(fn["body"]):
                if st[0] == "decl" and st[3] in ("int", "da_int", "long", "bool", "unsigned int", "unsigned long", "long long"):
                    if st[4] is None or const_int(st[4]) is not None or strip(st[4])[0] == "bool":
                        cand.add(st[1])
            for e in ir.all_exprs(fn):
                if e[0] == "asg":
                    t = strip(e[2])
                    if t and t[0] == "var" and (e[1] not in ("=", "+=", "|=") or e[1] == "=" and const_int(e[3]) is None and strip(e[3])[0] != "bool"):
                        bad.add(t[1])
                elif e[0] == "un" and ("--" in e[1] or e[1] == "&"):
                    t = strip(e[2])
                    if t and t[0] == "var":
                        bad.add(t[1])
                elif e[0] == "idx":
                    bad |= {x[1] for x in ir.walk(e[2]) if x[0] == "var"}
                elif e[0] == "bin" and e[1] not in ("==", "!=", "&&", "||") and not (e[1] in ("<", ">", "<=", ">=") and const_int(e[3]) is not None):
                    bad |= {x[1] for x in (strip(e[2]), strip(e[3])) if x and x[0] == "var"}
            r = self._flags[fn["id"]] = cand - bad
        return r

    def inline(self, f, st, depth):
        """Runs a lambda body with the captured variables shared."""
        out = []
        save = self.fn
        exits = self.run(f, st, depth)
        for v, s in exits:
            out.append((v, s))
        return out

    # -- path exploration ---------------------------------------------------------------------
    def run(self, f, st0, depth=0, sink=None):
        g = ir.cfg(f)
        seen = set()
        work = [(g.entry.id, st0)]
        exits = set()
        count = 0
        pernode = {}
        while work:
            nid, st = work.pop()
            if (nid, st) in seen:
                continue
            seen.add((nid, st))
            pernode[nid] = pernode.get(nid, 0) + 1
            if pernode[nid] > 4000:
                self.truncated.append((f["id"], nid))
                continue
            n = g.nodes[nid]
            if n.kind == "exit":
                exits.add((U, st))
                continue
            if n.kind == "ret":
                for v, s in (self.ev(n.e, st, depth) if n.e else [(U, st)]):
                    exits.add((v, s))
                    if sink is not None:
                        sink(n, v, s)
                for t, l in n.succ:
                    if l == "exc":
                        work.append((t, st))
                continue
            if n.kind == "br":
                rs = self.ev(n.e, st, depth)
                for v, s in rs:
                    b = self.truth(v)
                    for t, l in n.succ:
                        if l is True and b is not False:
                            work.append((t, s if b is not None else self.refine(n.e, True, s)))
                        elif l is False and b is not True:
                            work.append((t, s if b is not None else self.refine(n.e, False, s)))
                        elif l is None:
                            work.append((t, s))
                        elif l == "exc":
                            work.append((t, st))
                continue
            if n.kind == "sw":
                cases = [l[2] for t, l in n.succ if isinstance(l, tuple) and l[0] == "case"]
                for v, s in self.ev(n.e, st, depth):
                    if isinstance(v, tuple) and v[0] in ("F", "F+", "F-"):
                        s = (s[0], True, s[2], s[3])
                    for t, l in n.succ:
                        if l == "exc":
                            work.append((t, st))
                            continue
                        if l is None:
                            continue
                        if l[0] == "case":
                            ce = strip(l[2])
                            cs = ce and ce[0] == "enum" and ce[1].endswith("_success") and "status" in ce[1]
                            if v == S and not cs:
                                continue
                            if isinstance(v, tuple) and v[0] in ("F", "C") and cs:
                                continue
                            if isinstance(v, tuple) and v[0] == "C" and ce and ce[0] == "enum" and ce[1] != v[1]:
                                continue
                        work.append((t, s))
                continue
            if n.kind == "decl":
                s = n.stmt
                res = [(U, st)]
                if n.e is not None:
                    t = s[3]
                    if self.interesting(n.e) or t in STATUS_T or t == "bool" or s[1] in self.flags(self.fn) or self.seedmode:
                        res = self.ev(n.e, st, depth)
                else:
                    res = [(U, st)]
                for v, s1 in res:
                    t = s[3]
                    if True:
                        if t in STATUS_T or t == "bool" or s[1] in self.flags(self.fn) or self.seedmode:
                            s1 = self.assign(["var", s[1], s[2], t, "l"], v, s1)
                    for tt, l in n.succ:
                        work.append((tt, s1 if l != "exc" else st))
                continue
            if n.kind in ("e",) and n.e is not None:
                if self.interesting(n.e):
                    for v, s1 in self.ev(n.e, st, depth):
                        for tt, l in n.succ:
                            work.append((tt, s1 if l != "exc" else st))
                    continue
                k = n.e
            if n.kind == "e" and n.stmt and n.stmt[0] == "minit":
                pass
            if n.kind == "thr":
                for tt, l in n.succ:
                    work.append((tt, (st[0], st[1], True, st[3])))
                continue
            skip = len(n.succ) > 1 and n.kind == "ompb"  # some thread executes a single/master block
            for tt, l in n.succ[:1] if skip else n.succ:
                work.append((tt, st))
        return exits

    def check(self, f):
        """Yields (line, site, how) for each lost failure."""
        self.fn = f
        self._int, self._keep = {}, []
        has = any(e[0] in ("call", "icall") and ((e[6] if e[0] == "call" else e[5]) in STATUS_T or (e[0] == "call" and (self.info_arg(e) is not None or self.out_status(e)))) for e in ir.all_exprs(f))
        if not has:
            return []
        out = {}
        stat = f["ret"] in STATUS_T
        refs = {p[0] for p in f["params"] if p[2] in ("da_status_ &", "da_status_ *")}
        caps = "lam" in f

        def sink(n, v, s):
            self.final(f, n.line, v, s, stat, refs, caps, out)

        for v, s in self.run(f, (None, False, False, frozenset()), 0, sink):
            if not stat:
                self.final(f, f["end"], v, s, stat, refs, caps, out)
        return sorted(out.items(), key=lambda kv: kv[0])

    def final(self, f, line, v, s, stat, refs, caps, out):
        fail, seen, carried, env = s
        if fail is None:
            return
        if carried:
            return
        isf = lambda x: isinstance(x, tuple) and x[0] in ("F", "F+", "F-", "C")
        d = dict(env)
        if any(isf(x) and (k.startswith("this.") or k.startswith("*") or k in refs) for k, x in d.items()):
            return
        if stat:
            if v == S:
                out.setdefault((fail, "returns success" + (" after inspecting it" if seen else "")), line)
            return
        if caps and any(isf(x) for x in d.values()):
            return
        if seen:
            return
        if f["ret"] != "void" and isf(v):
            return
        out.setdefault((fail, "ignored in a function that reports no status"), line)
