"""Allocation failures end in a failure status (exception-effect analysis over the call graph).

1. Escape: every operation that allocates an amount depending on the data (new, make_unique, a
   container that is built with a size, copied, resized, reserved, assigned, appended to) is inside
   a try block that catches std::bad_alloc, in its own function or around every chain of calls from
   an entry point of the C interface; otherwise the exception leaves the library.
2. Parallel regions: no such exception can leave the structured block of an OpenMP construct (that
   terminates the process), helpers called there included.
3. Handlers: every path through a handler that catches allocation failures returns or stores a
   failure, rethrows, raises a flag that is tested after the region, or does the work by other
   means before it reports success.
"""
import re

import ir

GROW = {"resize", "reserve", "push_back", "emplace_back", "assign", "append", "insert", "emplace", "push", "push_front", "emplace_front"}
CONT = re.compile(r"^(std::(vector|deque|list|map|set|unordered_map|unordered_set|multimap|multiset)|da_vector::da_vector|std::discrete_distribution|std::piecewise_\w+_distribution|boost::random::discrete_distribution)<")
CATCHES = re.compile(r"^\.\.\.$|bad_alloc|std::exception\b|^const std::exception|\bexception &?$")
NOBLOCK = {"simd", "atomic", "barrier", "flush", "taskwait", "threadprivate", "ordered"}


def notpl(q):
    out, d = "", 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif not d:
            out += ch
    return out


def argt(args):
    out = []
    for a in args:
        x = ir.strip(a) if a else None
        while x and x[0] == "cast":
            x = ir.strip(x[3])
        out.append((ir.show(x) if x else "", (notpl(x[3] or ""), x[2]) if x and x[0] == "mem" else None))
    return out


def zero(e):
    return e is None or ir.const_int(ir.strip(e)) == 0


class Scan:
    """allocation sites and calls of one function, each with the constructs they are inside"""

    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.sites, self.calls, self.tries = [], [], []
        self.own, self.owner = {}, {}
        for i in fn.get("inits", ()):
            self.go(i[2], False, None)
        self.go(fn["body"], False, None)

    def site(self, line, kind, what, g, r):
        self.sites.append((line, kind, what, g, r))

    def go(self, n, g, r):
        """g: an allocation failure is caught in this function; r: line of the innermost OpenMP
        block that is between here and the handler (None when there is none)"""
        if not isinstance(n, list) or not n:
            return
        k = n[0]
        if isinstance(k, list):
            for c in n:
                self.go(c, g, r)
            return
        if k == "try":
            ok = any(CATCHES.search(h[0]) for h in n[2])
            self.tries.append(n)
            self.go(n[1], g or ok, None if ok else r)
            for h in n[2]:
                self.go(h[2], g, r)
            return
        if k == "omp" and len(n) > 3:
            rr = r if n[1] in NOBLOCK else n[4]
            if n[1] in NOBLOCK:
                self.go(n[3], g, r)
            else:
                # a handler outside the block does not help inside it
                self.go(n[3], False, rr)
            return
        if k == "lam":
            for c in n[2:]:
                self.go(c, g, r)
            return
        if k == "new":
            if not n[5]:
                self.site(n[6], "new", "[]" if n[2] else notpl(n[1]), g, r)
        elif k == "call" and isinstance(n[2], str):
            b = n[2].split("::")[-1].split("<")[0]
            if b in GROW and CONT.match(n[8] if len(n) > 8 and n[8] else n[2]) or b in GROW and CONT.match(n[2]):
                if not (b == "resize" and n[4] and zero(n[4][0])):
                    w = re.sub(r"\.operator\[\]\([^()]*\)|\[[^\[\]]*\]", "[]", ir.show(n[3])) if n[3] else ""
                    o = ir.strip(n[3]) if n[3] else None
                    if o and o[0] == "mem":
                        self.owner[(n[5], w)] = (notpl(o[3] or ""), o[2])
                    self.site(n[5], b, w, g, r)
                    self.own[(n[5], w)] = ir.show(n[4][0]) if n[4] and n[4][0] else ""
            else:
                for t in self.P.targets(n, None):
                    self.calls.append((t["id"], n[5], g, r, argt(n[4])))
        elif k == "ctor":
            if CONT.match(n[2]):
                a = [x for x in n[3] if x]
                if a and not zero(a[0]) and not (len(a) == 1 and moved(a[0])) and a[0][0] not in ("init",):
                    self.site(n[4], "constructed", "", g, r)
            for t in self.P.targets(n, None):
                self.calls.append((t["id"], n[4], g, r, argt(n[3])))
        elif k == "icall":
            for t in self.P.targets(n, None):
                self.calls.append((t["id"], n[4], g, r, argt(n[3])))
        for c in n[1:]:
            if isinstance(c, list):
                self.go(c, g, r)


def moved(e):
    e = ir.strip(e)
    if not e:
        return False
    if e[0] == "call" and e[2] in ("std::move", "std::forward"):
        return True
    if e[0] in ("ctor", "init"):
        return True
    if e[0] == "cast":
        return moved(e[3])
    if e[0] == "call" and not e[6].rstrip().endswith("&"):
        return True
    if e[0] == "var" and e[3].rstrip().endswith("&&"):
        return True
    return False


def failing(e, marked):
    e = ir.strip(e)
    if not e:
        return False
    if e[0] == "enum":
        return e[2] != 0
    if e[0] == "cast":
        return failing(e[3], marked)
    if e[0] == "cond":
        return failing(e[2], marked) and failing(e[3], marked)
    if e[0] == "call":
        b = e[2].split("::")[-1]
        if b == "rec":
            return bool(e[4]) and failing(e[4][0], marked)
        return any(a and failing(a, ()) for a in e[4] if a and ir.strip(a)[0] in ("enum",))
    if e[0] in ("var", "mem"):
        return ir.show(e) in marked
    if e[0] in ("int", "bool"):
        return True if e[0] == "int" and ir.const_int(e) != 0 else False
    if e[0] == "un" and e[1] == "-":
        return ir.const_int(e) not in (None, 0)
    return ir.is_null(e)


def reports(P, f):
    """a function without a result that can nevertheless tell its caller about a failure"""
    if "lam" in f:
        return True
    c = f.get("cls")
    return any(x[0] in ("err", "status") for q in ([c] + P.supers(c) if c else []) for x in (P.recs[q]["fields"] if q in P.recs else ()))


class Handler:
    """every path through a handler ends in failure"""

    def __init__(self, fn, h, read=()):
        self.fn, self.h, self.bad = fn, h, []
        # members, set here and read as a condition by the owner of the work
        self.members = {ir.show(e) for st in ir.walk_stmts(h[2]) for e0 in ir.stmt_exprs(st) for e in ir.walk(e0) if e[0] == "mem" and e[2] in read}
        c = ir.cfg(fn)
        start = [n for n in c.nodes if n.kind == "catch" and n.stmt is h]
        inside = {id(s) for s in ir.walk_stmts(h[2])}
        lo, hi = h[3], max([h[3]] + [ir.line_of(e) or 0 for s in ir.walk_stmts(h[2]) for e0 in ir.stmt_exprs(s) for e in ir.walk(e0)])
        self.c = c
        exprs = {id(e) for s in ir.walk_stmts(h[2]) for e in ir.stmt_exprs(s)}
        seen = set()
        todo = [(n.id, frozenset(), False) for n in start]
        self.found = bool(start)
        hstmts = inside
        while todo:
            nid, marked, work = todo.pop()
            if (nid, marked, work) in seen:
                continue
            seen.add((nid, marked, work))
            n = c.nodes[nid]
            if n.kind == "ret":
                if not (failing(n.e, marked) or n.e is None and marked or work or marked & self.members):
                    self.bad.append(n.line)
                continue
            if n.kind == "thr":
                continue
            if n.kind in ("e", "br", "decl") and n.e is not None:
                if id(n.e) not in exprs:
                    # left the handler
                    if not marked and not work:
                        self.bad.append(n.line)
                    elif marked and not self.tested(nid, marked):
                        self.bad.append(n.line)
                    continue
                x = ir.strip(n.e)
                for y in ir.walk(n.e):
                    if y[0] == "asg" and failing(y[3], marked) or y[0] == "asg" and y[1] == "=" and ir.strip(y[3])[0] in ("int", "bool"):
                        marked = marked | {ir.show(y[2])}
                    elif y[0] == "asg" and y[1] != "=":
                        marked = marked | {ir.show(y[2])}
                    elif y[0] == "un" and y[1] in ("++", "p++"):
                        marked = marked | {ir.show(y[2])}
                    elif y[0] == "call" and y[2].split("::")[-1] not in ("rec", "free", "operator=") and y[4]:
                        work = True
            elif n.kind == "exit":
                if not marked:
                    self.bad.append(n.line)
                continue
            for s, l in n.succ:
                if l != "exc":
                    todo.append((s, marked, work))

    def tested(self, nid, marked):
        """something marked is read on the way on"""
        seen, todo = set(), [nid]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            n = self.c.nodes[i]
            if n.kind in ("br", "ret", "sw", "e", "decl") and n.e is not None:
                for y in ir.walk(n.e):
                    if y[0] in ("var", "mem") and ir.show(y) in marked:
                        if not (n.kind == "e" and ir.strip(n.e)[0] == "asg" and ir.show(ir.strip(n.e)[2]) == ir.show(y) and ir.strip(n.e)[1] == "="):
                            return True
            todo.extend(s for s, l in n.succ)
        # reference parameters carry the status out
        names = {p[1] for p in self.fn["params"] if p[2].rstrip().endswith("&") or p[2].rstrip().endswith("*")}
        return any(m.lstrip("*") in names or m.startswith("this") or m in self.members for m in marked)


def run(ctx):
    P = ctx.P
    ctx.rule("escape: an allocation failure is caught before it leaves the C interface")
    ctx.rule("region: an allocation failure is caught inside the OpenMP block it happens in")
    ctx.rule("handler: a handler of an allocation failure ends in a failure")
    sc = {}
    for i, f in P.fns.items():
        if f.get("body") and "source/" in f["file"]:
            sc[i] = Scan(P, f)
    # A container that is given its size under a handler somewhere (a member: anywhere in its class;
    # a local: earlier in the function) is only refilled, trimmed or appended to within its capacity
    # by the other calls.
    memb = set()
    sized = {}
    for i, s in sc.items():
        z = sized.setdefault(i, {})
        for line, kind, what, g, r in s.sites:
            if g and kind in ("resize", "assign", "reserve") and what:
                z.setdefault(what, line)
                if (line, what) in s.owner:
                    memb.add(s.owner[(line, what)])
    callsto = {}
    for i, s in sc.items():
        for t, line, g, r, args in s.calls:
            callsto.setdefault(t, []).append((i, line, args))

    def presized(i, what, line, depth=0):
        """the container has its size already when line is reached"""
        if sized.get(i, {}).get(what, 1 << 30) < line:
            return True
        f = P.fns[i]
        if f.get("lam") in P.fns and presized(f["lam"], what, line, depth + 1) and depth < 3:
            return True
        for k, p in enumerate(f["params"]):
            if p[1] == what and p[2].rstrip().endswith("&") and depth < 3:
                cs = [c for c in callsto.get(i, ()) if k < len(c[2])]
                return bool(cs) and all(c[2][k][1] in memb or presized(c[0], c[2][k][0], c[1], depth + 1) for c in cs)
        return False

    nex = 0
    for i, s in sc.items():
        keep = []
        for t in s.sites:
            line, kind, what, g, r = t
            if not g and what and kind not in ("new", "constructed") and (
                    s.owner.get((line, what)) in memb or kind == "assign" and what + ".size()" in s.own.get((line, what), "") or presized(i, what, line)):
                nex += 1
                continue
            keep.append(t)
        s.sites = keep
    nsites = sum(len(s.sites) for s in sc.values())
    skip = ("da_errors::",)
    # ---- 1: escape sets, with one call chain per site
    esc = {}
    callers = {}
    for i, s in sc.items():
        for t, line, g, r, args in s.calls:
            callers.setdefault(t, []).append((i, line, g, r))
    work = []
    for i, s in sc.items():
        if P.fns[i]["q"].startswith(skip):
            continue
        e = esc.setdefault(i, {})
        for line, kind, what, g, r in s.sites:
            if not g and r is None:
                e[(i, line, kind, what)] = None
        if e:
            work.append(i)
    region = {}
    for i, s in sc.items():
        for line, kind, what, g, r in s.sites:
            if not g and r is not None and not P.fns[i]["q"].startswith(skip):
                region[(i, line, kind, what)] = (i, r)
    while work:
        t = work.pop()
        for i, line, g, r in callers.get(t, ()):
            if g:
                continue
            if r is not None:
                for s in esc[t]:
                    region.setdefault(s, (i, r))
                continue
            e = esc.setdefault(i, {})
            ch = False
            for s in esc[t]:
                if s not in e:
                    e[s] = t
                    ch = True
            if ch:
                work.append(i)
    rep = {}
    nent = 0
    for i, f in P.fns.items():
        if "C" not in f["fl"] or i not in sc:
            continue
        nent += 1
        for s in esc.get(i, ()):
            rep.setdefault(s, i)
    pub = 0
    done = set()
    for s, ent in sorted(rep.items(), key=lambda x: (P.fns[x[0][0]]["q"], x[0][1])):
        f = P.fns[s[0]]
        key = "%s|%s %s" % (notpl(f["q"]), s[2], notpl(s[3]))
        if (key, s[1]) in done:
            continue
        done.add((key, s[1]))
        chain, x = [], ent
        while x is not None and len(chain) < 8:
            chain.append(P.fns[x]["b"])
            x = esc[x].get(s)
        ctx.finding(key, ir.loc(f, s[1]), "a failed allocation (%s %s) is caught nowhere on the way %s" % (s[2], s[3], " > ".join(chain)))
    for s, (i, r) in sorted(region.items(), key=lambda x: (P.fns[x[0][0]]["q"], x[0][1])):
        f, o = P.fns[s[0]], P.fns[i]
        key = "%s|region %s %s" % (notpl(f["q"]), s[2], notpl(s[3]))
        if (key, s[1]) in done:
            continue
        done.add((key, s[1]))
        ctx.finding(key, ir.loc(f, s[1]), "a failed allocation (%s %s) leaves the OpenMP block at %s" % (s[2], s[3], ir.loc(o, r)))
    # ---- 3: handlers
    nh = 0
    read = set()
    for i in sc:
        for st in ir.walk_stmts(P.fns[i]["body"]):
            if st[0] == "if":
                for e in ir.walk(st[1]):
                    if e[0] == "mem":
                        read.add(e[2])
    for i, s in sc.items():
        f = P.fns[i]
        for t in s.tries:
            for h in t[2]:
                if not CATCHES.search(h[0]):
                    continue
                isctor = f["q"].split("::")[-1] == notpl(f.get("cls") or "").split("::")[-1]
                if f["ret"] == "void" and not isctor and not any(p[2].rstrip()[-1:] in "&*" and "const" not in p[2] for p in f["params"]) and not reports(P, f):
                    continue
                nh += 1
                hd = Handler(f, h, read)
                for b in hd.bad[:1]:
                    key = "%s|handler" % notpl(f["q"])
                    if (key, h[3]) in done:
                        continue
                    done.add((key, h[3]))
                    ctx.finding(key, ir.loc(f, h[3]), "the handler of an allocation failure lets the function go on as if nothing had happened (line %d)" % b)
    ctx.count("functions", len(sc))
    ctx.count("allocation sites", nsites)
    ctx.count("entry points of the C interface", nent)
    ctx.count("handlers", nh)
    ctx.count("refills of sized containers", nex)
    ctx.require(ctx.counts.get("allocation sites", 0) >= 550, "allocation sites")
    ctx.require(ctx.counts.get("handlers", 0) >= 150, "handlers")
    ctx.require(ctx.counts.get("entry points of the C interface", 0) >= 150, "entry points of the C interface")
