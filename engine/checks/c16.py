"""Everything random comes from the seed the user gave (path-sensitive typestate of every random
engine, with a provenance analysis of the seeds).

1. Every engine a number is drawn from was seeded on every path from the start of the call that
   draws to the draw; an engine kept in an object is seeded anew by every training call, so an
   earlier call leaves no trace in it.
2. What an engine is seeded with comes from the option or argument `seed` (through members,
   parameters, derived seeds drawn from a seeded engine), not from a constant.
3. A source of true randomness (std::random_device) is consulted only where that seed was found to
   be -1. rand, time and the like are not called, and no clock is read in a function that draws.
4. No number is drawn inside a parallel region from an engine shared by its threads, where the
   order of the draws would depend on the schedule.
"""
import re

import interp, ir

ENG = re.compile(r"(mersenne_twister|linear_congruential|subtract_with_carry|discard_block|shuffle_order|philox|xor_?shiro)\w*")
BANNED = {"rand", "random", "drand48", "lrand48", "mrand48", "time", "clock", "getpid", "gettimeofday", "clock_gettime", "rdtsc", "__rdtsc", "_rdrand32_step", "_rdrand64_step", "getrandom", "arc4random", "random_shuffle", "omp_get_wtime"}
TEAM = {"parallel", "parallel for", "parallel for simd", "task", "taskloop", "sections", "for"}


def basen(q):
    return re.sub(r"<.*", "", q).split("::")[-1] if not q.split("<")[0].endswith("::") else q.split("::")[-1]


def last(q):
    """unqualified name of a callee"""
    d = 0
    for i in range(len(q) - 1, 0, -1):
        if q[i] == ">" and q[i - 1] != "-":
            d += 1
        elif q[i] == "<":
            d -= 1
        elif d == 0 and q[i - 1:i + 1] == "::":
            return q[i + 1:].split("<")[0]
    return q.split("<")[0]


def strip(e):
    e = ir.strip(e)
    while e and e[0] == "cast":
        e = ir.strip(e[3])
    return e


def etype(e):
    return e[3] if e[0] == "var" else e[4] if e[0] == "mem" else ""


def engine(e):
    e = strip(e)
    return bool(e) and e[0] in ("var", "mem") and ENG.search(etype(e).replace("const ", "")[:60]) is not None and "distribution" not in etype(e)


def key(e):
    e = strip(e)
    return "v:" + e[1] if e[0] == "var" else "m:" + e[2]


def notpl(q):
    out, d = "", 0
    for ch in q:
        d += ch == "<"
        if not d:
            out += ch
        d -= ch == ">"
    return out


class Rng(interp.Interp):
    CAP = 16
    MAXDEPTH = 6

    def __init__(self, P, D):
        super().__init__(P)
        self.D, self.bad, self.draws, self.dev, self.seeds, self.written = D, {}, 0, {}, 0, {}

    def inline(self, fn, call, args, obj, st):
        return fn["id"] in self.D.touch and (obj is None or obj == ("&", "this->"))

    def bucket(self, st):
        return frozenset(f for f in st.must if f.startswith("seeded:"))

    def throws(self, e):
        return False

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = last(e[2])
        f = self.stack[-1]
        if e[3] is not None and engine(e[3]):
            if n == "seed":
                self.seeds += 1
                return [(interp.TOP, st.add("seeded:" + key(e[3])))]
            self.draw(strip(e[3]), e, st)
        if e[3] is not None and "random_device" in etype(strip(e[3])) and n in ("operator()", ""):
            ok = any(v == ("eq", -1) for v in st.ref.values()) or any(v == ("c", -1) and not k.startswith("R") for k, v in st.env.items())
            k = (f["id"], ir.line_of(e))
            self.dev[k] = self.dev.get(k, True) and ok
        for a in e[4]:
            for d in self.D.passed(a):
                self.draw(d, e, st)
        if targets and any(a and strip(a)[0] in ("var", "mem", "un") and j < len(targets[0]["params"]) and "const" not in targets[0]["params"][j][2] and targets[0]["params"][j][2].rstrip()[-1:] in "&*" for j, a in enumerate(e[4])):
            for a in e[4]:
                s2 = self.forget(a, st)
                if s2 is not st:
                    return [(interp.TOP, self.havoc(e, e[4], args, s2, obj, targets))]
        return None

    def forget(self, a, st):
        a = strip(a) if a else None
        while a and a[0] == "un" and a[1] == "&":
            a = strip(a[2])
        if a and a[0] in ("var", "mem") and a[2] in self.D.guards:
            return st.drop(lambda f: f.startswith(("eq:%s:" % a[2], "ne:%s:" % a[2])))
        return st

    def draw(self, d, e, st):
        f = self.stack[-1]
        if d[0] == "var" and (d[4] == "p" or d[3].rstrip().endswith("&")) or f.get("lam") and d[0] == "var":
            return
        self.draws += 1
        if "seeded:" + key(d) not in st.must:
            self.bad.setdefault((f["id"], key(d)), (ir.line_of(e), d))

    def on_write(self, place, e, val, st):
        n = place.split("->")[-1].split(".")[-1]
        if n in self.D.guards:
            return st.drop(lambda f: f.startswith(("eq:%s:" % n, "ne:%s:" % n)))
        return st

    def on_branch(self, e, val, taken, st):
        """what a member was found to be where it decides on seeding holds until it is written"""
        e = strip(e)
        if taken is True or taken is False:
            m, c, eq = None, None, taken
            if e[0] == "bin" and e[1] in ("==", "!="):
                for x, y in ((e[2], e[3]), (e[3], e[2])):
                    v = ir.const_int(strip(y))
                    if v is None and strip(y)[0] == "enum":
                        v = strip(y)[2]
                    if strip(x)[0] == "mem" and v is not None:
                        m, c = strip(x), v
                        eq = taken == (e[1] == "==")
            elif e[0] == "mem":
                m, c, eq = e, 0, not taken
            if m is None or m[2] not in self.D.guards:
                return st
        elif isinstance(taken, tuple) and taken[0] == "case" and e[0] == "mem" and e[2] in self.D.guards:
            m, c, eq = e, taken[1], True
        else:
            return st
        return self.know(m[2], c, eq, st)

    def know(self, n, c, eq, st):
        t = "eq:%s:" % n
        if eq:
            if any(f.startswith(t) and f != t + str(c) for f in st.must) or "ne:%s:%s" % (n, c) in st.must:
                return None
            return st.add(t + str(c))
        if t + str(c) in st.must:
            return None
        return st.add("ne:%s:%s" % (n, c))


class Draws:
    def __init__(self, P):
        self.P = P
        self.direct, self.touch = {}, set()
        callers = {}
        for i, f in P.fns.items():
            if not f.get("body") or "source/" not in f["file"]:
                continue
            for e in ir.all_exprs(f):
                if engine(e) and e[0] == "mem" or e[0] in ("var", "mem") and "random_device" in etype(e) or engine(e) and e[4] != "p":
                    self.direct.setdefault(i, []).append(e)
                if e[0] == "call":
                    for t in P.targets(e, None):
                        callers.setdefault(t["id"], set()).add((i, bool(e[3] is not None and strip(e[3])[0] == "this")))
        # what decides whether an engine is seeded
        self.guards = set()
        for i in self.direct:
            def go(s, names):
                if not s or not isinstance(s, list):
                    return
                if s[0] == "if":
                    names = names | {y[2] for y in ir.walk(s[1]) if y[0] in ("var", "mem")}
                    go(s[2], names)
                    go(s[3], names)
                    return
                if s[0] == "e" and s[1][0] == "call" and last(s[1][2]) == "seed" and engine(s[1][3]):
                    self.guards.update(names)
                for c in ir.substmts(s):
                    go(c, names)
            go(P.fns[i]["body"], frozenset())
        self.guards -= {"status", "seed"}
        # what can reach a draw on the same object, or a draw from a local engine
        self.touch = set(self.direct)
        todo = list(self.touch)
        while todo:
            t = todo.pop()
            for c, same in callers.get(t, ()):
                if same and c not in self.touch and P.fns[c].get("cls") and not P.fns[c].get("lam"):
                    self.touch.add(c)
                    todo.append(c)
        self.callers = callers

    def passed(self, a):
        """engines handed over by an argument, directly or inside a lambda"""
        if a is None:
            return []
        out = []
        s = strip(a)
        if engine(s):
            return [s]
        for y in ir.walk(a):
            if y[0] == "lam":
                g = self.P.fns.get(y[1])
                found = []
                for c in y[2:]:
                    for z in self.deep(c):
                        if engine(z):
                            found.append(strip(z))
                if g and g.get("body"):
                    for z in ir.all_exprs(g):
                        if engine(z):
                            found.append(strip(z))
                mem = [z for z in found if z[0] == "mem"]
                out += mem or found
        return out

    def deep(self, c):
        if isinstance(c, list):
            if c and isinstance(c[0], str) and c[0] in ("var", "mem") and len(c) > 4:
                yield c
            for x in c:
                yield from self.deep(x)


def provenance(P):
    """everything a seed given by the user reaches: members by class, variables by identity"""
    src, grown = set(), True
    fl = []  # (target keys, source expression)

    def k(e):
        e = strip(e)
        if not e:
            return None
        if e[0] == "var":
            return "v:" + e[1]
        if e[0] == "mem":
            return "m:%s.%s" % (notpl(e[3] or ""), e[2])
        if e[0] == "un" and e[1] in ("*", "&"):
            return k(e[2])
        if e[0] == "idx":
            return k(e[1])
        if e[0] == "call" and last(e[2]) in ("operator[]", "begin", "end", "data", "at", "get", "push_back") and e[3] is not None:
            return k(e[3])
        return None
    for i, f in P.fns.items():
        if not f.get("body") or "source/" not in f["file"]:
            continue
        if "C" in f["fl"]:
            for p in f["params"]:
                if p[1] == "seed":
                    src.add("v:" + p[0])
        for it in f.get("inits", ()):
            if it[1] and it[2]:
                fl.append(({"m:%s.%s" % (notpl(f.get("cls") or ""), it[1])}, it[2]))
        for s in ir.walk_stmts(f["body"]):
            if s[0] == "decl" and s[4]:
                fl.append(({"v:" + s[1]}, s[4]))
        for e in ir.all_exprs(f):
            if e[0] == "asg":
                t = k(e[2])
                if t:
                    fl.append(({t}, e[3]))
            elif e[0] in ("call", "ctor", "icall"):
                args = e[4] if e[0] == "call" else e[3]
                if e[0] == "call":
                    n = last(e[2])
                    if n == "get" and len(args) >= 2 and any(y[0] == "str" and y[1] == "seed" for y in ir.walk(args[0])):
                        t = k(args[1])
                        if t:
                            src.add(t)
                    if n in ("generate", "generate_n", "for_each", "transform", "iota") and args:
                        t = {k(a) for a in args[:2] if a} - {None}
                        fl.append((t, ["init", [args[-1]]] if False else args[-1]))
                for t in P.targets(e, None):
                    for j, p in enumerate(t["params"]):
                        if j < len(args) and args[j]:
                            fl.append(({"v:" + p[0]}, args[j]))

    def leaves(x, d=0):
        for y in ir.walk(x):
            if y[0] in ("var", "mem"):
                yield y
            elif y[0] == "lam" and d < 2:
                g = P.fns.get(y[1])
                if g and g.get("body"):
                    for z in ir.all_exprs(g):
                        if z[0] in ("var", "mem"):
                            yield z
    engines = set()
    table = []
    for tg, x in fl:
        ks = {k(y) for y in leaves(x)} - {None}
        eng = any(engine(y) for y in leaves(x))
        table.append((tg, ks, eng))
    while grown:
        grown = False
        for tg, ks, eng in table:
            if (eng or ks & src) and not tg <= src:
                src |= tg
                grown = True
    return src, k


def run(ctx):
    P = ctx.P
    ctx.rule("engines are seeded, from the user's seed, before every draw of the same call")
    ctx.rule("true randomness only for seed -1; no other source of chance")
    ctx.rule("no draw from a shared engine inside a parallel region")
    D = Draws(P)
    src, k = provenance(P)
    done = set()

    def find(key_, where, msg):
        if (key_, where) not in done:
            done.add((key_, where))
            ctx.finding(key_, where, msg)
    # ---- 1, 3: every path of every call that draws
    roots = [i for i in D.touch if not P.fns[i].get("lam") and not any(same and c in D.touch and c != i for c, same in D.callers.get(i, ()))]
    # public or virtual members can be called on their own
    for i in sorted(D.touch):
        f = P.fns[i]
        if i not in roots and "v" in f["fl"] and not f.get("lam"):
            roots.append(i)
    dev, ndraw, nseed = {}, 0, 0
    for i in sorted(roots):
        f = P.fns[i]
        I = Rng(P, D)
        I.dyncls = f.get("cls")
        I.run(f, interp.St())
        ndraw += I.draws
        nseed += I.seeds
        ctx.count("roots")
        ctx.sample("%s (%s)" % (notpl(f["q"]), ir.loc(f, f["line"])))
        for (j, kk), (line, d) in sorted(I.bad.items()):
            g = P.fns[j]
            find("%s|unseeded %s" % (notpl(g["q"]), d[2]), ir.loc(g, line), "a number is drawn from %s, which is not seeded on every path through %s to here: what is drawn depends on earlier calls or not on the seed" % (d[2], notpl(f["q"])))
        for kk, ok in I.dev.items():
            dev[kk] = dev.get(kk, True) and ok
    for (j, line), ok in sorted(dev.items()):
        ctx.count("random_device_reads")
        if not ok:
            g = P.fns[j]
            find("%s|random_device" % notpl(g["q"]), ir.loc(g, line), "a source of true randomness is consulted although the seed was not found to be -1")
    # every read of a random device was met
    for i, f in P.fns.items():
        if not f.get("body") or "source/" not in f["file"]:
            continue
        draws_here = i in D.direct
        g = ir.cfg(f) if i in D.touch or draws_here else None
        for e in ir.all_exprs(f):
            if e[0] != "call":
                continue
            n = last(e[2])
            if e[3] is not None and "random_device" in etype(strip(e[3])) and n == "operator()" and (i, ir.line_of(e)) not in dev:
                find("%s|random_device unreached" % notpl(f["q"]), ir.loc(f, ir.line_of(e)), "a source of true randomness is consulted in code no analysed call reaches")
            if n in BANNED and (e[2] == n or e[2].startswith(("std::", "::"))):
                find("%s|%s" % (notpl(f["q"]), n), ir.loc(f, ir.line_of(e)), "%s() makes results differ from run to run" % n)
            if n == "now" and draws_here:
                find("%s|clock" % notpl(f["q"]), ir.loc(f, ir.line_of(e)), "a clock is read where random numbers are drawn")
            # ---- 2
            if n == "seed" and e[3] is not None and engine(e[3]):
                ctx.count("engines_seeded_at")
                a = e[4][0] if e[4] else None
                ks = {k(y) for y in ir.walk(a) if y[0] in ("var", "mem")} if a else set()
                rd = a is not None and any(y[0] in ("var", "mem") and "random_device" in etype(y) for y in ir.walk(a))
                if not rd and not ks & src:
                    find("%s|seed value" % notpl(f["q"]), ir.loc(f, ir.line_of(e)), "the engine is seeded with %s, which does not come from the seed the user gave" % (ir.show(a) if a else "its default"))
        # ---- 4
        if g is None:
            continue
        for n in g.nodes:
            if n.e is None or not n.omp:
                continue
            regs = [g.nodes[b].stmt for b in n.omp]
            team = [o for o in regs if o[1] in TEAM]
            if not team or any(o[1] in ("single", "master", "masked") for o in regs):
                continue
            inner = {s[1] for o in team for s in ir.walk_stmts(o[3]) if s[0] == "decl"}
            for e in ir.walk(n.e):
                if e[0] != "call":
                    continue
                hit = []
                if e[3] is not None and engine(e[3]) and last(e[2]) != "seed":
                    hit.append(strip(e[3]))
                for a in e[4]:
                    hit += D.passed(a)
                hit = [h for h in hit if not (h[0] == "var" and h[1] in inner)]
                if hit:
                    find("%s|shared %s" % (notpl(f["q"]), hit[0][2]), ir.loc(f, ir.line_of(e)), "numbers are drawn from %s inside a parallel region that shares it: which thread gets which number depends on the schedule" % hit[0][2])
                elif e[3] is not None and strip(e[3])[0] == "this":
                    for t in P.targets(e, None):
                        if t["id"] in D.touch and any(x[0] == "mem" and engine(x) for x in members(P, D, t["id"])):
                            find("%s|shared through %s" % (notpl(f["q"]), notpl(t["q"]).split("::")[-1]), ir.loc(f, ir.line_of(e)), "%s draws from an engine of this object and is called inside a parallel region" % notpl(t["q"]))
    ctx.count("draws_met", ndraw)
    ctx.count("seedings_met", nseed)
    ctx.count("functions_that_can_draw", len(D.touch))
    ctx.count("values_derived_from_a_seed", len(src))
    c = ctx.counts
    ctx.require(c.get("roots", 0) >= 10, "calls that draw random numbers")
    ctx.require(c.get("draws_met", 0) >= 15, "draws")
    ctx.require(c.get("random_device_reads", 0) >= 8, "random devices")
    ctx.require(c.get("engines_seeded_at", 0) >= 10, "seedings")


def members(P, D, i, seen=None):
    seen = seen if seen is not None else set()
    if i in seen:
        return
    seen.add(i)
    for e in D.direct.get(i, ()):
        yield e
    for j in D.touch:
        if any(c == i and same for c, same in D.callers.get(j, ())):
            yield from members(P, D, j, seen)
