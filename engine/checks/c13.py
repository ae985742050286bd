"""Every block of raw memory has one owner, is released once and is not used afterwards.

Each function that allocates or releases raw memory (new, malloc, calloc, realloc, delete, free),
or calls a function of the library that does, is run path by path, following those helpers. The
state tracks for every block who holds it: a local, a member or object reached through a pointer
(then it is somebody else's to release), or nobody. Reported are: a block nobody holds at the end
of a path (leak), a second release, a use after the release, a release by the wrong operator, a
pointer left in an object although what it points to was released, an owning member overwritten
while it may still hold a block or never released by the destructor, and - for members that share
the block of an owning member - a path that releases it without either replacing the sharing
member or clearing every flag that guards its use.
"""
import os, time
import interp, ir
from ir import strip
from interp import TOP, NULL

ALLOC = {"malloc", "calloc", "strdup", "aligned_alloc", "posix_memalign"}
QUIET = ALLOC | {"free", "realloc", "memcpy", "strlen", "strcmp", "size", "empty", "length", "capacity", "c_str", "operator[]", "data", "get", "begin", "end",
                 "back", "front", "clear", "pop_back", "operator->", "operator*", "operator==", "operator!=", "operator++", "min", "max", "abs", "sqrt", "swap", "move", "fill"}
CONTAIN = {"push_back", "emplace_back", "insert", "emplace", "reset", "push", "operator=", "assign"}


def basen(q):
    return q.split("::")[-1]


def elem(x):
    """an element of an array or container chosen at run time"""
    x = strip(x)
    while x and x[0] in ("cast", "mem", "un"):
        x = strip(x[3] if x[0] == "cast" else x[1] if x[0] == "mem" else x[2])
    return bool(x) and (x[0] == "idx" or x[0] == "call" and basen(x[2]) in ("operator[]", "at", "front", "back"))


def elem_name(b):
    return "[" in b or b.startswith("r:")


def direct(f):
    for s in ir.walk_stmts(f["body"]):
        for x in ir.stmt_exprs(s):
            for e in ir.walk(x):
                if e[0] in ("new", "del"):
                    return True
                if e[0] == "call" and basen(e[2]) in ALLOC | {"free", "realloc"}:
                    return True
    return False


class Own(interp.Interp):
    CAP = 6
    MAXDEPTH = 5

    def __init__(self, P, touch, ctx):
        super().__init__(P)
        self.touch, self.ctx = touch, ctx
        self.bad, self.sites = {}, {}
        self.alias, self.own_members, self.kinds = {}, {}, {}
        self.cache, self.entry_rel = {}, set()

    def bucket(self, st):
        held = {f[4:] for f in st.must if f.startswith("own:")}
        by = frozenset((p, v[1]) for p, v in st.env.items() if len(v) > 1 and v[1] in held) if held else frozenset()
        return frozenset(f for f in st.must if f.startswith(("own:", "freed:"))), by

    def report(self, key, e, msg):
        f = self.stack[-1]
        k = "%s|%s" % (f["b"], key)
        self.bad.setdefault(k, (ir.loc(f, ir.line_of(e) or f["line"]), "%s: %s" % (f["b"], msg)))

    def inline(self, fn, call, args, obj, st):
        if fn.get("cls") and obj is not None and obj != ("&", "this->"):
            return False
        if any(f["id"] == fn["id"] for f in self.stack):
            return False  # the locals of a recursive call would share names with those of its caller
        return fn["id"] in self.touch

    def nm(self, v):
        """the block a pointer value names"""
        if v is None or v[0] not in ("s", "&") or v == TOP or v[1] in ("str", "?"):
            return None
        return v[1]

    def name(self, e):
        return ir.show(e)[:40]

    # ---- calls: a callee sees its arguments, its object and what they lead to ------------------
    def enter(self, fn, args, obj, st, lam=False):
        if lam:
            return super().enter(fn, args, obj, st, lam)
        vis = [v[1] for v in list(args) + [obj] if v and v[0] in ("ref", "&", "lv", "s")]
        vis = [x for x in vis if x.startswith("L")]
        seen = set()
        env = {k: v for k, v in st.env.items() if not k.startswith("L")}
        while vis:
            x = vis.pop()
            if x in seen:
                continue
            seen.add(x)
            for k, v in st.env.items():
                if k.startswith(x) and k not in env:
                    env[k] = v
                    if v[0] in ("ref", "&", "s") and v[1].startswith("L"):
                        vis.append(v[1])
        syms = {v[1] for v in list(env.values()) + [a for a in args if a] if len(v) > 1 and isinstance(v[1], str)}
        near = lambda b: b in syms or not b.startswith(("L", "r:", "new"))
        ref = {k: v for k, v in st.ref.items() if near(k)}
        must = frozenset(f for f in st.must if near(f.split(":", 1)[1]))
        pr = interp.St(env, ref, must, frozenset())
        key = (fn["id"], tuple(args), obj, pr.key(), len(self.stack))
        outs = self.cache.get(key)
        if outs is None:
            outs = self.cache[key] = super().enter(fn, args, obj, pr, lam)
        res = []
        fe = {k: v for k, v in st.env.items() if k not in env}
        fr = {k: v for k, v in st.ref.items() if k not in ref}
        fm = st.must - must
        held = {f.split(":", 1)[1] for f in st.must} | {v[1] for v in st.env.values() if len(v) > 1 and isinstance(v[1], str)}
        mine = {f.split(":", 1)[1] for f in pr.must} | syms
        for v, s in outs:
            # a block from a site that already gave one to the caller is another block
            new = {f.split(":", 1)[1] for f in s.must} | {x[1] for x in s.env.values() if len(x) > 1 and isinstance(x[1], str)}
            for b in sorted(x for x in new if x.startswith("new") and x in held and x not in mine):
                v, s = self.rename(b, b + "'", v, s)
            res.append((v, interp.St({**fe, **s.env}, {**fr, **s.ref}, s.must | fm, frozenset())))
        return res

    def rename(self, b, c, v, s):
        if b in self.sites:
            self.sites.setdefault(c, self.sites[b])
        nm = lambda x: c + x[len(b):] if isinstance(x, str) and (x == b or x.startswith(b) and x[len(b):len(b) + 1] in "-.[@") else x
        rv = lambda x: (x[0], nm(x[1])) + tuple(x[2:]) if x and len(x) > 1 else x
        env = {nm(k): rv(x) for k, x in s.env.items()}
        ref = {nm(k): x for k, x in s.ref.items()}
        must = frozenset(f.split(":", 1)[0] + ":" + nm(f.split(":", 1)[1]) for f in s.must)
        return rv(v), interp.St(env, ref, must, s.may)

    def havoc(self, e, argexprs, args, st, obj=None, ts=None):
        """a method leaves the members alone that nothing it calls writes"""
        s = super().havoc(e, argexprs, args, st, obj, ts)
        if s is st or obj != ("&", "this->") or not ts:
            return s
        mod = set()
        for t in ts:
            if t["id"] not in self.mods:
                return s
            mod |= self.mods[t["id"]]
        last = lambda p: p.split(".")[-1].split("@")[0].split("[")[0].split("-")[0]
        keep = lambda p: p.startswith("this->.") and last(p) not in mod
        env = dict(s.env)
        for k in list(env):
            if keep(k):
                if k in st.env:
                    env[k] = st.env[k]
                else:
                    del env[k]
        ref = {**s.ref, **{k: v for k, v in st.ref.items() if keep(k)}}
        return interp.St(env, ref, s.must, s.may)

    # ---- allocation -------------------------------------------------------------------------
    def ev(self, e, st):
        if e and e[0] == "new":
            out = []
            for v, s in super().ev(e, st):
                self.sites[v[1]] = (self.fn(), e[6], "new[]" if e[2] else "new", e[1])
                s = self.reborn(v[1], s)
                out.append((v, s.add("own:" + v[1])))
            return out
        if e and e[0] == "del":
            out = []
            for v, s in self.ev(e[1], st):
                s = self.release(v, "delete[]" if e[2] else "delete", e, s, e[1])
                if s is not None:
                    out.append((TOP, s))
            return out
        return super().ev(e, st)

    def reborn(self, b, st):
        if b in st.ref:
            st = interp.St(st.env, {k: x for k, x in st.ref.items() if k != b}, st.must, st.may)
        return st.drop(lambda f: f == "freed:" + b or f == "own:" + b)

    def release(self, v, how, e, st, expr):
        v = self.val(v, st)
        if v == NULL:
            return st
        b = self.nm(v)
        if b is None:
            return st
        self.ctx.count("releases")
        if elem(expr) or elem_name(b):
            # one of many: the index decides which, so nothing is remembered about it
            return st.drop(lambda f: f == "own:" + b)
        if b.startswith("this->.") and "@" not in b:
            self.entry_rel.add(b[7:])
        if "freed:" + b in st.must:
            self.report("double|" + self.name(expr), e, "releases %s a second time" % self.name(expr))
            return st
        if v[0] == "&" and not b.startswith("new:") and not b.startswith("this"):
            if not b.endswith("->"):
                self.report("notheap|" + self.name(expr), e, "releases %s, which was not allocated" % self.name(expr))
            return st
        site = self.sites.get(b)
        if site and (site[2], how) not in {("new", "delete"), ("new[]", "delete[]"), ("malloc", "free")}:
            self.report("kind|" + self.name(expr), e, "releases by %s a block allocated by %s at line %d" % (how, site[2], site[1]))
        x = strip(expr)
        if x[0] == "mem":
            self.kinds.setdefault((x[3], x[2]), {}).setdefault(how, (self.fn(), ir.line_of(e)))
        st = st.drop(lambda f: f == "own:" + b).add("freed:" + b)
        if b.startswith("this->."):
            st = st.add("gone:." + b[7:])
        return st

    def on_call(self, e, targets, args, obj, st):
        if e[0] == "ctor":
            # an object that takes the pointer keeps it
            if True:
                for v in args:
                    b = self.nm(self.val(v, st)) if v else None
                    if b:
                        st = st.drop(lambda f: f == "own:" + b)
                return [(("s", self.sym(e)), st)]
            return None
        n = basen(e[2]) if e[0] == "call" else "?"
        vals = [self.val(st.env.get(v[1], ("s", v[1])), st) if v and v[0] in ("ref", "lv") else self.val(v, st) if v else TOP for v in args]
        if e[0] == "call" and (obj is None or not targets):
            if n in ALLOC and n != "posix_memalign":
                b = "newm:%s:%s" % (self.fn()["id"][-40:], ir.line_of(e))
                self.sites[b] = (self.fn(), ir.line_of(e), "malloc", n)
                st = self.reborn(b, st)
                return [(NULL, st), (("s", b), st.setref(b, ("ne", frozenset([0]))).add("own:" + b))]
            if n == "posix_memalign" and vals[0][0] == "&":
                b = "newm:%s:%s" % (self.fn()["id"][-40:], ir.line_of(e))
                self.sites[b] = (self.fn(), ir.line_of(e), "malloc", n)
                s = self.write(vals[0][1], ("s", b), self.reborn(b, st)).setref(b, ("ne", frozenset([0]))).add("own:" + b)
                return [(("c", 12), st), (("c", 0), s)]
            if n == "free":
                s = self.release(vals[0], "free", e, st, e[4][0])
                return [(TOP, s)] if s is not None else []
            if n == "realloc":
                b = "newm:%s:%s" % (self.fn()["id"][-40:], ir.line_of(e))
                self.sites[b] = (self.fn(), ir.line_of(e), "malloc", n)
                old = self.nm(vals[0])
                if old and "freed:" + old in st.must:
                    self.report("double|" + self.name(e[4][0]), e, "reallocates %s, which was released" % self.name(e[4][0]))
                if old == b:
                    # grown again: the block keeps its name
                    return [(NULL, st), (("s", b), st.setref(b, ("ne", frozenset([0]))))]
                s = self.reborn(b, st)
                if old:
                    s = s.drop(lambda f: f == "own:" + old).add("freed:" + old)
                return [(NULL, st), (("s", b), s.setref(b, ("ne", frozenset([0]))).add("own:" + b))]
        if n == "rec" and targets and "da_status" in targets[0]["ret"]:
            # recording an error hands back the status it was given
            for v, p in zip(vals, targets[0]["params"]):
                if "da_status" in p[2] and v[0] == "c" and v[1] != 0:
                    return [(v, self.havoc(e, e[4], args, st, obj, targets))]
        for a, v in zip(e[4] if e[0] == "call" else [], vals):
            b = self.nm(v)
            if b and "freed:" + b in st.must:
                self.report("uaf|" + self.name(a), e, "passes %s on after the block was released" % self.name(a))
        took = [v for j, v in enumerate(vals) if self.nm(v) and "own:" + self.nm(v) in st.must and any((t["id"], j) in self.keeps for t in targets)]
        if took and not (len(targets) == 1 and self.inline(targets[0], e, args, obj, st)):
            # the callee keeps the block; one that reports a status keeps it only when it succeeds
            s = self.havoc(e, e[4], args, st, obj, targets)
            t = s.drop(lambda f: any(f == "own:" + self.nm(v) for v in took))
            if targets[0]["ret"].endswith("da_status"):
                sy = self.sym(e)
                return [(("i", 0), t), (("s", sy), s.setref(sy, ("ne", frozenset([0]))))]
            return [(("s", self.sym(e)), t)]
        if n in CONTAIN and obj is not None and (not targets or targets[0]["b"].startswith("std::")):
            for v in vals:
                b = self.nm(v)
                if b:
                    st = st.drop(lambda f: f == "own:" + b)
            return [(("s", self.sym(e)), self.havoc(e, e[4], args, st, obj, targets))]
        return None

    def on_deref(self, val, e, st, write):
        v = self.val(val, st)
        b = self.nm(v) if v[0] == "s" or (self.nm(v) or "").startswith("new") else None
        if b and "freed:" + b in st.must:
            self.report("uaf|" + self.name(e[1] if e[0] in ("mem", "idx") else e[2]), e, "uses %s after the block was released" % self.name(e[1] if e[0] in ("mem", "idx") else e[2]))
        return st

    def throws(self, e):
        return may_throw(self.P, e, self.nothrow)

    def on_branch(self, e, val, taken, st):
        """a value that is not the one enumerator of two is the other"""
        x = strip(e)
        while x and x[0] == "un" and x[1] == "!":
            x = strip(x[2])
        if x and x[0] == "bin" and x[1] in ("==", "!="):
            for a in (x[2], x[3]):
                a = strip(a)
                other = self.pairs.get((a[1].split("::")[-1], a[2])) if a[0] == "enum" else None
                if other is not None:
                    for k, v in st.ref.items():
                        if v == ("ne", frozenset([a[2]])):
                            st = st.setref(k, ("eq", other))
        return st

    def on_write(self, place, e, val, st):
        if place is None:
            return st
        v = self.val(val, st) if val else TOP
        b = self.nm(v)
        outer = "->" in place or not place.startswith("L") or elem_name(place)
        if outer and b and "own:" + b in st.must:
            st = st.drop(lambda f: f == "own:" + b)
            site = self.sites.get(b)
            f0 = self.stack[0]
            if place.startswith("this->."):
                m = place[7:]
                if "." not in m and "[" not in m:
                    self.own_members.setdefault((f0.get("cls"), m), (self.fn(), ir.line_of(e) if e else 0, site[2] if site else "?"))
            # what was there before?
            old = self.val(st.env.get(place, ("s", place)), st)
            if self.lost and "K" not in f0["fl"] and place.startswith("this->.") and "[" not in place and old == ("s", place) and "freed:" + place not in st.must and self.truth(old, st) is not False:
                self.report("lost|" + place[7:], e, "puts a new block into %s although it may still hold one" % place[7:])
        return st

    def dull(self, p):
        """a member that neither holds a block nor decides whether one is allocated or released"""
        if not p.startswith("this->."):
            return False
        return p.split(".")[-1].split("@")[0].split("[")[0] not in self.relevant

    def rsym(self, sym, op, n, st):
        if self.dull(sym) or sym.startswith("size:"):
            return st
        return super().rsym(sym, op, n, st)

    def write(self, p, v, st):
        if self.dull(p) and not (self.nm(v) or "").startswith("new"):
            return st
        old = st.env.get(p, ("s", p))
        st = super().write(p, v, st)
        b = self.nm(old)
        if b and "freed:" + b in st.must and st.env.get(p) not in (None, old) and not any(x == old for x in st.env.values()):
            # nothing refers to the released block any more
            st = st.drop(lambda f: f == "freed:" + b or f.startswith("freed:" + b + "->"))
            if b in st.ref:
                st = interp.St(st.env, {k: x for k, x in st.ref.items() if k != b}, st.must, st.may)
        return st

    # ---- the end of a path ---------------------------------------------------------------------
    def on_exit(self, fn, node, val, st):
        if len(self.stack) > 1:
            return st
        r = self.nm(self.val(val, st)) if val else None
        e = node.e if node.e is not None else None
        for f in sorted(st.must):
            if f.startswith("own:"):
                b = f[4:]
                if b == r or (val and val[0] == "s" and val[1] == b):
                    continue
                q = st.ref.get(b)
                if q and q[0] == "eq":
                    continue
                site = self.sites[b]
                if site[0]["id"] != fn["id"] and not site[0].get("lam") and (site[2] == "malloc" or site[0]["id"] in self.recursive or fn["id"] in self.passes):
                    continue  # judged where it is allocated
                w = "line %s" % ir.line_of(e) if e is not None and ir.line_of(e) else "end"
                self.report("leak|%s|%s" % (site[0]["b"], site[3]), e or ["x"], "path ending at %s loses the block allocated by %s at %s" % (w, site[2], ir.loc(site[0], site[1])))
        if "D" in fn["fl"]:
            return st
        for o, m in sorted(self.views) if self.lost else ():
            # a member that points into the released block and still has its entry value
            if "gone:." + o in st.must and "this->." + m not in st.env and self.truth(("s", "this->." + m), st) is not False:
                self.report("view|" + m, e or ["x"], "releases %s and leaves %s pointing into it" % (o, m))
        for f in sorted(st.must):
            if f.startswith("freed:"):
                b = f[6:]
                gone = tuple(x[6:] + "->" for x in st.must if x.startswith("freed:"))
                if b.startswith(gone):
                    continue
                for p, v in st.env.items():
                    if p.startswith("new"):
                        continue
                    if v in (("s", b), ("&", b)) and ("->" in p or not p.startswith("L")) and not p.startswith(gone):
                        self.report("dangle|" + p, e or ["x"], "leaves the released block in %s" % self.show(p))
                if b not in st.env and ("->" in b or not b.startswith("L")) and not b.startswith("new") and "@" not in b:
                    self.report("dangle|" + b, e or ["x"], "leaves the released block in %s" % self.show(b))
        return st

    def show(self, p):
        import re
        return re.sub(r"#[\d.p]*", "", p.replace("this->.", "")).lstrip("L")


def run(ctx):
    P, db = ctx.P, ctx.db
    ctx.rule("ownership typestate of raw blocks on every path")
    fns = [f for f in db.fns.values() if f.get("body") and "_Float16" not in f["id"] and not f["b"].startswith("kh_") and "da_vector::" not in f["b"] and not f["file"].endswith(".c")]
    touch = {f["id"] for f in fns if direct(f)}
    ids = {f["id"]: f for f in fns}
    # helpers that hand a block out or release one through their arguments, and their callers
    callers = {}
    for f in fns:
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call" and c[1] in ids and c[1] != f["id"]:
                        callers.setdefault(c[1], set()).add(f["id"])
    hands = lambda f: f["ret"].rstrip().endswith("*") or any(p[2].replace(" ", "").endswith(("**", "*&")) for p in f["params"])
    work = [i for i in touch if hands(ids[i])]
    direct_ = set(touch)
    while work:
        for i in callers.get(work.pop(), ()):
            if i not in touch and hands(ids[i]) and "lam" not in ids[i]:
                touch.add(i)
                work.append(i)
    roots = touch | {i for t in touch for i in callers.get(t, ())}
    ctx.count("functions_that_allocate_or_release", len(touch))
    # methods that reach one of those on the same object, and methods something outside the class calls
    own, entry = {}, set()
    for f in fns:
        cl = (f.get("cls") or "").split("<")[0]
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call":
                        for t in P.targets(c):
                            if c[3] is not None and strip(c[3])[0] == "this" or f.get("lam"):
                                own.setdefault(f["id"], set()).add(t["id"])
                            else:
                                entry.add(t["id"])
    mods = modsets(P, fns)
    quiet = nothrow(P, fns)
    keeps = keepers(P, fns)
    releasing = {f["cls"].split("<")[0] for f in fns if "D" in f["fl"] and any(x[0] == "del" or x[0] == "call" and x[2] == "free" for s in ir.walk_stmts(f["body"]) for y in ir.stmt_exprs(s) for x in ir.walk(y))}
    gives = keepers(P, fns, releasing | {c for r in releasing for c in P.subclasses(r)})
    recursive, passes = set(), set()
    for f in fns:
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call":
                        for t in P.targets(c):
                            if t["id"] == f["id"]:
                                recursive.add(f["id"])
                            if any((t["id"], j) in gives for j in range(len(c[4]))):
                                passes.add(f["id"])
    relevant = set()

    def names(e):
        for x in ir.walk(e):
            if x[0] == "mem":
                relevant.add(x[2])

    def scan(s, conds):
        """names in the conditions around allocations and releases"""
        if not s or not isinstance(s, list):
            return
        hit = False
        if s[0] == "if":
            conds = conds + [s[1]]
        elif s[0] in ("while", "switch"):
            conds = conds + [s[1]]
        for x in ir.stmt_exprs(s):
            for e in ir.walk(x):
                if e[0] in ("new", "del") or e[0] == "call" and (basen(e[2]) in ALLOC | {"free", "realloc"} or e[1] in touch):
                    hit = True
                    if e[0] == "del":
                        names(e[1])
                if e[0] == "asg" and e[5].rstrip().endswith("*"):
                    names(e[2])
        if hit:
            for c in conds:
                names(c)
        for y in ir.substmts(s):
            scan(y, conds)

    for i in touch:
        scan(ids[i]["body"], [])
    for r in db.recs.values():
        for x in r["fields"]:
            if x[1].rstrip().endswith("*"):
                relevant.add(x[0])
    reach = set(touch)
    while True:
        more = {i for i, ts in own.items() if i not in reach and ts & reach and ids[i].get("cls")}
        if not more:
            break
        reach |= more
    roots |= reach
    views = {}
    for f in fns:
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for c in ir.walk(x):
                    if c[0] == "call" and basen(c[2]) == "store_2D_array":
                        mm = [strip(strip(a)[2]) for a in c[4] if strip(a)[0] == "un" and strip(a)[1] == "&"]
                        mm = [m[2] for m in mm if m[0] == "mem" and strip(m[1])[0] == "this"]
                        if len(mm) == 2:
                            views.setdefault(f.get("cls"), set()).add(tuple(mm))
    ctx.count("owner_view_member_pairs", sum(len(v) for v in views.values()))
    inner = {t for i, ts in own.items() for t in ts if i != t}
    jobs = [i for i in sorted(roots) if "lam" not in ids[i]]

    pairs = {}
    for d in db.enums.values():
        if len(d["vals"]) == 2 and d["vals"][0][1] != d["vals"][1][1]:
            (a, x), (b, y) = d["vals"]
            pairs[(a.split("::")[-1], x)], pairs[(b.split("::")[-1], y)] = y, x

    def one(i):
        f, c = ids[i], Count()
        t = time.time()
        I = Own(P, touch | reach, c)
        I.relevant, I.mods, I.pairs, I.nothrow, I.keeps = relevant, mods, pairs, quiet, keeps
        I.recursive, I.passes = recursive, passes
        I.lost = i not in inner or i in entry
        I.dyncls = f.get("cls")
        I.views = {v for c in [f.get("cls")] + list(P.supers(f["cls"]) if f.get("cls") else []) for v in views.get(c, ())}
        init = {"L" + p[0]: ("ref", "out:%s->" % p[1]) for p in f["params"] if p[2].replace(" ", "").endswith("*&")}
        outs = I.run(f, interp.St(init))
        c.count("paths", len(outs))
        if "D" in f["fl"]:
            I.entry_rel |= {"~" + m for m in I.entry_rel}
        return c.n, sorted(I.bad.items()), [(k, (v[0]["id"], v[1], v[2])) for k, v in I.own_members.items()], [(k, {h: (x[0]["id"], x[1]) for h, x in v.items()}) for k, v in I.kinds.items()], (f.get("cls"), I.entry_rel - {m for c, m in I.own_members}, mixed(f))

    members, kinds, bad = {}, {}, {}
    rel, mix = {}, {}
    for n, b, m, k, (cl, er, mx) in pool(one, jobs):
        rel.setdefault(cl, set()).update(er)
        mix.setdefault(cl, set()).update(mx)
        ctx.count("functions_run")
        for c, x in n.items():
            ctx.count(c, x)
        for key, v in b:
            bad.setdefault((cl, key), v)
        for key, v in m:
            members.setdefault(key, v)
        for key, v in k:
            kinds.setdefault(key, {}).update(v)
    for (cl, k), (w, m) in sorted(bad.items(), key=lambda x: str(x)):
        rule, what = k.split("|")[1:3]
        if rule in ("lost", "dangle") and (what.startswith("this->.") or rule == "lost"):
            # matters only for a member some method takes to hold a block when it starts
            what = what.replace("this->.", "")
            fam = {cl} | set(P.supers(cl)) | set(P.subclasses(cl)) if cl else {cl}
            if not any(what in rel.get(c, ()) for c in fam):
                continue
            if rule == "lost" and any(what in mix.get(c, ()) for c in fam):
                continue
        ctx.finding(k, w, m)
    # what a member may own: released the way it is allocated, and by the destructor
    match = {"new": "delete", "new[]": "delete[]", "malloc": "free"}
    for (cl, m), (site, line, kind) in sorted(members.items(), key=str):
        fam = [cl] + list(P.supers(cl)) if cl else []
        if not fam or kind not in match:
            continue
        ctx.count("owning_members")
        for c in fam:
            for how, (i, ln) in sorted(kinds.get((c, m), {}).items()):
                if how != match[kind]:
                    ctx.finding("%s|kind|%s" % (ids[i]["b"], m), ir.loc(ids[i], ln), "%s: releases by %s the member %s, which is allocated by %s at %s" % (ids[i]["b"], how, m, kind, ir.loc(ids[site], line)))
        if not any("~" + m in rel.get(c, ()) for c in fam):
            ctx.finding("%s|dtor|%s" % (cl, m), ir.loc(ids[site], line), "%s: no destructor releases the member %s, which may hold the block allocated here" % (cl, m))
    return members, kinds


def keepers(P, fns, owned=None):
    """parameters whose pointer a function stores away: in an object, a member or a container; with
    owned, only those handed to an object of a class that releases what it holds"""
    def plain(e):
        e = strip(e)
        while e and e[0] == "cast":
            e = strip(e[3])
        return e[1] if e and e[0] == "var" else None

    out, pend = set(), []
    for f in fns:
        ix = {p[0]: j for j, p in enumerate(f["params"]) if p[2].replace(" ", "").rstrip().endswith("*")}
        if owned is not None:
            ix = {v: j for v, j in ix.items() if "const" not in f["params"][j][2]}
        if not ix:
            continue
        es = [x for s in ir.walk_stmts(f["body"]) for x in ir.stmt_exprs(s)] + [["asg", "=", ["mem", ["this"], i[1], "", ""], i[2], 0, ""] for i in f.get("inits") or [] if i[0] == "m"]
        for x in es:
            for e in ir.walk(x):
                if e[0] == "ctor":
                    if owned is None or e[2].split("<")[0] in owned:
                        out |= {(f["id"], ix[plain(a)]) for a in e[3] if plain(a) in ix}
                elif owned is None and e[0] == "asg" and plain(e[3]) in ix and strip(e[2])[0] in ("mem", "idx", "un"):
                    out.add((f["id"], ix[plain(e[3])]))
                elif e[0] == "call":
                    ts = P.targets(e)
                    for j, a in enumerate(e[4]):
                        if plain(a) in ix:
                            if owned is None and basen(e[2]) in CONTAIN and e[3] is not None and not ts:
                                out.add((f["id"], ix[plain(a)]))
                            pend += [((f["id"], ix[plain(a)]), (t["id"], j)) for t in ts]
    while True:
        more = {a for a, b in pend if b in out and a not in out}
        if not more:
            return out
        out |= more


def mixed(f):
    """members that are also pointed at memory of others"""
    out = set()
    for s in ir.walk_stmts(f["body"]):
        for x in ir.stmt_exprs(s):
            for e in ir.walk(x):
                if e[0] == "asg" and strip(e[2])[0] == "mem" and e[5].rstrip().endswith("*"):
                    r = strip(e[3])
                    while r[0] == "cast":
                        r = strip(r[3])
                    if r[0] in ("mem", "var", "un", "bin", "cond"):
                        out.add(strip(e[2])[2])
    return out


def may_throw(P, e, quiet):
    for x in ir.walk(e):
        if x[0] in ("thr", "icall") or x[0] == "new" and not x[5]:
            return True
        if x[0] == "ctor" and x[1] not in quiet:
            return True
        if x[0] == "call" and not (basen(x[2]) in QUIET and not P.targets(x)):
            ts = P.targets(x)
            if not ts or any(t["id"] not in quiet for t in ts):
                return True
    return False


def nothrow(P, fns):
    """functions that raise no exception: nothing in them, or in what they call, does"""
    quiet = {f["id"] for f in fns}
    es = {f["id"]: [x for s in ir.walk_stmts(f["body"]) for x in ir.stmt_exprs(s)] for f in fns}
    while True:
        bad = {i for i in quiet if any(may_throw(P, e, quiet) for e in es[i])}
        if not bad:
            return quiet
        quiet -= bad


def modsets(P, fns, owner=None):
    """members each function may write, itself or through what it calls"""
    mods, callees = {}, {}
    for f in fns:
        m, cs = set(), set()
        for s in ir.walk_stmts(f["body"]):
            for x in ir.stmt_exprs(s):
                for e in ir.walk(x):
                    if e[0] == "asg":
                        m |= {y[2] for y in ir.walk(e[2]) if y[0] == "mem" and (owner is None or (y[3] or "").split("<")[0] in owner)}
                    elif e[0] == "un" and e[1] in ("++", "p++", "--", "p--", "&"):
                        m |= {y[2] for y in ir.walk(e[2]) if y[0] == "mem" and (owner is None or (y[3] or "").split("<")[0] in owner)}
                    elif e[0] in ("call", "ctor", "icall"):
                        args = e[4] if e[0] == "call" else e[3]
                        ts = P.targets(e) if e[0] == "call" else []
                        for i, a in enumerate(args):
                            t = ts[0]["params"][i][2] if ts and i < len(ts[0]["params"]) else "&"
                            if "&" in t and not t.startswith("const "):
                                m |= {y[2] for y in ir.walk(a) if y[0] == "mem" and (owner is None or (y[3] or "").split("<")[0] in owner)}
                        if e[0] == "call":
                            if e[3] is not None and not ts:
                                m |= {y[2] for y in ir.walk(e[3]) if y[0] == "mem" and (owner is None or (y[3] or "").split("<")[0] in owner)}
                            cs |= {t["id"] for t in ts}
        mods[f["id"]], callees[f["id"]] = m, cs
    ch = True
    while ch:
        ch = False
        for i, cs in callees.items():
            for c in cs:
                x = mods.get(c)
                if x and not x <= mods[i]:
                    mods[i] |= x
                    ch = True
    return mods


class Count:
    def __init__(self):
        self.n = {}

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n


_one = None


def _call(j):
    return _one(j)


def pool(fn, jobs, w=6):
    """forked workers: the program is shared, not copied"""
    global _one
    _one = fn
    import multiprocessing as mp
    if len(jobs) < 3:
        return [fn(j) for j in jobs]
    with mp.get_context("fork").Pool(w) as p:
        return p.map(_call, jobs, chunksize=1)
