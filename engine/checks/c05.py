"""User arguments are validated before they are used.

 1. A pointer given to a public function is dereferenced, or handed to a routine outside the
    library, only on paths where it is known not to be null. Functions it is passed on to are
    summarised: which pointers they use unchecked, and what holds when they report success.
 2. Each documented constraint on an integer argument (a lower bound; a leading dimension at
    least the rows for column-major and the columns for row-major data; a feature count equal to
    the one the model was built with) is established on every path that reports success, except
    when an optional array is null. The constraints are read from the public headers.
"""
import re
import interp, ir, lin
from ir import strip
from interp import TOP

SUFFIX = ["_real_d", "_real_s", "_string_key", "_string", "_uint8", "_str", "_int", "_d", "_s"]
INTS = ("int", "long", "da_int", "long long")
ORDER = "da_order_"


def isptr(t):
    t = t.rstrip()
    while t.endswith("const"):
        t = t[:-5].rstrip()
    return t.endswith("*")


class Null(lin.Linear):
    MAXDEPTH = 6
    CAP = 24
    NULLOK = ("operator==", "operator!=", "free", "isnan", "operator<<")

    def __init__(self, P, S):
        super().__init__(P)
        self.S = S
        self.bad = {}

    def tracked(self, v):
        return v is not None and v[0] == "s" and v[1].startswith("ARG:")

    def rvv(self, v, st):
        if v and v[0] in ("ref", "lv"):
            v = st.env.get(v[1], ("s", v[1]))
        if v and v[0] == "lin":
            for x, k in v[1]:
                if x.startswith("ARG:") and k == 1:
                    return ("s", x)  # a position within the array
        return v

    def bucket(self, st):
        return tuple(sorted(f for f in st.must if f.startswith("ord|"))) + tuple(sorted((k, r[0]) for k, r in st.ref.items() if k.startswith("ARG:") and (r == ("eq", 0) or r == ("ne", frozenset([0])) and len(self.stack) <= 1)))

    def cmp(self, op, a, b, st):
        r = super().cmp(op, a, b, st)
        if r is not None:
            return r
        la, lb = lin.lin(self.val(a, st)), lin.lin(self.val(b, st))
        if la and lb and any(s.startswith("N:") for s, c in la[0] + lb[0]):
            d, n = lin.add(lb, la, -1), lin.add(la, lb, -1)
            if op == "<":
                if self.holds(st, (d[0], d[1] - 1)):
                    return True
                if self.holds(st, n):
                    return False
            if op == ">":
                return self.cmp("<", b, a, st)
            if op == ">=":
                r = self.cmp("<", a, b, st)
                return None if r is None else not r
            if op == "<=":
                r = self.cmp("<", b, a, st)
                return None if r is None else not r
        return None

    def rep(self, v, e, what, st):
        if not self.tracked(v):
            return
        self.S.uses += 1
        if self.truth(v, st) is True:
            return
        f = self.stack[-1]
        self.bad.setdefault(v[1][4:], (ir.loc(f, ir.line_of(e) or f["line"]), what))

    def on_deref(self, v, e, st, write):
        v = self.rvv(v, st)
        if self.tracked(v):
            if self.truth(v, st) is False:
                return None
            self.rep(v, e, "dereferences it", st)
            if self.truth(v, st) is None:
                return st.setref(v[1], ("ne", frozenset([0])))
        return st

    def on_branch(self, e, v, taken, st):
        """An enumeration has no other values than its enumerators; the storage order is remembered."""
        for x in ir.walk(e):
            if x[0] in ("var", "mem"):
                t = self.etype(x).replace("const ", "")
                d = self.S.domain.get(t)
                if not d:
                    continue
                for q, r in st.ref.items():
                    if q not in repr(v):
                        continue
                    if r[0] == "ne" and d <= r[1]:
                        return None
                    if t == ORDER:
                        left = {r[1]} if r[0] == "eq" else d - r[1]
                        if len(left) == 1:
                            k = "ord|%d" % next(iter(left))
                            if any(f.startswith("ord|") and f != k for f in st.must):
                                return None
                            st = st.add(k)
        return st

    def about(self, v):
        return v is not None and (v[0] == "cmp" and (self.tracked(v[2]) or self.tracked(v[3])) or v[0] == "not" and self.about(v[1]))

    def inline(self, fn, call, args, obj, st):
        return any(self.about(self.rvv(v, st)) for v in args)

    def on_call(self, e, targets, args, obj, st):
        vals = [self.rvv(v, st) for v in args]
        n = e[2].split("::")[-1] if e[0] in ("call", "ctor") else "?"
        trk = any(self.tracked(v) for v in vals)
        if e[0] == "call" and e[2].startswith("da_errors::") and "da_status" in e[6] and not trk:
            return [(("c", 1), st)]
        num = any(v[0] in ("s", "lin") and "N:" in repr(v) for v in vals)
        if not trk and not num:
            return None
        if not targets:
            if trk and n not in self.NULLOK:
                for v, a in zip(vals, e[4] if e[0] == "call" else e[3]):
                    if a is not None and "void *" in self.etype(a) and not n.startswith(("mem", "fread", "fwrite")):
                        continue  # an opaque user object, or one handed back
                    self.rep(v, e, "passes it to " + n, st)
            return None
        if any(self.about(v) for v in vals) and len(self.stack) < self.MAXDEPTH:
            return None
        variants = sure = None
        for t in targets:
            ps = t["params"]
            cs = tuple((ps[i][1], self.val(v, st)[1]) for i, v in enumerate(vals) if i < len(ps) and self.val(v, st)[0] == "c" and isinstance(self.val(v, st)[1], int) and not isptr(ps[i][2]))
            bad, posts = self.S.summary(t, cs)
            act = {ps[i][1]: v for i, v in enumerate(vals) if i < len(ps)}
            for nme, v in act.items():
                if self.tracked(v) and nme in bad:
                    self.rep(v, e, "%s at %s" % (bad[nme][1], bad[nme][0]), st)
            sr = self.S.sure.get((t["id"], cs), ())
            if sr is not None:  # it can report success
                sr = {act[x][1] for x in sr if self.tracked(act.get(x))}
                sure = sr if sure is None else sure & sr
            mine = {}
            for tag, (good, facts, eqs, hids) in posts.items():
                g = set()
                for x in hids:
                    v = act.get(x)
                    if v is not None and v[0] == "s" and v[1].startswith("N:"):
                        g.add(("hid", v[1][2:]))
                for x in good:
                    if self.tracked(act.get(x)):
                        g.add(("nn", act[x][1]))
                for a, c in facts:
                    l = ((), c)
                    for s, k in a:
                        x = lin.lin(self.val(act.get(s[2:], TOP), st)) if s[2:] in act else None
                        if x is None:
                            l = None
                            break
                        l = lin.add(l, x, k)
                    if l and l[0]:
                        g.add(("ge", l))
                for s in eqs:
                    x = act.get(s)
                    if x is not None and x[0] == "s" and x[1].startswith("N:"):
                        g.add(("eq", x[1][2:]))
                mine[tag] = g
            if variants is None:
                variants = mine
            else:
                both = lambda d, k: d.get(k, d.get(None))
                new = {}
                for k in set(variants) | set(mine):
                    x, y = both(variants, k), both(mine, k)
                    new[k] = (x & y) if x is not None and y is not None else (x if y is None else y)
                variants = new
        if variants and "da_status" in (e[6] if e[0] == "call" else ""):
            ev = self.havoc(e, e[4], args, st, obj, targets)
            out = []
            cur = [f for f in ev.must if f.startswith("ord|")]
            for tag, post in sorted(variants.items(), key=repr):
                if tag is not None and cur and tag not in cur:
                    continue
                a = ev.add(tag) if tag else ev
                for k, x in sorted(post, key=repr):
                    if k == "nn" and self.truth(("s", x), a) is None:
                        a = a.setref(x, ("ne", frozenset([0])))
                        if x not in (sure or ()):
                            a = a.add("soft|" + x[4:])
                    elif k == "ge":
                        a = self.fact(a, x)
                    elif k == "eq":
                        a = a.add("eqm|" + x)
                    elif k == "hid":
                        a = a.add("hid|" + x)
                out.append((("c", 0), a))
            sy = self.sym(e) + "!"
            return out + [(("s", sy), ev.setref(sy, ("ne", frozenset([0]))))]
        return None


class Summ:
    """For a function and the constants it is called with: pointers used unchecked, and per
    storage order what is known about the arguments when success is reported."""
    def __init__(self, P):
        self.P, self.memo, self.active, self.sure = P, {}, set(), {}
        self.steps = self.uses = self.count = 0
        self.domain = {k[0]: frozenset(v for _, v in e["vals"]) for k, e in P.db.enums.items()}

    def summary(self, f, cs=()):
        k = (f["id"], cs)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            return ({}, {})
        self.active.add(k)
        ptrs = [p for p in f["params"] if isptr(p[2]) and p[1]]
        ints = [p for p in f["params"] if p[2].replace("const ", "") in INTS and p[1]]
        I = Null(self.P, self)
        st = interp.St({"L" + p[0]: ("s", "ARG:" + p[1]) for p in ptrs})
        for p in ints:
            st = st.set("L" + p[0], ("s", "N:" + p[1]))
        ids = {p[1]: p[0] for p in f["params"]}
        for n, c in cs:
            st = st.set("L" + ids[n], ("c", c))
        outs = I.run(f, st) if (ptrs or ints) and f.get("body") else []
        self.steps += I.stmts
        by = {}
        if "da_status" in f["ret"]:
            for v, s in outs:
                v = I.val(v, s)
                if v[0] == "c" and v[1] != 0 or I.truth(v, s) is True:
                    continue
                # an optional array left out: nothing is promised for it
                if any(I.truth(("s", "ARG:" + p[1]), s) is False for p in ptrs):
                    continue
                tag = next((x for x in sorted(s.must) if x.startswith("ord|")), None)
                by.setdefault(tag, []).append(s)
        sure = None
        for v, s in outs:
            v = I.val(v, s)
            if "da_status" in f["ret"] and (v[0] == "c" and v[1] != 0 or I.truth(v, s) is True):
                continue
            x = {p[1] for p in ptrs if I.truth(("s", "ARG:" + p[1]), s) is True and "soft|" + p[1] not in s.must}
            sure = x if sure is None else sure & x
        self.sure[k] = sure
        posts = {}
        for tag, ss in by.items():
            if tag is not None and None in by:
                ss = ss + by[None]
            posts[tag] = self.post(I, ss, ptrs, ids)
        self.active.discard(k)
        self.memo[k] = (I.bad, posts)
        return self.memo[k]

    def post(self, I, ss, ptrs, ids):
        good = eqs = facts = hids = None
        for s in ss:
            g = {p[1] for p in ptrs if I.truth(("s", "ARG:" + p[1]), s) is True}
            fs = {x for x in I.facts(s) if x[0] and all(y.startswith("N:") and y[2:] in ids for y, _ in x[0])}
            for y, r in s.ref.items():
                if r[0] == "eq" and y.startswith("N:") and isinstance(r[1], int):
                    fs.add((((y, 1),), -r[1]))
            all_ = {(tuple(sorted(a)), c) for a, c in I.facts(s)}
            # bounds that follow through a quantity the caller does not see
            hid = {y for a, c in all_ for y, k in a if not y.startswith("N:")}
            if hid and any(y.startswith("N:") for a, c in all_ for y, k in a if len(a) == 2):
                ns = ["N:" + n for n in ids if n not in {p[1] for p in ptrs}]
                for x in ns:
                    for y in ns:
                        if x != y and not any(dict(a) == {x: 1, y: -1} for a, c in fs):
                            if any({x, h} == {q for q, _ in a} for h in hid for a, c in all_) and any({y, h} == {q for q, _ in a} for h in hid for a, c in all_):
                                if I.holds(s, (((x, 1), (y, -1)), 0)):
                                    fs.add((tuple(sorted(((x, 1), (y, -1)))), 0))
            eq = {x[4:] for x in s.must if x.startswith("eqm|")}
            for a, c in all_:
                ns = [(y, k) for y, k in a if y.startswith("N:")]
                if len(a) == 2 and len(ns) == 1 and c == 0 and (tuple(sorted((y, -k) for y, k in a)), 0) in all_:
                    eq.add(ns[0][0][2:])
            # arguments bounded below by a size the caller does not name
            hid = {x[4:] for x in s.must if x.startswith("hid|")}
            same = {next(y for y, k in a if not y.startswith("N:")) for a, c in all_ if len(a) == 2 and c == 0 and sum(y.startswith("N:") for y, k in a) == 1 and (tuple(sorted((y, -k) for y, k in a)), 0) in all_}
            for a, c in all_:
                d = dict(a)
                if len(a) == 2 and c <= 0:
                    up = [y for y, k in a if k == 1 and y.startswith("N:")]
                    lo = [y for y, k in a if k == -1 and not y.startswith("N:")]
                    if up and lo and lo[0] not in same:
                        hid.add(up[0][2:])
            if good is None:
                good, facts, eqs, hids, one = g, fs, eq, hid, s
            else:
                good &= g
                eqs &= eq
                hids &= hid
                facts = {x for x in facts if I.holds(s, x)} | {x for x in fs if I.holds(one, x)}
                one = s if False else one
        return (good or set(), facts or set(), eqs or set(), hids or set())


def constraints(ctx):
    """(C function, parameter) -> documented constraint, from the comments of the public headers."""
    import facts as F, os, glob
    out = {}
    n = 0
    inc = os.path.join(F.REPO, "source/include")
    for path in sorted(glob.glob(inc + "/*.h")):
        s = open(path).read()
        for m in re.finditer(r"/\*\*(.*?)\*/([^/]*)", s, re.S):
            doc = re.sub(r"\n\s*\*\s?", " ", m.group(1))
            names = re.findall(r"\b(da_\w+)\s*\(", m.group(2))
            line = s.count("\n", 0, m.start()) + 1
            for pm in re.finditer(r"[\\@]param\s*\[[^\]]*\]\s*-?\s*(\w+)(.*?)(?=[\\@]param|[\\@]return|$)", doc, re.S):
                c = re.search(r"Constraints?:?(.*)", pm.group(2))
                if not c:
                    continue
                t = re.sub(r"@f\$|\\f\$", " ", c.group(1))
                t = re.sub(r"[\\@]p ", "", t)
                t = re.sub(r"\s+", " ", t).strip()
                if re.search(r"\bWhen\b|ignored", pm.group(2)):
                    ctx.count("constraints_under_a_condition")
                    continue
                x = pm.group(1)
                k = None
                a = re.match(r"%s (\\ge|>|=) (\d+)\b" % x, t)
                if a:
                    k = ("low", int(a.group(2)) + (a.group(1) == ">"))
                a = re.match(r"%s \\ge (\w+),? if .*?(col|row).*?%s \\ge (\w+)" % (x, x), t)
                if a:
                    k = ("ld", a.group(1), a.group(3)) if a.group(2) == "col" else ("ld", a.group(3), a.group(1))
                if k and k[0] == "ld" and len(re.findall(r"\\ge", t)) > 2:
                    k = (k[0],) + tuple(d if d in t.split("\\ge")[1] else None for d in k[1:])
                a = re.match(r"%s (?:\\ge|>) ([a-z]\w*) ?\.?$" % x, t)
                if a:
                    k = ("ld", a.group(1), a.group(1))
                if re.match(r"(%s = (n_features|n_components|the number)|n_features (has to|must) be the same|must match the n_features)" % x, t):
                    k = ("eq",)
                for nm in names:
                    n += 1
                    if k:
                        out[(nm, x)] = (k, "%s:%d" % (os.path.relpath(path, F.REPO), line), t)
                    else:
                        ctx.count("constraints_not_expressible")
    return out


def refused(ctx, cdecl):
    """(C function, pointer parameter) the documentation says is refused when null."""
    import facts as F, os, glob
    out = {}
    for path in sorted(glob.glob(os.path.join(F.REPO, "source/include") + "/*.h")):
        s = open(path).read()
        for m in re.finditer(r"/\*\*(.*?)\*/([^/]*)", s, re.S):
            doc = re.sub(r"\n\s*\*\s?", " ", m.group(1))
            line = s.count("\n", 0, m.start()) + 1
            r = re.search(r"da_status_invalid_pointer\s*-\s*(.*?)(?= - [\\@]ref|[\\@]post|[\\@]note|$)", doc, re.S)
            if not r or re.search(r"\bwhen\b|\bif\b", r.group(1)):
                continue
            t = re.sub(r"\s+", " ", r.group(1)).strip()
            opt = set()
            for pm in re.finditer(r"[\\@]param\s*\[[^\]]*\]\s*-?\s*(\w+)(.*?)(?=[\\@]param|[\\@]return|$)", doc, re.S):
                if re.search(r"null|optional|\bif\b|\bIf\b|\bWhen\b", pm.group(2)):
                    opt.add(pm.group(1))
            opt |= set(re.findall(r"(\w+) will not be referenced", doc))
            for nm in re.findall(r"\b(da_\w+)\s*\(", m.group(2)):
                if nm not in cdecl:
                    continue
                ps = [p[0] for p in cdecl[nm]["params"] if isptr(p[1])]
                named = [p for p in ps if re.search(r"[\\@]p %s\b" % p, t)]
                if not named and re.search(r"one of the (input )?(arrays|pointers|array arguments)", t):
                    named = ps
                for p in named:
                    if p not in opt:
                        out[(nm, p)] = ("%s:%d" % (os.path.relpath(path, F.REPO), line), t)
    return out


def _job(g):
    S, fs = _S, g
    a, b, c = S.steps, S.uses, len(S.memo)
    r = [(f, S.summary(_S.P.db.fns[f]) + (S.sure.get((f, ()), set()) or set(),)) for f in fs]
    return r, S.steps - a, S.uses - b, len(S.memo) - c


def summaries(S, todo):
    """Summaries of the entry points, one process per group of related ones."""
    global _S
    import multiprocessing
    _S = S
    groups = {}
    for f in todo:
        groups.setdefault((f["file"], "float" in f["id"] or "IfE" in f["id"]), []).append(f["id"])
    out = {}
    size = lambda g: (0 if "csv" in g[0] or "basic_stat" in g[0] or "pca" in g[0] else 1)
    with multiprocessing.get_context("fork").Pool(6) as p:
        for r, a, b, c in p.imap_unordered(_job, [groups[g] for g in sorted(groups, key=lambda g: (size(g), g))]):
            out.update(r)
            S.steps += a
            S.uses += b
            S.count += c
    return out


def run(ctx):
    P, db = ctx.P, ctx.db
    names = {d["b"] for d in db.fdecls.values()}
    S = Summ(P)
    ents = [f for f in db.fns.values() if f["b"] in names and f.get("body") and "cls" not in f and f["file"].startswith("source/core")]
    wrap = set()
    for f in ents:
        for s in SUFFIX:
            if f["b"].endswith(s) and f["b"][:-len(s)] in names:
                wrap.add(f["b"])
    ctx.require(len(ents) > 150, "public entry points")
    res = {}
    todo, certain = [], {}
    for f in sorted(ents, key=lambda f: f["id"]):
        if "_Float16" in f["q"] or any("_Float16" in p[2] for p in f["params"]):
            continue
        if f["b"] not in wrap:
            todo.append(f)
    done = summaries(S, todo)
    for f in todo:
        bad, posts, sure = done[f["id"]]
        res.setdefault(f["b"], []).append((f, posts))
        certain[f["id"]] = sure
        ctx.count("entry_points")
        ctx.count("pointer_arguments", sum(1 for p in f["params"] if isptr(p[2])))
        for a, w in sorted(bad.items()):
            if "->" in a or "[" in a or a.startswith("."):
                continue
            if a not in [p[1] for p in f["params"]]:
                continue
            ctx.finding("%s|%s" % (f["b"], a), w[0], "%s uses its argument %s without having tested it: %s" % (f["b"], a, w[1]))
    # documented constraints
    cons = constraints(ctx)
    ctx.require(len(cons) >= 200, "documented constraints in the public headers")
    cdecl = {d["b"]: d for d in db.fdecls.values() if d["externC"]}
    for (nm, x), (k, where, text) in sorted(cons.items()):
        d = cdecl.get(nm)
        if d is None:
            continue
        base = nm
        for s in SUFFIX:
            if nm.endswith(s) and nm[:-len(s)] in res:
                base = nm[:-len(s)]
                break
        if base not in res:
            continue
        cn = [p[0] for p in d["params"]]
        if x not in cn:
            ctx.finding("doc|%s|%s" % (nm, x), where, "the documentation of %s names a parameter %s it does not have" % (nm, x))
            continue
        i = cn.index(x)
        for f, posts in res[base]:
            if len(f["params"]) != len(cn):
                continue
            if f["params"][i][2].replace("const ", "") not in INTS:
                ctx.count("constraints_not_on_integers")
                continue
            q = lambda n: f["params"][cn.index(n)][1] if n in cn else None
            ctx.count("constraints_checked")
            for tag, (good, facts, eqs, hids) in posts.items():
                ok = True
                N = lambda n: "N:%s" % n
                p = f["params"][i][1]
                if k[0] == "low":
                    ok = any(a == ((N(p), 1),) and -c >= k[1] for a, c in facts)
                elif k[0] == "ld":
                    for o, dim in ((0, k[2]), (1, k[1])):
                        on = {0: "row_major", 1: "column_major"}[o]
                        o = [v for kk, e in db.enums.items() if kk[0] == ORDER for n_, v in e["vals"] if n_ == on][0]
                        if dim is None or tag is not None and tag != "ord|%d" % o:
                            continue
                        if q(dim) is None:
                            ctx.count("constraints_on_hidden_sizes")
                            ok = ok and p in hids
                            continue
                        ok = ok and any(dict(a) == {N(p): 1, N(q(dim)): -1} and c <= 0 for a, c in facts)
                elif k[0] == "eq":
                    ok = p in eqs
                if not ok:
                    ctx.finding("%s|%s|%s" % (base, x, k[0]), ir.loc(f, f["line"]), "%s can report success although the documented constraint \"%s\" was not established%s (%s)" % (base, text[:90], "" if tag is None else " for one storage order", where))
    # pointers whose absence is documented to be refused
    for (nm, x), (where, text) in sorted(refused(ctx, cdecl).items()):
        base = nm
        for s in SUFFIX:
            if nm.endswith(s) and nm[:-len(s)] in res:
                base = nm[:-len(s)]
                break
        if base not in res or nm not in cdecl:
            continue
        cn = [p[0] for p in cdecl[nm]["params"]]
        for f, posts in res[base]:
            if len(f["params"]) != len(cn) or "da_status" not in f["ret"]:
                continue
            p = f["params"][cn.index(x)]
            if not isptr(p[2]):
                continue
            ctx.count("documented_null_refusals_checked")
            if p[1] not in certain[f["id"]]:
                ctx.finding("%s|%s|null" % (base, x), ir.loc(f, f["line"]), "%s can report success with a null %s although its documentation says \"%s\" (%s)" % (base, x, text[:90], where))
    ctx.count("functions_summarised", S.count)
    ctx.count("pointer_uses", S.uses)
    ctx.count("cfg_steps", S.steps)
    ctx.rule("no unchecked use of a pointer argument on any path of a public function, callees summarised")
    ctx.rule("documented constraints hold on every success path, per storage order")
    ctx.assumptions.append("a call keeps one storage order; enumerations hold only their enumerators; opaque void pointers belong to the user")
