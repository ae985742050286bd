"""Completeness of saved models.

For every algorithm that can be saved, the members that loading restores are computed: those the
stream layout reads back (helpers and lambdas followed) plus those the load path assigns or its
constructors initialise. A member some other API call produces (training, data or model
selection), that a query on a loaded handle looks at before writing it itself, must be one of
them: otherwise the loaded model answers from a default value. Queries are the API methods with
pointer arguments that do not install data. The object graph behind the handle (trees, nodes,
classifiers) is included; the handle's own members are decided path-sensitively, with the handle
marked loaded and trained.
"""
import re
import interp, ir, stream
from c06 import Effects, lams, FLAG
from ir import strip

SKIP = ("da_options", "da_errors", "std::", "da_model_persistence")


def closure(P, roots, q):
    seen, work = set(), [r["id"] for r in roots]
    while work:
        i = work.pop()
        if i in seen or i not in P.fns:
            continue
        seen.add(i)
        f = P.fns[i]
        for e in ir.all_exprs(f):
            if e[0] == "call":
                mine = e[3] is not None and strip(e[3]) and strip(e[3])[0] == "this"
                work.extend(t["id"] for t in P.targets(e, q if mine else None))
            elif e[0] == "ctor" and e[1] in P.fns:
                work.append(e[1])
        work.extend(g["id"] for g in P.lams(f))
    return [P.fns[i] for i in sorted(seen)]


def rootmem(x):
    x = strip(x)
    while x:
        if x[0] == "mem":
            return x[3], x[2]
        if x[0] == "idx":
            x = x[1]
        elif x[0] == "cast":
            x = x[3]
        elif x[0] == "un":
            x = x[2]
        elif x[0] == "bin":
            x = x[2]
        elif x[0] == "call" and x[3] is not None:
            x = x[3]
        else:
            return None
    return None


def rw(P, eff, fns, refs=True):
    """(owner, member) pairs read and written by the functions (refs: also through reference arguments)."""
    R, W = {}, {}
    for f in fns:
        for e in ir.all_exprs(f):
            k = e[0]
            m = None
            if k == "mem":
                R.setdefault((e[3], e[2]), f)
            if k == "asg" or k == "un" and e[1] in ("++", "--", "p++", "p--"):
                m = rootmem(e[2])
            elif k == "call":
                if e[3] is not None and eff.mutates(e):
                    m = rootmem(e[3])
                ts = P.targets(e)
                pt = [p[2] for p in ts[0]["params"]] if ts else []
                for i, a in enumerate(e[4]):
                    t = pt[i] if i < len(pt) else ""
                    if not refs or t.startswith("const "):
                        continue
                    if t.rstrip().endswith(("*", "&")) or not t and strip(a) and strip(a)[0] == "un" and strip(a)[1] == "&":
                        x = rootmem(a)
                        if x:
                            W.setdefault(x, f)
            if m:
                W.setdefault(m, f)
    return R, W


class Exposed(interp.Interp):
    """Reads of the candidate members before the method has written them."""
    CAP = 40
    MAXDEPTH = 8

    def __init__(self, P, eff, cls, cand):
        super().__init__(P)
        self.eff, self.dyncls, self.cand, self.bad, self.reads = eff, cls, cand, {}, 0

    def member(self, place):
        if not place.startswith("this->."):
            return None
        return re.split(r"[.\[\-@]", place[7:])[0]

    def inline(self, fn, call, args, obj, st):
        if fn["b"].startswith("da_errors::") or "K" in fn["fl"] or "D" in fn["fl"]:
            return False
        if obj is None or obj != ("&", "this->"):
            return False
        r, w, F = self.eff.of(fn, self.dyncls)
        return bool((r | w) & self.cand) or FLAG in r or "model_loaded" in r

    def look(self, m, e, st):
        if m in self.cand:
            self.reads += 1
            if "w:" + m not in st.must and m not in self.bad:
                f = self.stack[-1]
                self.bad[m] = (ir.loc(f, ir.line_of(e) or f["line"]), [g["b"] + " " + ir.loc(g, g["line"]) for g in self.stack])

    def on_read(self, place, e, st):
        m = self.member(place)
        if m:
            self.look(m, e, st)
        return st

    def on_write(self, place, e, val, st):
        m = self.member(place)
        if m in self.cand:
            return st.add("w:" + m)
        return st

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        if e[2].startswith("da_errors::"):
            return [(("c", 1), st)]  # a report: never the success the analysis follows
        st0 = st
        if e[2].startswith("da_options::OptionRegistry::get"):
            # a registered option of the right type (C11): the lookup succeeds and fills the argument
            for v in args:
                if v[0] in ("ref", "&", "lv") and self.member(v[1]) in self.cand:
                    st = st.add("w:" + self.member(v[1]))
            return [(("c", 0), self.havoc(e, e[4], args, st, obj, targets))]
        for i, v in enumerate(args):
            if v[0] in ("ref", "&", "lv"):
                m = self.member(v[1])
                if m not in self.cand:
                    continue
                t = targets[0]["params"][i][2] if targets and i < len(targets[0]["params"]) else ""
                if t.startswith("const ") or not t.rstrip().endswith(("*", "&")):
                    self.look(m, e, st)
                else:
                    st = st.add("w:" + m)
        if obj is not None and obj[0] == "&" and obj[1] != "this->":
            m = self.member(obj[1])
            if m in self.cand:
                n = e[2].split("::")[-1]
                if n in ("resize", "assign", "operator=", "clear", "swap", "reset"):
                    st = st.add("w:" + m)
                else:
                    self.look(m, e, st)
            return [(("s", self.sym(e)), self.havoc(e, e[4], args, st, obj, targets))]
        if st is not st0 and not any(self.inline(t, e, args, obj, st) for t in targets):
            return [(("s", self.sym(e)), self.havoc(e, e[4], args, st, obj, targets))]
        return None


def install(f, eff, q):
    """Does the method keep a pointer it was given, take none at all, or train without results?"""
    ptrs = {p[0] for p in f["params"] if p[2].rstrip().endswith("*")}
    if not ptrs:
        return True
    if not any(p[2].rstrip().endswith("*") and not p[2].startswith("const ") for p in f["params"]) and 1 in eff.of(f, q)[2]:
        return True
    for e in ir.all_exprs(f):
        if e[0] == "asg" and strip(e[2])[0] == "mem" and strip(e[3]) and strip(e[3])[0] == "var" and strip(e[3])[1] in ptrs:
            return True
        if e[0] == "call" and any(strip(a) and strip(a)[0] == "var" and strip(a)[1] in ptrs for a in e[4]):
            for a in e[4]:
                a = strip(a)
                if a and a[0] == "un" and a[1] == "&" and strip(a[2])[0] == "mem":
                    return True
    return False


def run(ctx):
    db, P = ctx.db, ctx.P
    P.lams = lams(P)
    eff = Effects(P)
    modes = {}
    for en in db.enums.values():
        for v in en["vals"]:
            if en["q"].endswith("buffer_mode"):
                modes[v[0].split("::")[-1]] = v[1]
    ctx.require(set(modes) >= {"reserve", "serialize", "deserialize"}, "buffer modes")
    S = stream.Stream(db, P, modes)
    api = {}
    for f in db.fns.values():
        if "cls" in f:
            continue
        for c in ir.all_exprs(f):
            if c[0] == "call" and c[3] is not None and len(c) > 8 and c[8] and not (strip(c[3]) and strip(c[3])[0] == "this"):
                api.setdefault(c[8], {}).setdefault(c[1], []).append(c)
    nm = lambda f: f["b"].split("::")[-1]
    done = set()
    for q in sorted(P.recs):
        sup = P.supers(q)
        if "_Float16" in q or not any(s.startswith("basic_handle<") for s in sup):
            continue
        if ctx.tier == "quick" and q.split("<")[0] in done:
            continue
        ser = [f for f in db.fns.values() if f["b"] == q + "::serialize"]
        if not ser:
            continue
        done.add(q.split("<")[0])
        load = [f for f in db.fns.values() if f.get("cls") in [q] + sup and nm(f) == "load_model"]
        ctx.require(load, "load_model of " + q)
        meths, passed = {}, {}
        for c in [q] + sup:
            for mid, sites in api.get(c, {}).items():
                f = P.fns.get(P.resolve(mid, q))
                for call in sites:
                    passed.setdefault(f and f["id"], []).append([ir.const_int(a) for a in call[4]])
                if f is not None and "K" not in f["fl"] and "D" not in f["fl"] and nm(f) not in ("refresh", "get_opts", "check_2D_array", "load_model", "save_model", "serialize"):
                    meths[f["id"]] = f
        S.cls = q
        streamed, mine = set(), set()  # members of any object / of the handle itself
        for tok, path in stream.flat(S.fold(ser[0], "deserialize", {"this": "this"})):
            if tok[0] == "io" or tok[0] == "rec":
                for p in tok[2].split(","):
                    streamed.add(re.sub(r"[\[\]()*&]", "", p.split(".")[-1]))
                    if re.match(r"\**this\.", p):
                        mine.add(re.sub(r"[\[\]()*&]", "", p.split(".")[1]))
        queries = [f for f in meths.values() if not install(f, eff, q)]
        others = [f for f in meths.values() if install(f, eff, q)]
        Rq, Wq = rw(P, eff, closure(P, queries, q))
        Rt, Wt = rw(P, eff, closure(P, others, q))
        restored = set(rw(P, eff, [g for g in closure(P, load + ser, q) if not g["b"].startswith("da_model_persistence::")], False)[1])
        for g in closure(P, load + ser, q):
            if "K" in g["fl"]:
                restored |= {(g["cls"], i[1]) for i in g.get("inits", ()) if i[0] == "m" and not i[3]}
        held = owned(P, q)
        own = {q} | set(sup)
        cand, deep = set(), set()
        for om in set(Rq) & (set(Wt) | set(Wq)):
            o, m = om
            if not o or o.startswith(SKIP) or m in (mine if o in own else streamed) or om in restored or m in ("err", "opts"):
                continue
            if o in own:
                cand.add(m)
            elif o in held:
                deep.add(om)
        ctx.count("classes")
        ctx.count("queries", len(queries))
        ctx.count("members_read_by_queries", len([x for x in Rq if x[0] in own or x[0] in held]))
        ctx.sample("%s: queries %s; %d members restored from the stream; decided path-sensitively: %s" % (q, sorted(set(map(nm, queries))), len(streamed), sorted(cand)))
        holders = {}
        badm = set()
        for f in sorted(queries, key=lambda g: g["id"]):
            I = Exposed(P, eff, q, frozenset(cand))
            env = {"this": ("&", "this->"), "this->." + FLAG: ("c", 1), "this->.model_loaded": ("c", 1)}
            for i, p in enumerate(f["params"]):
                cs = {tuple(a[i:i + 1]) for a in passed.get(f["id"], ())}
                if len(cs) == 1 and cs != {(None,)} and cs != {()}:
                    env["L" + p[0]] = ("c", cs.pop()[0])  # the API always passes this value
            I.run(f, interp.St(env))
            ctx.count("exposed_reads_checked", I.reads)
            ctx.count("cfg_steps", I.stmts)
            for m, (w, path) in I.bad.items():
                badm.add(m)
                ctx.finding("%s|%s" % (q.split("<")[0], m), w, "%s: reads %s, which training or data setting produces and loading a saved model does not restore" % (f["b"], m), path=path)
        for o, m in sorted(deep):
            # objects held by members a loaded handle does not use are not reached
            via = held[o]
            if via & (cand - badm) and not via - cand:
                continue
            f = Rq[(o, m)]
            ctx.finding("%s|%s::%s" % (q.split("<")[0], o.split("<")[0], m), ir.loc(f, f["line"]), "%s: reads %s::%s, which training produces and loading a saved model does not restore" % (f["b"], o, m))
    ctx.rule("a member that training, data setting or model selection produces and a query reads before writing it is read back from the stream or assigned by the load path")


def owned(P, q):
    """Classes of the objects held (transitively) by the members of a class -> the members of q leading there."""
    names = sorted((r for r in P.recs if not r.startswith(("std::", "basic_handle"))), key=len, reverse=True)
    def inside(t):
        return [r for r in names if re.search(r"(?<![\w:])" + re.escape(r) + r"(?![\w<:])", t)]
    out = {}
    def fields(c):
        for k in [c] + P.supers(c):
            for fl in P.recs[k]["fields"] if k in P.recs else ():
                yield fl
    for fl in fields(q):
        work, seen = inside(fl[1]), set()
        while work:
            c = work.pop()
            if c in seen or c == q:
                continue
            seen.add(c)
            for k in [c] + P.supers(c) + sorted(P.subclasses(c)):
                out.setdefault(k, set()).add(fl[0])
                for g in P.recs[k]["fields"] if k in P.recs else ():
                    work += inside(g[1])
    return out
