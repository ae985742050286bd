"""Typestate of trained models: nothing is served before training succeeded, nothing stale is
served after it failed or after the data changed.

For every algorithm class behind a handle (and the interpolators), the methods the public API
calls are found from the call sites in the API layer. A method is a *trainer* when it can set the
class's trained flag; the *model members* are the members written by trainers and by no other
API method. Path-sensitive exploration of every API method, following calls on the same object
that touch the flag or the model, decides: (query) a model member is read only where the flag is
known to be set; (early) a path on which training set the flag does not return a failure;
(stale) a trainer that returns a failure after touching a model member leaves the flag cleared;
(data) a method that installs new data or another model clears the flag before it returns
success. Warnings (records with warning severity) count as success.
"""
import interp, ir
from ir import strip

FLAG = "model_trained"
MUT = {"resize", "push_back", "emplace_back", "assign", "clear", "swap", "reset", "pop_back", "insert", "erase", "emplace", "reserve", "shrink_to_fit", "operator=", "append", "pop", "seed", "operator+=", "operator>>"}


def root_member(e):
    """Member of `this` an lvalue/access path starts from."""
    while e:
        k = e[0]
        if k == "cast":
            e = e[3]
        elif k == "mem":
            b = strip(e[1])
            if b and b[0] == "this":
                return e[2]
            e = e[1]
        elif k == "idx":
            e = e[1]
        elif k == "un" and e[1] in ("*", "&"):
            e = e[2]
        elif k == "bin" and e[1] in ("+", "-"):
            e = e[2]
        elif k == "call" and e[3] is not None:
            n = e[2].split("::")[-1]
            if n in ("data", "operator[]", "operator*", "operator->", "get", "begin", "end", "at", "back", "front"):
                e = e[3]
            else:
                return None
        else:
            return None
    return None


def scalar(fl):
    """Is the field a plain number, flag or enumerator?"""
    t = (fl[1] if fl else "").replace("const ", "").strip()
    return not t.endswith(("*", "&")) and "<" not in t and "[" not in t


class Effects:
    """Members of the object read / written by a method, following calls on the same object."""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.hard, self.dmemo = {}, {}

    def direct(self, f):
        r = self.dmemo.get(f["id"])
        if r is None:
            r = False
            for e0 in ir.all_exprs(f):
                for e in ir.walk(e0):
                    if e[0] == "asg" and strip(e[2])[0] == "mem" and root_member(e[2]) == FLAG and ir.const_int(e[3]) == 1:
                        r = True
            self.dmemo[f["id"]] = r
        return r

    def lowered(self, m, chain, db):
        """Can a method set this bool member to something else than true?"""
        for f in db.fns.values():
            if f.get("cls") not in chain:
                continue
            for e0 in ir.all_exprs(f):
                for e in ir.walk(e0):
                    if e[0] == "asg" and root_member(e[2]) == m and ir.const_int(e[3]) != 1:
                        return True
        return False

    def optonly(self, m, cls):
        """Members only ever written as the destination of an option read."""
        return m not in self.hard.get(cls, ())

    def of(self, f, cls, seen=()):
        key = (f["id"], cls)
        if key in self.memo:
            return self.memo[key]
        if f["id"] in seen:
            return frozenset(), frozenset(), frozenset()
        R, W, F = set(), set(), set()
        O, inherited = set(), set()
        for e0 in ir.all_exprs(f):
            for e in ir.walk(e0):
                k = e[0]
                if k == "mem":
                    b = strip(e[1])
                    if b and b[0] == "this":
                        R.add(e[2])
                if k == "asg":
                    m = root_member(e[2])
                    if m:
                        W.add(m)
                    if m == FLAG and strip(e[2])[0] == "mem":
                        c = ir.const_int(e[3])
                        F.add(c if c is not None else "?")
                elif k == "un" and e[1] in ("++", "--", "p++", "p--"):
                    m = root_member(e[2])
                    if m:
                        W.add(m)
                elif k == "call":
                    if e[3] is not None:
                        o = strip(e[3])
                        if o and o[0] == "this":
                            for t in self.P.targets(e, cls):
                                r, w, fl = self.of(t, cls, seen + (f["id"],))
                                R |= r
                                inherited |= w
                                F |= fl
                        elif self.mutates(e, seen):
                            m = root_member(e[3])
                            if m:
                                W.add(m)
                    ts = self.P.targets(e)
                    pt = [p[2] for p in ts[0]["params"]] if ts else []
                    for i, a in enumerate(e[4]):
                        self.arg(a, pt[i] if i < len(pt) else None, O if e[2].startswith("da_options::OptionRegistry::get") else W)
                elif k == "icall":
                    for a in e[3]:
                        self.arg(a, None, W)
        self.hard.setdefault(cls, set()).update(W)
        W |= O | inherited
        # lambdas of the method run on the same object
        for g in self.P.lams(f):
            r, w, fl = self.of(g, cls, seen + (f["id"],))
            R |= r
            W |= w
            F |= fl
        out = frozenset(R), frozenset(W), frozenset(F)
        if not seen:
            self.memo[key] = out
        return out

    def mutates(self, e, seen=()):
        """Can the method called on an object change that object?"""
        ts = self.P.targets(e)
        if not ts:
            return e[2].split("::")[-1] in MUT
        return any("c" not in t["fl"] and t["id"] not in seen and bool(self.of(t, t.get("cls", ""), seen)[1]) for t in ts)

    def arg(self, a, t, W):
        m = root_member(a) if a is not None else None
        if not m:
            return
        if t is not None:
            if t.startswith("const ") or not t.rstrip().endswith(("*", "&")):
                return
        else:
            x = a
            ty = ""
            if x[0] == "cast":
                ty = x[2]
            elif x[0] in ("mem", "var"):
                ty = x[-1] if x[0] == "mem" else x[3]
            elif x[0] == "call":
                ty = x[6]
            elif x[0] == "un" and x[1] == "&":
                ty = "*"
            if ty.startswith("const ") or "*" not in ty:
                return
        W.add(m)


class TI(interp.Interp):
    CAP = 60
    MAXDEPTH = 7

    def __init__(self, P, eff, cls, mode, model):
        super().__init__(P)
        self.eff, self.dyncls, self.mode, self.model = eff, cls, mode, model
        self.bad = {}
        self.reads = 0
        self.guarded = set()
        self.calls = 0
        self.bools, self.implied, self.prereq, self.MEMERR = (), None, (), None

    def flagval(self, st):
        return self.val(st.env.get("this->." + FLAG, ("s", "this->." + FLAG)), st)

    def known(self, st, want):
        v = self.flagval(st)
        t = self.truth(v, st)
        return t is not None and t == want

    def flag(self, k, e, msg, line=0):
        f = self.stack[-1]
        self.bad.setdefault((k, f["b"]), (ir.loc(f, line or (e and ir.line_of(e)) or f["line"]), msg, [g["b"] + " " + ir.loc(g, g["line"]) for g in self.stack]))

    def member(self, place):
        if not place.startswith("this->."):
            return None
        m = place[7:]
        for i, ch in enumerate(m):
            if ch in ".[-@":
                return m[:i]
        return m

    def isthis(self, obj):
        return obj is not None and obj == ("&", "this->")

    def inline(self, fn, call, args, obj, st):
        if fn["b"].startswith("da_errors::"):
            return False
        if "K" in fn["fl"] or "D" in fn["fl"]:
            return False
        if not self.isthis(obj):
            return False
        r, w, F = self.eff.of(fn, self.dyncls)
        if self.mode == "query":
            if self.known(st, True):
                return False
            return bool(r & self.model) or FLAG in r
        return bool(F) or FLAG in r

    def on_read(self, place, e, st):
        if self.mode == "query":
            m = self.member(place)
            if m and self.known(st, True):
                self.guarded.add(m)
            if m in self.model:
                self.reads += 1
                if not self.known(st, True):
                    self.flag("query", e, "reads %s where the model is not known to be trained" % m)
        return st

    def bucket(self, st):
        return self.flagval(st), st.may, st.ref.get("sev")

    def pure(self, e):
        return e[0] == "call" and e[2] == "std::bind"

    def okexit(self, v, st):
        if v[0] == "c" and v[1] == 0:
            return True
        r = st.ref.get("sev")  # the recorded problem is known not to be an error
        return bool(r) and (r[0] == "eq" and r[1] != self.ERR or r[0] == "ne" and self.ERR in r[1])

    def on_exit(self, fn, node, val, st):
        # a complete training nested in another one stands on its own
        if self.mode == "train" and len(self.stack) > 1 and fn["id"] in self.trainers:
            if self.okexit(self.val(val, st), st):
                st = st.drop(lambda x: x in ("set", "dirty")).add("complete")
        if self.mode == "set" and len(self.stack) == 1 and val != ("c", self.MEMERR):
            if "data" in st.may and self.truth(self.flagval(st), st) is not False:
                self.flag("data", None, "replaces what a trained model serves (%s) and leaves the model marked as trained" % ", ".join(sorted(x[5:] for x in st.may if x.startswith("data:"))), node.line)
        if self.mode == "train" and len(self.stack) == 1 and "set" in st.may and not st.may & {"dirty"} and "complete" not in st.must and self.model:
            self.flag("empty", None, "declares the model trained on a path that changes nothing of it", node.line)
        if self.mode == "train" and len(self.stack) == 1 and not self.okexit(self.val(val, st), st):
            t = self.truth(self.flagval(st), st)
            if "set" in st.may and t is not False:
                self.flag("early", None, "can return a failure after declaring the model trained", node.line)
            elif "dirty" in st.may and "complete" not in st.must and t is not False:
                self.flag("stale", None, "can fail after changing the model while the model stays marked as trained", node.line)
        return st

    def on_write(self, place, e, val, st):
        m = self.member(place)
        if m == FLAG:
            v = self.val(val, st)
            if v == ("c", 1):
                now = {m for m in self.bools if self.truth(self.val(st.env.get("this->." + m, ("s", "this->." + m)), st), st) is True}
                self.implied = now if self.implied is None else self.implied & now
                return st.addmay("set")
            return st
        if self.mode == "train" and m in self.model:
            return st.addmay("dirty")
        if self.mode == "set" and m in self.model and not self.untrained(st):
            return st.addmay("data", "data:" + m)
        return st

    def untrained(self, st):
        """The model is known not to be trained: its flag is false, or a member every trained
        model has set is false."""
        if self.known(st, True):
            return True  # judged where the method declares it trained
        return any(self.truth(self.val(st.env.get("this->." + m, ("s", "this->." + m)), st), st) is False for m in self.prereq)

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2]
        if n == "da_errors::da_error_t::rec" or n == "da_errors::error_bypass_t::rec":
            sev = args[5] if len(args) > 5 else interp.TOP
            if sev[0] == "c" and sev[1] == self.WARN:
                return [(("c", 0), st)]
            if "sev" in st.ref:
                st = interp.St(st.env, {a: b for a, b in st.ref.items() if a != "sev"}, st.must, st.may)
            return [(args[0] if args else interp.TOP, st)]
        if n == "da_errors::da_error_t::get_severity":
            return [(("s", "sev"), st)]
        if n.startswith("da_errors::"):
            return [(("s", self.sym(e)), st)]
        short = n.split("::")[-1]
        if obj is not None and obj[0] == "&":
            m = self.member(obj[1])
            if m is not None and self.mode == "query" and self.known(st, True):
                self.guarded.add(m)
            if m is not None and self.mode == "query" and m in self.model:
                self.reads += 1
                if not self.known(st, True):
                    self.flag("query", e, "uses %s where the model is not known to be trained" % m)
            mut = m is not None and self.eff.mutates(e)
            if m is not None and mut:
                if self.mode == "train" and m in self.model:
                    st = st.addmay("dirty")
                if self.mode == "set" and m in self.model and not self.untrained(st):
                    st = st.addmay("data", "data:" + m)
        if not self.isthis(obj):
            # members handed to the callee by reference or address
            for i, v in enumerate(args):
                if v[0] not in ("ref", "&", "lv"):
                    continue
                m = self.member(v[1])
                if m not in self.model:
                    continue
                t = targets[0]["params"][i][2] if targets and i < len(targets[0]["params"]) else self.etype(e[4][i]) if i < len(e[4]) else ""
                if t.startswith("const ") or not t.rstrip().endswith(("*", "&")):
                    continue
                if self.mode == "train":
                    st = st.addmay("dirty")
                elif self.mode == "set" and not self.untrained(st):
                    st = st.addmay("data", "data:" + m)
        if self.isthis(obj) and targets and not any(self.inline(t, e, args, obj, st) for t in targets):
            self.calls += 1
            for t in targets:
                r, w, F = self.eff.of(t, self.dyncls)
                if self.mode == "query" and self.known(st, True):
                    self.guarded |= r
                if self.mode == "train" and w & self.model:
                    st = st.addmay("dirty")
                if self.mode == "set" and w & self.model and not self.untrained(st):
                    st = st.addmay("data", *("data:" + x for x in w & self.model))
            # members other than the flag are forgotten
            keep = st.env.get("this->." + FLAG)
            kref = st.ref.get("this->." + FLAG)
            s = self.havoc(e, e[4], args, st, obj, targets)
            for m in self.bools:  # once set, never lowered by a member function
                pl = "this->." + m
                if self.truth(self.val(st.env.get(pl, ("s", pl)), st), st) is True:
                    s = s.set(pl, ("c", 1))
            if not any(self.eff.of(t, self.dyncls)[2] for t in targets):
                s = s.set("this->." + FLAG, keep)
                if kref is not None:
                    s = s.setref("this->." + FLAG, kref)
            return [(("s", self.sym(e)), s)]
        return None


def lams(P):
    by = {}
    for f in P.fns.values():
        if "lam" in f:
            by.setdefault(f["lam"], []).append(f)
    return lambda f: by.get(f["id"], [])


def run(ctx):
    db, P = ctx.db, ctx.P
    P.lams = lams(P)
    sev = err = None
    for en in db.enums.values():
        for v in en.get("vals", en.get("items", [])):
            if v[0].split("::")[-1] == "DA_WARNING":
                sev = v[1]
            if v[0].split("::")[-1] == "DA_ERROR":
                err = v[1]
    memerr = None
    for en in db.enums.values():
        for v in en.get("vals", en.get("items", [])):
            if v[0].split("::")[-1] == "da_status_memory_error":
                memerr = v[1]
    ctx.require(memerr is not None, "da_status_memory_error")
    ctx.require(sev is not None, "severity DA_WARNING")
    eff = Effects(P)

    def fields(q):
        out = {}
        for c in [q] + P.supers(q):
            for fl in P.recs[c]["fields"] if c in P.recs else ():
                out.setdefault(fl[0], fl)
        return out
    # API methods per class
    api = {}
    for f in db.fns.values():
        if "cls" in f and not f["cls"].startswith("da_interpolation::interpolation_p<"):
            continue
        for e0 in ir.all_exprs(f):
            for c in ir.walk(e0):
                if c[0] == "call" and c[3] is not None and len(c) > 8 and c[8]:
                    if strip(c[3]) and strip(c[3])[0] == "this":
                        continue
                    api.setdefault(c[8], {}).setdefault(c[1], c)
    ntr, done = 0, set()
    for q in sorted(P.recs):
        base = [s for s in P.supers(q) if s.startswith(("basic_handle<", "da_interpolation::interpolation_generic<"))]
        if not base or FLAG not in fields(q) or "_Float16" in q:
            continue
        if P.subclasses(q):
            pass
        meths = {}
        for c in [q] + P.supers(q):
            for mid, call in api.get(c, {}).items():
                t = P.resolve(mid, q)
                f = P.fns.get(t)
                if f is not None and "K" not in f["fl"] and "D" not in f["fl"]:
                    meths[t] = f
        if not meths:
            continue
        E = {i: eff.of(f, q) for i, f in meths.items()}
        nm = lambda f: f["b"].split("::")[-1]
        load = {i for i, f in meths.items() if nm(f) in ("load_model", "serialize_model", "deserialize_model", "save_model", "serialize", "deserialize")}
        train = {i for i in meths if (1 in E[i][2] or "?" in E[i][2]) and i not in load}
        if not train:
            ctx.sample("%s: no trainer" % q)
            continue
        ntr += 1
        setters = {i for i in meths if i not in train and i not in load and 1 not in E[i][2]}
        # what the functions that set the flag produce, themselves or through their arguments
        wt, wo = set(), set()
        chain = [q] + P.supers(q)
        for f in db.fns.values():
            if f.get("cls") not in chain:
                continue
            if eff.direct(f):
                wt |= eff.of(f, q)[1]
        for f in db.fns.values():
            if f.get("cls") not in chain:
                continue
            for e0 in ir.all_exprs(f):
                for c in ir.calls(e0):
                    if c[0] == "call" and c[3] is not None and strip(c[3]) and strip(c[3])[0] == "this":
                        for t in P.targets(c, q):
                            if eff.direct(t):
                                for i, a in enumerate(c[4]):
                                    if i < len(t["params"]):
                                        eff.arg(a, t["params"][i][2], wt)
        for i in setters:
            if nm(meths[i]) != "refresh":
                wo |= E[i][1]
        # members the methods that serve results look at
        served = set()
        for i in meths:
            if i not in train and i not in load and not E[i][2]:
                served |= E[i][0]
        written = wt - {FLAG, "err", "opts"}
        model = frozenset(written & served)
        optonly = frozenset(m for m in model if eff.optonly(m, q))
        dflag = frozenset(m for m in wo)
        ctx.count("classes")
        guarded = set()
        # flags a trained model needs and nobody takes back
        bools, prereq = [], None
        for m, fl in fields(q).items():
            if fl[1] == "bool" and m != FLAG and not eff.lowered(m, chain, db):
                bools.append(m)
        twritten = set().union(*(E[i][1] for i in train)) - {FLAG, "err", "opts"}
        for i, f in sorted(meths.items(), key=lambda x: (x[0] in train, x[0])):
            if i in load:
                continue
            mode = "train" if i in train else "query"
            if mode == "query" and E[i][2]:
                continue
            if ctx.tier == "quick" and (f["file"], f["line"], q.split("<")[0]) in done:
                continue
            done.add((f["file"], f["line"], q.split("<")[0]))
            I = TI(P, eff, q, mode, frozenset(twritten & guarded) if mode == "train" else model - optonly)
            I.WARN, I.ERR, I.trainers = sev, err, train
            I.bools = bools
            outs = I.run(f, interp.St({"this": ("&", "this->")}))
            guarded |= I.guarded
            if I.implied is not None:
                prereq = I.implied if prereq is None else prereq & I.implied
            ctx.count("paths", len(outs))
            ctx.count("model_reads_checked", I.reads)
            ctx.count("cfg_steps", I.stmts)
            if mode == "train":
                ctx.count("trainers")
            for (k, b), (w, m, path) in I.bad.items():
                ctx.finding("%s|%s|%s" % (q, f["b"], k), w, "%s: %s" % (f["b"], m), path=path)
        guarded -= {"err", "opts", "order"}
        made = frozenset(m for m in twritten & guarded if not scalar(fields(q).get(m)))
        for i in sorted(train):
            miss = made - E[i][1]
            ctx.count("produced_obligations", len(made))
            if miss:
                f = meths[i]
                ctx.finding("%s|%s|produce" % (q, f["b"]), ir.loc(f, f["line"]), "%s: declares the model trained and never produces %s" % (f["b"], ", ".join(sorted(miss))))
        if guarded:
            ctx.sample("%s: trainers %s; members served once trained %s" % (q, sorted(nm(meths[i]) for i in train), sorted(twritten & guarded)))
        for i, f in sorted(meths.items()):
            if i in load or i in train or nm(f) == "refresh" or not guarded & E[i][1] or (f["file"], f["line"], "set") in done:
                continue
            if ctx.tier == "quick":
                done.add((f["file"], f["line"], "set"))
            I = TI(P, eff, q, "set", frozenset(guarded))
            I.WARN, I.ERR, I.trainers, I.prereq, I.MEMERR = sev, err, train, prereq or (), memerr
            I.run(f, interp.St({"this": ("&", "this->")}))
            ctx.count("setters")
            ctx.count("cfg_steps", I.stmts)
            for (k, b), (w, m, path) in I.bad.items():
                ctx.finding("%s|%s|%s" % (q, f["b"], k), w, "%s: %s" % (f["b"], m), path=path)
    ctx.count("trained_classes", ntr)
    ctx.rule("a method that serves results reads what training produced only where the trained flag is known to be set; no path that set the flag returns a failure; a training that fails after touching the model, and a method that replaces what a trained model serves, leave the flag cleared")
