"""Loading never trusts the bytes it is given.

 1. Every read from the input buffer happens on a path that has established that the bytes are
    there; an element count read from the buffer is known not to be negative and not to exceed the
    bytes left before a container is resized to it.
 2. Inside the load path of every model, a number taken from the stream sizes an allocation,
    indexes an array or moves a pointer only after it is known to be non-negative and bounded.
 3. The metadata is accepted only when the keyword matches, the version is one that can be read,
    and the integer and floating-point sizes are legal; a model is read only when its version is
    the current one; an option name that is not registered is refused before it is used.
 4. The algorithm object behind a handle is dereferenced while saving and loading only after it
    is known to exist (the handle type comes from the file).
"""
import re
import interp, ir, lin, stream
from c06 import lams
from ir import strip
from interp import TOP

BUF = stream.BUF
NS = "da_model_persistence::"


class Base(lin.Linear):
    CAP = 60
    MAXDEPTH = 12

    def __init__(self, P, ctx):
        super().__init__(P)
        self.ctx, self.bad = ctx, {}

    def report(self, key, e, msg):
        f = self.stack[-1]
        self.bad.setdefault(key, (ir.loc(f, ir.line_of(e) or f["line"]), msg))

    def container(self, e, args, obj, st):
        """size(), end() and find() of containers as named unknowns."""
        n = e[2].split("::")[-1]
        if obj is not None and obj[0] == "&":
            if n in ("size", "length"):
                return [(("s", "size:" + obj[1]), st)]
            if n in ("end", "cend"):
                return [(("s", "end:" + obj[1]), st)]
            if n == "find":
                return [(("s", "find:%s:%s" % (obj[1], ir.line_of(e))), st)]
        return None


class Prim(Base):
    """The reading primitives of the buffer."""
    def inline(self, fn, call, args, obj, st):
        return fn["b"].startswith(BUF + "::") and "c" in fn["fl"]

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        SIZE, OFF = ("s", "this->.size"), st.env.get("this->.offset", ("s", "this->.offset"))
        if n in ("memcpy", "memmove", "copy", "copy_n"):
            src = args[1] if n.startswith("mem") else args[0]
            txt = repr(src)
            if "read_ptr" in txt or "read_ptr" in ir.show(e[4][1] if n.startswith("mem") else e[4][0]):
                self.ctx.count("buffer_reads")
                l, ln = lin.lin(src), lin.lin(args[2])
                ok = False
                if l and ln and n.startswith("mem"):
                    pos = lin.add(l, ((("this->.read_ptr", 1),), 0), -1)
                    end = lin.add(pos, ln)
                    ok = self.holds(st, lin.add(lin.lin(SIZE), end, -1))
                if not ok:
                    self.report("read|%s" % self.stack[-1]["b"].split("::")[-1], e, "%s: reads from the input buffer without having established that the bytes are there" % self.stack[-1]["b"])
            return [(TOP, st)]
        if n in ("resize", "reserve", "assign") and obj is not None:
            v = args[0] if args else TOP
            if v[0] != "c":
                self.ctx.count("sized_allocations")
                l = lin.lin(v)
                bounded = l and len(l[0]) == 1 and any(u == {"this->.size": 1, OFF[1]: -1} and c <= 0 for u, c in self.uppers(st, l[0][0][0]))
                if not (l and self.lower(st, v) and bounded):
                    self.report("resize|%s" % self.stack[-1]["b"].split("::")[-1], e, "%s: sizes a container with a count from the input that is not known to be between zero and the bytes left" % self.stack[-1]["b"])
            return [(TOP, st)]
        if n in ("deserialize_data", "deserialize_container_impl") and obj == ("&", "this->"):
            self.ctx.count("nested_reads")
            return [(("s", self.sym(e)), self.havoc(e, e[4], args, st, obj, targets))]
        return self.container(e, args, obj, st)

    def on_read(self, place, e, st):
        # the pointer may be used only through the checked copies
        return st

    def on_deref(self, v, e, st, write):
        if "read_ptr" in repr(v):
            self.ctx.count("buffer_reads")
            self.report("deref|%s" % self.stack[-1]["b"].split("::")[-1], e, "%s: reads the input buffer directly" % self.stack[-1]["b"])
        return st


def known(I, st, sym):
    """Is the symbol known to equal something that does not come from the stream?"""
    if (st.ref.get(sym) or ("",))[0] == "eq":
        return True
    fs = [(dict(a), c) for a, c in I.facts(st)]
    return any(a.get(sym) == 1 and len(a) == 2 and not any(k != sym and k.startswith("load:") for k in a)
               and ({k: -x for k, x in a.items()}, -c) in fs for a, c in fs)


class Model(Base):
    """The load path of a model."""
    def __init__(self, P, ctx, cls, S):
        super().__init__(P, ctx)
        self.dyncls, self.S, self.uses = cls, S, 0

    def inline(self, fn, call, args, obj, st):
        b = fn["b"]
        if "K" in fn["fl"] or "D" in fn["fl"] or b.startswith(("da_errors::", "da_options::", "std::")) or b.startswith(BUF):
            return False
        return fn["id"] in self.S.reach

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        if e[2].startswith(BUF + "::"):
            if n in ("dispatch_buffer_io", "deserialize_data"):
                self.ctx.count("stream_reads")
                for v in args:
                    if v[0] in ("ref", "&", "lv"):
                        p = v[1]
                        st = st.dropprefix((p + ".", p + "["))
                        st = self.fresh(st, "load:" + p).set(p, ("s", "load:" + p)) if "[]" not in p else st
                return [(("c", 0), st)]
            if n == "get_mode":
                return [(("c", self.S.modes["deserialize"]), st)]
            if n == "get_size":
                return [(("s", "bufsize"), st)]
            if n == "get_saved_serialization_version":
                return [(("s", "load:version"), st)]
            return [(("c", 0), st)]
        if e[2].startswith("da_errors::"):
            return [(("c", 1), st)]
        if n == "load_registry":
            return [(("c", 0), st)]
        if n in ("resize", "reserve", "assign") and obj is not None and args:
            self.need(args[0], e, st, "sizes a container")
        if n in ("operator[]", "at") and args:
            self.need(args[-1], e, st, "indexes an array")
        if n == "data" and obj is not None and obj[0] == "&":
            return [(("&", obj[1] + "[]"), st)]
        return self.container(e, args, obj, st)

    def fresh(self, st, sym):
        st = interp.St(st.env, {k: v for k, v in st.ref.items() if k != sym}, st.must, st.may)
        return st.drop(lambda f: sym in f)

    def need(self, v, e, st, what):
        v = self.val(v, st)
        l = lin.lin(v)
        if not l:
            return
        syms = [s for s, c in l[0] if s.startswith("load:")]
        if not syms:
            return
        self.uses += 1
        self.ctx.count("uses_of_loaded_numbers")
        for s in syms:
            up = any(not any(k.startswith("load:") for k in u) for u, c in self.uppers(st, s))
            if not self.lower(st, ("s", s)) or not up:
                m = s.split("->.")[-1]
                self.report("use|%s|%s" % (self.stack[-1]["b"].split("<")[0].split("::")[-1], m), e, "%s: %s with %s, which comes from the file and is not known to be %s" % (self.stack[-1]["b"], what, m, "non-negative" if not self.lower(st, ("s", s)) else "bounded"))

    def ev(self, e, st):
        if e and e[0] == "new" and e[2] and e[3]:
            for v, s in self.ev(e[3], st):
                self.need(v, e, s, "allocates an array")
        if e and e[0] == "bin" and e[1] in ("+", "-") and self.etype(e).rstrip().endswith("*"):
            for (a, b), s in self.seq([e[2], e[3]], st):
                self.need(b if self.etype(e[2]).rstrip().endswith("*") else a, e, s, "moves a pointer")
        if e and e[0] == "idx":
            for v, s in super().ev(e[2], st):
                self.need(v, e, s, "indexes an array")
        return super().ev(e, st)


class Meta(Base):
    """deserialize_metadata and load_registry: what success implies."""
    def __init__(self, P, ctx):
        super().__init__(P, ctx)
        self.n = 0

    def inline(self, fn, call, args, obj, st):
        return False

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2].split("::")[-1]
        if n in ("deserialize_data", "dispatch_buffer_io") and e[2].startswith(BUF):
            out = [(("c", 1), st)]
            for v in args:
                if v[0] in ("ref", "&", "lv"):
                    t = stream.canon(targets[0]["params"][0][2], set()) if targets else ""
                    s = "load:%s:%s" % (v[1], t)
                    st = st.drop(lambda f: s in f).set(v[1], ("s", s)).addmay("got:" + s)
            return out + [(("c", 0), st)]
        if n in ("operator!=", "operator==") and len(args) + (obj is not None) == 2:
            a, b = ([obj] if obj is not None else []) + list(args)
            vs = []
            for x in (a, b):
                vs.append(x[1] if x and len(x) > 1 and isinstance(x[1], str) else repr(x))
            if any(x.startswith(("find:", "end:")) for x in vs):
                return [(("cmp", "!=" if n == "operator!=" else "==", self.strongest(a), self.strongest(b)), st)]
            return [(("s", ("differs:" if n == "operator!=" else "equals:") + ir.show(e)), st)]
        if n in ("operator->", "operator*") and obj is not None:
            self.iter(obj, e, st)
        return self.container(e, args, obj, st)

    def strongest(self, v):
        return v if v[0] == "s" else ("s", v[1] if isinstance(v[1], str) else repr(v))

    def iter(self, v, e, st):
        x = v
        if x[0] == "&":
            x = st.env.get(x[1], x)
        if x[0] == "s" and x[1].startswith("find:"):
            self.ctx.count("lookups_dereferenced")
            end = "end:" + x[1][5:].rsplit(":", 1)[0]
            if not any(f.startswith("ne|") and x[1] in f and end in f for f in st.must):
                self.report("lookup|" + self.stack[-1]["b"].split("::")[-1], e, "%s: uses the result of a lookup by a name from the file without knowing that it was found" % self.stack[-1]["b"])

    def on_deref(self, v, e, st, write):
        self.iter(v, e, st)
        return st


class Alg(Base):
    """Dereferences of the algorithm object of a handle."""
    def inline(self, fn, call, args, obj, st):
        return False

    def on_deref(self, v, e, st, write):
        o = strip(e[3]) if e[0] == "call" and e[3] is not None else strip(e[1]) if e[0] == "mem" else None
        if o and o[0] == "mem" and o[2] in self.members:
            self.ctx.count("algorithm_object_uses")
            if self.truth(v, st) is not True:
                f = self.stack[-1]
                self.report("alg|%s|%s" % (f["b"], o[2]), e, "%s: uses %s without knowing that the handle holds an algorithm object" % (f["b"], o[2]))
        return st


def run(ctx):
    db, P = ctx.db, ctx.P
    P.lams = lams(P)
    modes = {v[0].split("::")[-1]: v[1] for en in db.enums.values() if en["q"].endswith("buffer_mode") for v in en["vals"]}
    ctx.require(set(modes) >= {"reserve", "serialize", "deserialize"}, "buffer modes")
    S = stream.Stream(db, P, modes)
    bad = {}
    # 1. primitives: every method of the buffer that touches the input pointer
    prims = [f for f in db.fns.values() if f.get("cls") == BUF and any(x[0] == "mem" and x[2] == "read_ptr" for e in ir.all_exprs(f) for x in [e]) and not f["b"].endswith("set_buffer_data") and "K" not in f["fl"]]
    ctx.require(len(prims) >= 4, "reading primitives")
    for f in prims:
        I = Prim(P, ctx)
        I.run(f, interp.St({"this": ("&", "this->")}))
        ctx.count("primitives")
        ctx.count("cfg_steps", I.stmts)
        bad.update({k: v for k, v in I.bad.items() if k not in bad})
    for f in db.fns.values():
        if f.get("cls") != BUF and any(e[0] == "mem" and e[2] == "read_ptr" and e[3] == BUF for e in ir.all_exprs(f)):
            bad["outside|" + f["b"]] = (ir.loc(f, f["line"]), "%s: reads the input buffer outside the checked primitives" % f["b"])
    # 2. models
    n = 0
    for q in sorted(P.recs):
        sup = P.supers(q)
        if "_Float16" in q or not any(s.startswith("basic_handle<") for s in sup):
            continue
        ld = [f for f in db.fns.values() if f["b"] == q + "::load_model"]
        if not ld:
            continue
        n += 1
        I = Model(P, ctx, q, S)
        outs = I.run(ld[0], interp.St({"this": ("&", "this->")}))
        ctx.count("models")
        ctx.count("cfg_steps", I.stmts)
        for k, v in I.bad.items():
            bad.setdefault(q.split("<")[0] + "|" + k, v)
        # the version of the file is compared before success
        for v, s in outs:
            if (v == ("c", 0) or I.val(v, s) == ("c", 0)) and not known(I, s, "load:version"):
                bad.setdefault(q.split("<")[0] + "|version", (ir.loc(ld[0], ld[0]["line"]), "%s: succeeds without the version of the file having been compared with the version of the class" % ld[0]["b"]))
    ctx.require(n >= 10, "models that can be loaded")
    # 3. metadata
    dm = [f for f in db.fns.values() if f["b"] == BUF + "::deserialize_metadata"]
    ctx.require(dm, "deserialize_metadata")
    I = Meta(P, ctx)
    f = dm[0]
    outs = I.run(f, interp.St({"this": ("&", "this->")}))
    good = [s for v, s in outs if I.val(v, s) == ("c", 0)]
    ctx.require(good, "successful path of deserialize_metadata")
    ctx.count("metadata_success_paths", len(good))
    for s in good:
        vec = [x for x in s.may if x.startswith("got:load:") and x.endswith("vec<char>")]
        kw = [k for k, r in s.ref.items() if (k.startswith("differs:") and r == ("eq", 0) or k.startswith("equals:") and r[0] == "ne") and "header_keyword" in k]
        if not kw:
            bad.setdefault("metadata|keyword", (ir.loc(f, f["line"]), "deserialize_metadata: can succeed without the file's keyword having been compared"))
        ver = [a for a, c in I.facts(s) if len(a) == 1 and "saved_serialization_version" in a[0][0] and a[0][1] == 1 and c <= -10000]
        if not ver:
            bad.setdefault("metadata|version", (ir.loc(f, f["line"]), "deserialize_metadata: can succeed for a version older than the oldest readable one"))
        legal = 0
        for k, r in s.ref.items():
            if k.startswith("load:") and r[0] == "eq" and r[1] in (4, 8):
                legal += 1
        if legal < 2:
            bad.setdefault("metadata|sizes", (ir.loc(f, f["line"]), "deserialize_metadata: can succeed for integer or floating-point sizes that are not legal"))
    lr = [g for g in db.fns.values() if g["b"] == "da_options::OptionRegistry::load_registry"]
    ctx.require(lr, "load_registry")
    I2 = Meta(P, ctx)
    I2.run(lr[0], interp.St({"this": ("&", "this->")}))
    for d in (I.bad, I2.bad):
        for k, v in d.items():
            bad.setdefault(k, v)
    # 4. algorithm objects
    rec = P.recs.get("_da_handle")
    ctx.require(rec, "_da_handle")
    ptrs = {fl[0] for fl in rec["fields"] if fl[1].startswith("basic_handle<")}
    ctx.require(len(ptrs) == 2, "algorithm objects of the handle")
    for g in db.fns.values():
        if g.get("cls") != "_da_handle" or "D" in g["fl"] or "K" in g["fl"]:
            continue
        I = Alg(P, ctx)
        I.members = ptrs
        I.run(g, interp.St({"this": ("&", "this->")}))
        for k, v in I.bad.items():
            bad.setdefault(k, v)
    for k, (w, m) in sorted(bad.items()):
        ctx.finding(k, w, m)
    ctx.rule("buffer reads and container sizes are dominated by a comparison with the bytes left")
    ctx.rule("numbers from the file are bounded on both sides before they size, index or move a pointer")
    ctx.rule("metadata, versions, option names and the algorithm object are verified before use")
