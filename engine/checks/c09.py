"""Saving, measuring and loading a model agree on the layout of the stream.

The layout of every model class is folded from its serialize method (helpers, lambdas and virtual
calls followed, mode tests decided) for the three buffer modes. Rules:
 1. the three layouts are the same sequence of types, loops, conditions and recursions;
 2. each datum is restored into the place it was saved from; data saved through a user pointer is
    restored into a vector that the pointer refers to after loading, and the leading dimension is
    then the packed one for either storage order;
 3. a loop bound or condition met while loading depends only on members loaded before it;
 4. metadata, option registry and option values are written and read in the same order with the
    same meaning, and the measured size covers them;
 5. the primitives agree: for every stored type the bytes measured, written and consumed per
    element are equal;
 6. saving and loading run the same stages in the same order, after measuring.
"""
import re
import interp, ir, stream
from c06 import lams
from ir import strip

BUF = stream.BUF
NS = "da_model_persistence::"


def members(text):
    return set(re.findall(r"\*?this\.([\w.\[\]]+)", text))


class Load(interp.Interp):
    """Follows load_model with every stream read succeeding; tells what members hold afterwards."""
    CAP = 30
    MAXDEPTH = 10

    def __init__(self, P, cls, order, S):
        super().__init__(P)
        self.dyncls, self.order, self.S = cls, order, S
        self.ends = []

    def inline(self, fn, call, args, obj, st):
        b = fn["b"]
        if "K" in fn["fl"] or "D" in fn["fl"] or b.startswith(("da_errors::", "da_options::")) or b.startswith(BUF):
            return False
        return obj == ("&", "this->")

    def on_call(self, e, targets, args, obj, st):
        if e[0] != "call":
            return None
        n = e[2]
        if n.startswith(BUF + "::"):
            short = n.split("::")[-1]
            if short in ("dispatch_buffer_io", "deserialize_data", "serialize_data"):
                for v in args:
                    if v[0] in ("ref", "&", "lv"):
                        p = v[1]
                        st = st.dropprefix((p + ".", p + "["))
                        if p == "this->.order":
                            st = st.set(p, ("c", self.order))
                        else:
                            st = st.set(p, ("s", "load:" + p))
                        st = st.add("loaded:" + p)
                return [(("c", 0), st)]
            if short == "get_mode":
                return [(("c", self.S.modes["deserialize"]), st)]
            if short == "get_saved_serialization_version":
                return [(("s", "version"), st)]
            return [(("c", 0), st)]
        if n.startswith("da_options::") and n.endswith("load_registry"):
            return [(("c", 0), st)]
        if n.startswith("da_errors::"):
            return [(("c", 1), st)]
        short = n.split("::")[-1]
        if short == "data" and obj is not None and obj[0] == "&":
            return [(("s", "data:" + obj[1]), st)]
        if short == "serialize" and not (obj == ("&", "this->")):
            return [(("c", 0), st)]
        return None


def run(ctx):
    db, P = ctx.db, ctx.P
    P.lams = lams(P)
    modes = {}
    for en in db.enums.values():
        for v in en["vals"]:
            if en["q"].endswith("buffer_mode"):
                modes[v[0].split("::")[-1]] = v[1]
    ctx.require(set(modes) >= {"reserve", "serialize", "deserialize"}, "buffer modes")
    order = {}
    for en in db.enums.values():
        for v in en["vals"]:
            if v[0].split("::")[-1] in ("row_major", "column_major"):
                order[v[0].split("::")[-1]] = v[1]
    S = stream.Stream(db, P, modes)
    n = 0
    for q in sorted(P.recs):
        sup = P.supers(q)
        if "_Float16" in q or not any(s.startswith("basic_handle<") for s in sup):
            continue
        ser = [f for f in db.fns.values() if f["b"] == q + "::serialize"]
        if not ser:
            continue
        n += 1
        layout(ctx, S, q, ser[0], sup, order)
    ctx.require(n >= 10, "serialisable model classes")
    metadata(ctx, S)
    registry(ctx, S)
    primitives(ctx, S)
    stages(ctx, S)
    for c in S.cut:
        ctx.finding("cut|%s" % (c[0] if isinstance(c, tuple) else c), "", "the stream layout could not be determined: %s" % (c,))
    ctx.rule("the layouts of reserve, serialize and deserialize mode are equal token for token, and places correspond")
    ctx.rule("user data: pointer, vector and leading dimension agree after loading, per storage order")
    ctx.rule("conditions and loop bounds of the load layout refer to data loaded earlier")


def layout(ctx, S, q, f, sup, order):
    P = S.P
    S.cls = q
    lay = {m: S.fold(f, m, {"this": "this"}) for m in S.modes}
    sig = {m: stream.sig(t) for m, t in lay.items()}
    where = ir.loc(f, f["line"])
    base = q.split("<")[0]
    flat = {m: list(stream.flat(t)) for m, t in lay.items()}
    ctx.count("classes")
    ctx.count("stream_data", len(flat["serialize"]))
    for m in ("reserve", "deserialize"):
        a, b = flat["serialize"], flat[m]
        if sig[m] != sig["serialize"]:
            i = next((i for i in range(min(len(a), len(b))) if (a[i][0][1], a[i][1]) != (b[i][0][1], b[i][1])), min(len(a), len(b)))
            sa = "%s %s" % a[i][0][1:3] if i < len(a) else "the end"
            sb = "%s %s" % b[i][0][1:3] if i < len(b) else "the end"
            ctx.finding("%s|layout|%s" % (base, m), where, "%s: item %d is %s when saving and %s when %s" % (q, i, sa, sb, {"reserve": "measuring the size", "deserialize": "loading"}[m]))
            return
    users = []
    for (x, _), (y, _), (z, _) in zip(flat["serialize"], flat["deserialize"], flat["reserve"]):
        ctx.count("places_compared")
        if x[2] != z[2]:
            ctx.finding("%s|size|%s" % (base, x[2]), where, "%s: the size is measured from %s where %s is saved" % (q, z[2], x[2]))
        if x[0] == "io" and x[3] == "user":
            users.append((x, y))
        elif x[2] != y[2]:
            ctx.finding("%s|place|%s" % (base, x[2]), where, "%s: %s is saved but loaded into %s" % (q, x[2], y[2]))
    # conditions depend on what has been loaded
    seen = set()
    for t, path in flat["deserialize"]:
        for kind, c in path:
            for m in members(c):
                ctx.count("conditions_checked")
                if not any(m == s or m.startswith(s + ".") for s in seen):
                    ctx.finding("%s|cond|%s" % (base, m), where, "%s: %s decides the layout while loading before it has been loaded" % (q, m))
        for m in members(t[2]) if t[0] == "io" else ():
            seen.add(m)
    seen2 = [y[2] for _, y in users]
    if not users:
        return
    load = [g for g in S.db.fns.values() if g["b"] == q + "::load_model"]
    ctx.require(load, "load_model of " + q)
    calls = usercalls(S, f, q)
    for ordname, ordval in sorted(order.items()):
        I = Load(P, q, ordval, S)
        outs = [s for v, s in I.run(load[0], interp.St({"this": ("&", "this->")})) if v == ("c", 0) or v[0] == "s" and I.val(v, s) == ("c", 0)]
        ctx.require(outs, "successful path of load_model of " + q)
        ctx.count("load_paths", len(outs))
        for x, y in users:
            p = "this->." + x[2].replace("this.", "")
            v = "this->." + y[2].replace("this.", "")
            vals = [s.env.get(p) for s in outs]
            ok = [w for w in vals if w == ("s", "data:" + v)]
            bad = [w for w in vals if w not in (None, ("s", "data:" + v)) and not (w[0] == "s" and w[1] == p) and w != ("c", 0)]
            ctx.count("user_data_pointers")
            if not ok or bad:
                ctx.finding("%s|user|%s" % (base, x[2]), ir.loc(load[0], load[0]["line"]), "%s: after loading, %s does not refer to the data loaded into %s" % (q, x[2], y[2]))
            for ptr, o, m, nn, ld in calls:
                if ptr != x[2] or not ld.startswith("this.") or nn == "1" or ld == m or ld == nn:
                    continue
                ctx.count("leading_dimensions")
                col = ordname == "column_major" if o == "this.order" else o.endswith("column_major") or o == str(order["column_major"])
                want = m if col else nn
                want = ("s", "load:this->." + want.replace("this.", ""))
                got = {s.env.get("this->." + ld.replace("this.", "")) for s in outs}
                if got != {want}:
                    ctx.finding("%s|ld|%s" % (base, ld), ir.loc(load[0], load[0]["line"]), "%s: after loading %s data, %s is %s, not %s: the loaded array has no padding" % (q, ordname, ld, sorted(str(g and g[1]).replace("load:this->.", "") for g in got), want[1].replace("load:this->.", "")))


def usercalls(S, f, q):
    """Arguments of the serialize_user_data calls reached: (pointer, order, m, n, ld)."""
    out = []
    for e in ir.all_exprs(f):
        if e[0] == "call" and e[2] == BUF + "::serialize_user_data":
            a = [S.place(x, {"this": "this"}) if ir.const_int(x) is None else str(ir.const_int(x)) for x in e[4]]
            out.append(tuple(str(x) for x in a))
    return out


def find(db, b):
    r = [f for f in db.fns.values() if f["b"] == b]
    return r


def metadata(ctx, S):
    db, P = S.db, S.P
    S.cls = None
    w = find(db, BUF + "::serialize_metadata")
    r = find(db, BUF + "::deserialize_metadata")
    pr = [f for f in find(db, NS + "print_model_metadata") if any("vector" in p[2] for p in f["params"])]
    ctx.require(w and r and pr, "metadata functions")
    lw = list(stream.flat(S.fold(w[0], "serialize", {"this": "this"})))
    for g, name in ((r[0], "deserialize_metadata"), (pr[0], "print_model_metadata")):
        lr = list(stream.flat(S.fold(g, "deserialize", {"this": "this"})))
        ctx.count("metadata_items", len(lr))
        if [(t[1], p) for t, p in lw] != [(t[1], p) for t, p in lr]:
            ctx.finding("metadata|" + name, ir.loc(g, g["line"]), "%s reads %s where %s are written" % (name, [t[1] for t, _ in lr], [t[1] for t, _ in lw]))
            continue
        rw, rr = roles(w[0], lw), roles(g, lr)
        for i, (a, b) in enumerate(zip(rw, rr)):
            if a and b and a != b:
                ctx.finding("metadata|%s|%s" % (name, b), ir.loc(g, g["line"]), "%s: item %d of the metadata is written as the %s and read as the %s" % (name, i, a, b))
    size = find(db, BUF + "::add_metadata_size")
    ctx.require(size, "add_metadata_size")
    const, terms = sizes(size[0])
    need = 8 * len(lw)
    ctx.count("metadata_bytes", need)
    if const < need or not {"size", "strlen"} <= terms:
        ctx.finding("metadata|size", ir.loc(size[0], size[0]["line"]), "the size reserved for the metadata (%d bytes and the lengths of %s) does not cover the %d items written" % (const, sorted(terms), len(lw)))


def sizes(f):
    """Constant bytes and the calls giving lengths that a function adds to the size."""
    total, terms = 0, set()
    def add(e):
        nonlocal total
        c = ir.const_int(e)
        if c is not None:
            total += c
            return
        e = strip(e)
        if e[0] == "bin" and e[1] == "+":
            add(e[2]); add(e[3])
        elif e[0] == "cast":
            add(e[3])
        elif e[0] == "call":
            n = e[2].split("::")[-1]
            terms.add("size" if n in ("size", "length") else n)
    for e in ir.all_exprs(f):
        if e[0] == "asg" and e[1] == "+=":
            add(e[3])
        elif e[0] == "asg" and e[1] == "=":
            x = strip(e[3])
            if x[0] == "bin" and x[1] == "+":
                add(x[3])
    return total, terms


def roles(f, toks):
    """What each metadata datum stands for, from how its variable is produced or used."""
    role = {}
    def mark(e, r):
        e = strip(e)
        while e and e[0] in ("cast", "ctor", "un"):
            e = strip(e[3] if e[0] == "cast" else e[2])
            if isinstance(e, list) and e and isinstance(e[0], list):
                return
        if e and e[0] == "var":
            role.setdefault(e[2], r)
        elif e and e[0] == "mem":
            role.setdefault(e[2], r)
    for s in ir.walk_stmts(f["body"]):
        if s[0] == "decl" and s[4]:
            for x in ir.walk(s[4]):
                if x[0] == "var" and x[2] == "header_keyword":
                    role[s[2]] = "keyword"
                elif x[0] == "call" and x[2].endswith("da_get_version"):
                    role[s[2]] = "library version"
                elif x[0] == "var" and x[4] == "p" and x[2] != s[2]:
                    role.setdefault(s[2], "precision" if x[2].startswith("prec") else "")
            if ir.const_int(s[4]) in (4, 8) and "int" in s[3] and "sizeof" not in role:
                role.setdefault(s[2], "integer size")
    for e in ir.all_exprs(f):
        if e[0] in ("bin", "call"):
            ops = [e[2], e[3]] if e[0] == "bin" else list(e[4]) if "operator" in e[2] else []
            names = {x[2] for o in ops if o for x in ir.walk(o) if x[0] == "var"}
            if "header_keyword" in names:
                for o in ops:
                    mark(o, "keyword")
            if "model_persistence_min_version" in names or e[0] == "bin" and e[1] in ("<", ">", "<=", ">=") and any(ir.const_int(o) is not None and ir.const_int(o) > 10000 for o in ops):
                for o in ops:
                    mark(o, "serialization version")
            if e[0] == "bin" and e[1] in ("==", "!=") and len(ops) == 2:
                c = [ir.const_int(o) for o in ops]
                if 8 in c:
                    pass
    labels = (("header", "keyword"), ("integer", "integer size"), ("serialization", "serialization version"), ("handle", "handle type"), ("precision", "precision"), ("build version", "library version"))
    via = {}
    for s in ir.walk_stmts(f["body"]):
        if s[0] == "decl" and s[4]:
            via[s[2]] = {x[2] for x in ir.walk(s[4]) if x[0] == "var"}
    for e0 in order_exprs(f):
        if e0[0] == "call" and e0[2].endswith("operator<<"):
            ops = ([e0[3]] if e0[3] is not None else []) + list(e0[4])
            if len(ops) == 2:
                inner = strip(ops[0])
                lab = None
                if inner and inner[0] == "call" and inner[2].endswith("operator<<"):
                    a = strip(inner[4][-1]) if inner[4] else None
                    while a and a[0] == "cast":
                        a = strip(a[3])
                    lab = a[1].lower() if a and a[0] == "str" else None
                if lab:
                    for k, r in labels:
                        if k in lab:
                            for x in ir.walk(ops[1]):
                                if x[0] == "var" and not x[2].startswith(("cout", "endl")):
                                    for v in {x[2]} | via.get(x[2], set()):
                                        role[v] = r
                            break
    out = []
    for t, _ in toks:
        n = t[2].split(".")[-1].strip("*&")
        r = role.get(n)
        if not r:
            if n == "handle_type":
                r = "handle type"
            elif n.startswith("prec"):
                r = "precision"
            elif "serialization_version" in n:
                r = "serialization version"
            elif "aoclda_version" in n:
                r = "library version"
            elif "int_size" in n:
                r = "integer size"
            elif "keyword" in n:
                r = "keyword"
        out.append(r if n != "header_keyword" else "keyword")
    return out


def registry(ctx, S):
    db, P = S.db, S.P
    S.cls = None
    one = lambda n: find(db, "da_options::OptionRegistry::" + n)
    sv, ld, cs = one("save_registry"), one("load_registry"), one("compute_serialized_size")
    ctx.require(sv and ld and cs, "registry persistence")
    opt = {}
    for f in db.fns.values():
        n = f["b"].split("::")[-1]
        if f["b"].startswith("da_options::Option") and n in ("serialize_option", "deserialize_option", "serialized_size") and f.get("cls"):
            opt.setdefault(f["cls"], {})[n] = f
    ctx.require(len(opt) >= 3, "option classes")
    for c, d in sorted(opt.items()):
        ctx.require(len(d) == 3, "persistence of " + c)
        w = list(stream.flat(S.fold(d["serialize_option"], "serialize", {"this": "this"})))
        r = list(stream.flat(S.fold(d["deserialize_option"], "deserialize", {"this": "this"})))
        ctx.count("option_classes")
        src = [(t[1], t[2]) for t, _ in w]
        dst = [(t[1], ends(S, d["deserialize_option"], t[2])) for t, _ in r]
        if not w or len(src) != len(dst) or any(a[0] != b[0] or a[1] not in b[1] for a, b in zip(src, dst)):
            ctx.finding("option|" + c.split("<")[0], ir.loc(d["deserialize_option"], d["deserialize_option"]["line"]), "%s: %s is saved and %s is loaded" % (c, [t[1:3] for t, _ in w], [t[1:3] for t, _ in r]))
        z = measured(S, d["serialized_size"])
        if z != sorted(t[2].split(".")[-1] for t, _ in w):
            ctx.finding("optionsize|" + c.split("<")[0], ir.loc(d["serialized_size"], d["serialized_size"]["line"]), "%s: the size of %s is measured and %s is saved" % (c, z, [t[2] for t, _ in w]))
    S.cls = None
    w = regtok(S, sv[0], "serialize")
    r = regtok(S, ld[0], "deserialize")
    ctx.count("registry_items", len(w))
    if w != r:
        ctx.finding("registry|load", ir.loc(ld[0], ld[0]["line"]), "the option registry is saved as %s and loaded as %s" % (w, r))
    z = []
    for e in ir.all_exprs(cs[0]):
        if e[0] == "call":
            if e[2].split("::")[-1] in ("get_type_size", "get_container_size"):
                ts = S.P.targets(e)
                z.append(stream.canon(ts[0]["params"][0][2] if ts else S.etype(e[4][0]), S.enums))
            elif e[2].split("::")[-1] == "serialized_size":
                z.append("option")
    for e in ir.all_exprs(cs[0]):
        if e[0] == "asg" and e[1] == "+=" and ir.const_int(e[3]) is not None:
            z.append("int" if ir.const_int(e[3]) == 8 else "?")
    need = sorted(x[-1] for x in w)
    if sorted(z) != need:
        ctx.finding("registry|size", ir.loc(cs[0], cs[0]["line"]), "the option registry is saved as %s and measured as %s" % (need, sorted(z)))


def ends(S, f, place, depth=0):
    """The places a loaded datum ends up in: itself, or the members a loaded local is then given to."""
    out = {place}
    if place.startswith("this") or depth > 4:
        return out
    def has(e):
        return any(x[0] == "var" and x[2] == place for x in ir.walk(e))
    for e in ir.all_exprs(f):
        if e[0] == "asg" and e[1] == "=" and has(e[3]):
            out.add(S.place(e[2], {"this": "this"}))
        elif e[0] == "call":
            n = e[2].split("::")[-1]
            if n == "operator=" and e[3] is not None and has(e[4][0]):
                out.add(S.place(e[3], {"this": "this"}))
            elif e[3] is not None and strip(e[3])[0] == "this":
                for t in S.P.targets(e, S.cls):
                    for a, q in zip(e[4], t["params"]):
                        if has(a) and t is not f:
                            out |= ends(S, t, q[1], depth + 1)
    for s in ir.walk_stmts(f["body"]):
        if s[0] == "decl" and s[4] and s[2] != place and has(s[4]) and depth < 4:
            out |= ends(S, f, s[2], depth + 2)
    return out


def measured(S, f):
    out = []
    for e in ir.all_exprs(f):
        if e[0] == "call" and e[2].split("::")[-1] in ("get_type_size", "get_container_size"):
            out.append(S.place(e[4][0], {"this": "this"}).split(".")[-1])
    return sorted(out)


def regtok(S, f, mode):
    """Types in stream order with whether they are inside the loop; option values as one item."""
    out = []
    def ex(e, inl):
        for x in ir.post(e):
            if x[0] == "call":
                n = x[2].split("::")[-1]
                if n in ("serialize_data", "deserialize_data", "dispatch_buffer_io"):
                    out.append((inl, stream.canon(S.etype(x[4][0]), S.enums)))
                elif n in ("serialize_option", "deserialize_option"):
                    out.append((inl, "option"))
    def st(s, inl):
        if s is None:
            return
        k = s[0]
        loop = inl or k in ("for", "while", "do", "rfor")
        for e in ir.stmt_exprs(s):
            ex(e, loop)
        for t in ir.substmts(s):
            st(t, loop)
    st(f["body"], False)
    return out


def primitives(ctx, S):
    """Bytes per element when measuring, writing and reading each stored type."""
    db = S.db
    W = Width(S)
    types = {}
    for f in db.fns.values():
        if f["b"] == BUF + "::dispatch_buffer_io":
            types[stream.unref(f["params"][0][2])] = f
    ctx.require(len(types) >= 10, "dispatch_buffer_io instantiations")
    for t, f in sorted(types.items()):
        r = {}
        calls = [e for e in ir.all_exprs(f) if e[0] == "call"]
        for e in calls:
            n = e[2].split("::")[-1]
            if n == "get_type_size":
                r["measured"] = W.of(e)
            elif n == "serialize_data":
                r["written"] = W.of(e)
            elif n == "deserialize_data":
                r["read"] = W.of(e)
        ctx.count("stored_types")
        ctx.require(len(r) == 3, "dispatch of " + t)
        if len(set(r.values())) != 1:
            ctx.finding("width|" + t, ir.loc(f, f["line"]), "a value of type %s is measured as %s, written as %s and read as %s bytes" % (t, r["measured"], r["written"], r["read"]))
        ctx.sample("%s: %s" % (t, r["written"]))
    # user data is laid out as a vector of its elements
    for f in db.fns.values():
        if f["b"] == BUF + "::serialize_user_data":
            t = stream.unref(f["params"][0][2]).rstrip("*").strip()
            if t.startswith("const "):
                t = t[6:]
            one = W.scalar(t)
            mult = [ir.const_int(x) for e in ir.all_exprs(f) if e[0] == "call" and e[2].endswith("::add_size") for x in ir.walk(e[4][0]) if ir.const_int(x) is not None]
            ctx.count("user_data_types")
            if one is None or mult != [one] :
                ctx.finding("width|user " + t, ir.loc(f, f["line"]), "user data of type %s is measured as %s bytes per element and loaded as %s" % (t, mult, one))
            for g in db.fns.values():
                if g["b"] == BUF + "::serialize_user_data_impl" and stream.unref(g["params"][0][2]).replace("const ", "").rstrip("*").strip() == t:
                    w = W.user(g)
                    if w != one:
                        ctx.finding("width|user write " + t, ir.loc(g, g["line"]), "user data of type %s is written as %s bytes per element and loaded as %s" % (t, w, one))


class Width:
    """Symbolic size of one datum: ("c", bytes) or ("vec", header bytes, element)."""
    def __init__(self, S):
        self.S, self.P, self.memo = S, S.P, {}

    def of(self, call):
        ts = self.P.targets(call)
        return self.fn(ts[0]) if ts else None

    def scalar(self, t):
        for f in self.S.db.fns.values():
            if f["b"] == BUF + "::deserialize_data" and stream.unref(f["params"][0][2]) == t:
                w = self.fn(f)
                return w[1] if w and w[0] == "c" else None
        return None

    def user(self, f):
        for e in ir.all_exprs(f):
            if e[0] == "call" and e[2].endswith("::insert_data_in_buffer"):
                w = self.of(e)
                return w[1] if w else None
        for e in ir.all_exprs(f):
            if e[0] == "call" and e[2].split("::")[-1] == "insert":
                for x in ir.walk(e[4][-1]):
                    if x[0] == "bin" and x[1] == "*":
                        for o in x[2:4]:
                            if ir.const_int(o) is not None:
                                return ir.const_int(o)
        return None

    def fn(self, f):
        if f["id"] in self.memo:
            return self.memo[f["id"]]
        self.memo[f["id"]] = ("rec", f["b"])
        w = self.calc(f)
        self.memo[f["id"]] = w
        return w

    def calc(self, f):
        n = f["b"].split("::")[-1]
        loops = [s for s in ir.walk_stmts(f["body"]) if s[0] in ("for", "rfor", "while", "do")]
        inloop = set()
        for l in loops:
            for s in ir.walk_stmts(l):
                for e in ir.stmt_exprs(s):
                    for x in ir.walk(e):
                        inloop.add(id(x))
        head, elem = 0, None
        per = {"insert_data_in_buffer", "serialize_data", "deserialize_data", "serialize_container_impl", "deserialize_container_impl", "get_type_size", "get_container_size"}
        if n == "insert_data_in_buffer":
            return self.inserted(f)
        for e in self.exprs(f):
            if e[0] == "call":
                s = e[2].split("::")[-1]
                if s in per:
                    w = self.of(e)
                    if id(e) in inloop:
                        elem = w
                    elif w and w[0] == "vec":
                        return w
                    elif w:
                        head += w[1] if isinstance(w[1], int) else 0
                elif s == "memcpy" and id(e) not in inloop:
                    c = ir.const_int(e[4][2])
                    off = self.advance(f)
                    if c is None or off != c:
                        return ("memcpy", c, off)
                    head += c
            elif e[0] == "const" and False:
                pass
        if n in ("get_container_size", "get_type_size") and elem is None and not head or n == "get_container_size":
            return self.measure(f, elem)
        return ("vec", head, elem) if elem is not None else ("c", head)

    def exprs(self, f):
        return ir.all_exprs(f)

    def advance(self, f):
        tot = 0
        for e in ir.all_exprs(f):
            if e[0] == "asg" and e[1] == "+=" and strip(e[2])[0] == "mem" and strip(e[2])[2] == "offset":
                c = ir.const_int(e[3])
                tot += c if c is not None else -1000
        return tot

    def inserted(self, f):
        c = None
        for e in ir.all_exprs(f):
            if e[0] == "call" and e[2].split("::")[-1] == "insert":
                for x in ir.walk(e[4][-1]):
                    if x[0] == "bin" and x[1] == "+":
                        c = ir.const_int(x[3])
        return ("c", c)

    def measure(self, f, elem):
        """Size functions: constants of the returned/accumulated value."""
        head, mult = 0, None
        for s in ir.walk_stmts(f["body"]):
            if s[0] == "ret" and s[1]:
                c = ir.const_int(s[1])
                if c is not None:
                    return ("c", c)
            if s[0] == "decl" and s[4]:
                c = ir.const_int(s[4])
                if c is not None:
                    self.decls = getattr(self, "decls", {})
                    self.decls[s[1]] = c
        for s in ir.walk_stmts(f["body"]):
            if s[0] == "decl" and s[2] and s[4] and ir.const_int(s[4]) is not None:
                # accumulator or element size
                used = [e for e in ir.all_exprs(f) if e[0] == "asg" and strip(e[2])[0] == "var" and strip(e[2])[1] == s[1]]
                if used:
                    head += ir.const_int(s[4])
        for e in ir.all_exprs(f):
            if e[0] == "asg" and e[1] == "+=":
                x = strip(e[3])
                if x[0] == "bin" and x[1] == "*":
                    for o in x[2:4]:
                        c = ir.const_int(o)
                        o = strip(o)
                        if c is None and o and o[0] == "var":
                            c = self.decls.get(o[1])
                        if c is not None:
                            elem = ("c", c)
                elif ir.const_int(x) is not None:
                    head += ir.const_int(x)
        return ("vec", head, elem)


def stages(ctx, S):
    """Order of the stages of saving and loading, helpers on the same object followed."""
    db, P = S.db, S.P
    for prec in ("float", "double"):
        q = "basic_handle<%s>" % prec
        sv, ld = find(db, q + "::save_model"), find(db, q + "::load_model")
        ctx.require(sv and ld, "save_model and load_model of " + q)
        def seq(f, seen=()):
            out = []
            for e in order_exprs(f):
                if e[0] != "call":
                    continue
                n = e[2].split("::")[-1]
                if n == "set_mode":
                    out.append("mode %s" % ir.const_int(e[4][0]))
                elif n in ("serialize_metadata", "save_registry", "load_registry", "compute_serialized_size", "reserve", "clear_data") or n == "serialize" and e[3] is not None:
                    out.append({"save_registry": "registry", "load_registry": "registry", "serialize": "model", "serialize_metadata": "metadata"}.get(n, n))
                elif e[3] is not None and strip(e[3]) and strip(e[3])[0] == "this" and f["id"] not in seen:
                    for t in P.targets(e)[:1]:
                        out += seq(t, seen + (f["id"],))
            return out
        a, b = seq(sv[0]), seq(ld[0])
        ctx.count("stages", len(a) + len(b))
        rs, sr = "mode %d" % S.modes["reserve"], "mode %d" % S.modes["serialize"]
        ok = rs in a and sr in a and a.index(rs) < a.index(sr)
        if ok:
            pre, post = a[a.index(rs):a.index(sr)], a[a.index(sr) + 1:]
            ok = "model" in pre and "compute_serialized_size" in pre and post == ["metadata"] + b
            ok = ok and "reserve" in pre and pre.index("reserve") > max(pre.index("model"), pre.index("compute_serialized_size"))
            ok = ok and "clear_data" in a[:a.index(sr)] and a.index("clear_data") < a.index(sr)
        if not ok or sorted(b) != ["model", "registry"]:
            ctx.finding("stages|" + prec, ir.loc(sv[0], sv[0]["line"]), "saving runs %s and loading runs %s after the metadata" % (a, b))


def order_exprs(f):
    for s in ir.walk_stmts(f["body"]):
        for e in ir.stmt_exprs(s):
            for x in ir.post(e):
                yield x
