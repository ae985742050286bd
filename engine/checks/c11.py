"""Option tables and their uses agree.

The registries are rebuilt from the constructors that fill them (every OptionString /
OptionNumeric object built on the way, with name, type, range, default and labels).  Then:
 1 every option read or written by name anywhere in the library names an option that every
   registry it may address holds, with the same type;
 2 every constant written is inside the option's range or label set, and a value forwarded from
   another option comes from a range contained in the destination's;
 3 every definition is itself valid (default inside the range, default among the labels, label
   and option names unique) and every option object built is registered;
 4 every registered option is read by the algorithm that registers it, so that no accepted
   option is silently without effect;
 5 the published option tables (doc/C/options/all_table.rst) list the same options with the same
   types, ranges, labels and defaults.
"""
import csv, os, re
import ir, optmodel
from ir import strip, const_int

INF = float("inf")


def run(ctx):
    P = ctx.P
    M = optmodel.OptModel(P)
    ctx.require(len(M.registries) > 20, "option registries (found %d)" % len(M.registries))
    definitions(ctx, P, M)
    uses(ctx, P, M)
    docs(ctx, P, M)


# ---------------------------------------------------------------- rule 3
def bounds(o):
    lo, lb, up, ub, d = o.args
    L = (lo, lb == 1) if lb in (1, 2) else (-INF, False)
    U = (up, ub == 1) if ub in (1, 2) else (INF, False)
    return L, U, d


def definitions(ctx, P, M):
    ctx.rule("an option's default lies in its own range or label set; labels and names are unique; an option object that is built is registered")
    seen = set()
    for q, os_ in M.registries.items():
        names = {}
        for o in os_:
            if (o.fn["id"], o.line, o.name) in names.setdefault(o.name, set()):
                continue
            names[o.name].add((o.fn["id"], o.line, o.name))
            k = (o.fn["b"], o.name)
            if k in seen:
                continue
            seen.add(k)
            ctx.count("options_defined")
            w = ir.loc(o.fn, o.line)
            if o.kind == "string":
                if o.labels and o.default is not None and optmodel.tidy(o.default) not in o.labels:
                    ctx.finding("default:%s:%s" % (o.fn["b"], o.name), w, "the default '%s' of option '%s' is not one of its labels" % (o.default, o.name))
            elif o.args:
                r = o.outside(o.args[4]) if o.args[4] is not None else None
                if r:
                    ctx.finding("default:%s:%s" % (o.fn["b"], o.name), w, "default of option '%s': %s" % (o.name, r))
                L, U, d = bounds(o)
                if L[0] is not None and U[0] is not None and L[0] > U[0]:
                    ctx.finding("range:%s:%s" % (o.fn["b"], o.name), w, "option '%s' has an empty range" % o.name)
        for n, defs in names.items():
            if len(defs) > 1:
                ds = {(d[1]) for d in defs}
                if len({(P.fns[d[0]]["b"], d[1]) for d in defs}) > 1:
                    o = [x for x in os_ if x.name == n][0]
                    ctx.finding("duplicate:%s:%s" % (q.split("<")[0], n), ir.loc(o.fn, o.line), "option '%s' is registered twice by %s; the second registration is rejected" % (n, q))
    # duplicate labels: two pairs with the same text
    for f in P.fns.values():
        for o in M.local.get(f["id"], ()):
            if o.kind == "string" and o.rawlabels:
                dup = {optmodel.tidy(a) for i, (a, _) in enumerate(o.rawlabels) if optmodel.tidy(a) in [optmodel.tidy(b) for b, _ in o.rawlabels[:i]]}
                for l in dup:
                    ctx.finding("label:%s:%s:%s" % (f["b"], o.name, l), ir.loc(f, o.line), "label '%s' of option '%s' appears twice" % (l, o.name))
                for a, v in o.rawlabels:
                    if v is None:
                        ctx.count("labels_with_computed_code")
    ctx.rule("a label that spells an enumerator of the enumeration it is converted to is converted to that enumerator; yes is true and no is false")
    byname = {}
    for en in ctx.db.enums.values():
        pre = en["q"].rsplit("::", 1)[0] + "::" if "::" in en["q"] else ""
        for v in en["vals"]:
            byname.setdefault(pre + v[0], en)
            byname.setdefault(en["q"] + "::" + v[0], en)
    nrm = lambda t: re.sub(r"[^a-z0-9]", "", re.sub(r"^da_", "", t.lower()))
    for f in P.fns.values():
        for name, e in M.built.get(f["id"], ()):
            if e[2] != "da_options::OptionString":
                continue
            for x in ir.walk(e[3][2]):
                if x[0] == "ctor" and len(x[3]) == 2 and "pair<" in x[2]:
                    l, y = optmodel.literal(x[3][0]), [z for z in ir.walk(x[3][1]) if z[0] == "enum"]
                    v = const_int(x[3][1])
                    if l in ("yes", "no") and v is not None and bool(v) != (l == "yes"):
                        ctx.finding("code:%s:%s:%s" % (f["b"], name, l), ir.loc(f, e[4]), "label '%s' of option '%s' is converted to %s" % (l, name, v))
                    if not l or not y or y[0][1] not in byname:
                        continue
                    ctx.count("labels_with_enumerator")
                    mine = y[0][1].split("::")[-1]
                    others = [k[0] for k in byname[y[0][1]]["vals"] if nrm(k[0]) == nrm(l)]
                    if others and nrm(l) not in nrm(mine):
                        ctx.finding("code:%s:%s:%s" % (f["b"], name, l), ir.loc(f, e[4]), "label '%s' of option '%s' is converted to %s although %s exists" % (l, name, mine, others[0]))
    # an option object must reach register_opt
    for f in P.fns.values():
        mine = M.built.get(f["id"], ())
        if not mine or f.get("cls", "").startswith("da_options::Option"):
            continue
        g = ir.cfg(f)
        regs = []
        for n in g.nodes:
            if n.e is not None:
                for x in ir.calls(n.e):
                    if x[0] == "call" and x[2].endswith("::register_opt"):
                        regs.append((n.id, x))
        regn = {n for n, _ in regs}
        for name, expr in mine:
            src = [n.id for n in g.nodes if n.e is not None and any(x is expr for x in ir.walk(n.e))]
            if not src:
                continue
            ctx.count("option_objects")
            # from the definition every path to the exit meets register_opt, before the next definition
            others = {n.id for n in g.nodes if n.e is not None and n.id not in src and any(x is p for _, p in mine for x in ir.walk(n.e))}
            if src[0] in regn:
                continue
            stack, vis, bad = [src[0]], set(), None
            while stack:
                n = stack.pop()
                for s, lab in g.nodes[n].succ:
                    if lab == "exc" or s in vis:
                        continue
                    vis.add(s)
                    if s in regn:
                        continue
                    if s in others or s == g.exit.id:
                        bad = s
                        continue
                    stack.append(s)
            if bad is not None:
                ctx.finding("unregistered:%s:%s" % (f["b"], name), ir.loc(f, expr[4]), "option '%s' is built but a path leaves without registering it" % name)


# ---------------------------------------------------------------- rules 1, 2, 4
def uses(ctx, P, M):
    ctx.rule("an option used by name is registered with that name and type in every registry the use may address; values written are valid")
    ctx.rule("every registered option is read under its name by code that addresses its registry")
    read = {}
    n = 0
    sources = {}
    ulist = list(M.uses())
    for f, e in ulist:
        ids = M.identity(f, e[3])
        ns = M.names(f, e)
        if ids and ns and e[2].endswith("::get"):
            for q in ids:
                for m in ns:
                    read.setdefault(q, set()).add(m)
    # what an option value is read into: variable or member -> (registry set, names)
    for f, e in ulist:
        if e[2].endswith("::get") and len(e[4]) >= 2:
            ids, ns = M.identity(f, e[3]), M.names(f, e)
            if ids and ns:
                for a in e[4][1:]:
                    t = target(f, a)
                    if t:
                        sources.setdefault(t, []).append((ids, ns, f))
    written = writes(P, sources, ulist)
    for f, e in ulist:
        n += 1
        r = M.provable(f, e)
        if r is None:
            ctx.count("uses_proved")
            continue
        key = "use:%s:%s" % (f["b"], "/".join(sorted(M.names(f, e) or ["?"])))
        w = ir.loc(f, ir.line_of(e))
        if "not constant" in r and "value" in r:
            ctx.count("computed_values_written")
            t = target(f, e[4][1])
            if t in sources and not written.get(t):
                ids, ns = M.identity(f, e[3]), M.names(f, e)
                for sid, sns, sf in sources[t]:
                    for q1 in sid:
                        for q2 in ids:
                                forward(ctx, M, f, e, q1, sns, q2, ns, w)
            continue
        if "name is not constant" in r:
            ctx.count("user_named_uses")
            if not user_named(P, M, f, e):
                ctx.finding(key, w, "the option name is computed in a way the analysis cannot follow; it must come from the caller of the options interface or be constant")
            continue
        ctx.finding(key, w, "%s: %s" % (ir.show(e)[:80], r))
    ctx.require(n > 200, "option uses (found %d)" % n)
    gen = {}  # a mixed-precision option is only read by the instantiations with a lower precision
    for q, r in read.items():
        gen.setdefault(q.split("<")[0], set()).update(r)
    for q, os_ in M.registries.items():
        for nm in sorted({o.name for o in os_}):
            ctx.count("registered_options")
            if nm not in gen.get(q.split("<")[0], ()):
                o = [x for x in os_ if x.name == nm][0]
                ctx.finding("unread:%s:%s" % (o.fn["b"], nm), ir.loc(o.fn, o.line), "option '%s' is registered by %s but never read there, so setting it has no effect" % (nm, q))


def target(f, a):
    a = strip(a)
    while a and a[0] == "un" and a[1] in ("&", "*"):
        a = strip(a[2])
    while a and a[0] == "ctor" and len(a[3]) == 1:
        a = strip(a[3][0])
    if a and a[0] == "var" and a[4] in ("l", "p"):
        return (f["id"], a[1])
    if a and a[0] == "mem" and strip(a[1]) and strip(a[1])[0] == "this":
        return ("m", a[3], a[2])
    return None


def writes(P, sources, ulist):
    """Targets that are also written by something other than an option read."""
    uid = {id(e) for _, e in ulist}
    out = {}
    for f in P.fns.values():
        for x in ir.all_exprs(f):
            t = None
            if x[0] == "asg":
                t = target(f, x[2])
            elif x[0] == "un" and x[1] in ("++", "--", "p++", "p--", "++p", "--p"):
                t = target(f, x[2])
            elif x[0] == "call" and id(x) not in uid and x[2].split("::")[-1] in ("operator=", "operator+="):
                t = target(f, x[3]) if x[3] is not None else None
            elif x[0] == "call" and id(x) not in uid:
                for a in x[4]:
                    a2 = strip(a)
                    if a2 and a2[0] == "un" and a2[1] == "&":
                        t2 = target(f, a2)
                        if t2 in sources:
                            out[t2] = True
            if t in sources:
                out[t] = True
    return out


def forward(ctx, M, f, e, q1, n1, q2, n2, w):
    for a in n1:
        for b in n2:
            s = [o for o in M.registries.get(q1, ()) if o.name == a]
            d = [o for o in M.registries.get(q2, ()) if o.name == b]
            if not s or not d or s[0].kind != d[0].kind:
                continue
            s, d = s[0], d[0]
            ctx.count("forwarded_options")
            bad = None
            if s.kind == "string":
                if d.labels:
                    bad = [l for l in s.labels if l not in d.labels]
                    bad = "labels %s" % ", ".join(bad) if bad else None
            elif s.args and d.args:
                (l1, s1), (u1, t1), _ = bounds(s)
                (l2, s2), (u2, t2), _ = bounds(d)
                if None not in (l1, l2) and (l1 < l2 or (l1 == l2 and s2 and not s1)):
                    bad = "values near %s" % l1
                if None not in (u1, u2) and (u1 > u2 or (u1 == u2 and t2 and not t1 and u1 != INF)):
                    bad = "values near %s" % u1
            if bad:
                ctx.finding("forward:%s:%s>%s" % (f["b"], a, b), w, "option '%s' accepts %s which '%s', to which it is forwarded, rejects" % (a, bad, b))


def user_named(P, M, f, e):
    """The name is a parameter of a public options function (directly or through its callers)."""
    def go(f, a, d):
        v = strip(a)
        while v and v[0] in ("ctor", "un", "cast"):
            if v[0] == "ctor":
                if not v[3]:
                    return False
                v = strip(v[3][0])
            else:
                v = strip(v[2] if v[0] == "un" else v[3])
        if not v or v[0] != "var" or d > 4:
            return False
        idx = [i for i, p in enumerate(f["params"]) if p[0] == v[1]]
        if not idx:
            for s in ir.walk_stmts(f["body"]):
                if s[0] == "decl" and s[1] == v[1] and s[4]:
                    return go(f, s[4], d + 1)
            return False
        if re.match(r"da_(datastore_)?options_", f["b"].split("::")[-1]):
            return True
        cs = M.callers.get(f["id"], ())
        return bool(cs) and all(go(g, (c[4] if c[0] == "call" else c[3])[idx[0]], d + 1) for g, c in cs)
    return go(f, e[4][0], 0)


# ---------------------------------------------------------------- rule 5
SPECIAL = {r"\infty": INF}


def docnum(s):
    s = s.strip()
    m = re.fullmatch(r"(-?)(\d+(?:\.\d+)?)?(?:10\^\{?(-?\d+)\}?)", s)
    if m and (m.group(2) is None):
        return (-1 if m.group(1) else 1) * 10.0 ** int(m.group(3))
    if re.fullmatch(r"-?\d+(\.\d+)?(e-?\d+)?", s):
        return float(s)
    return None


def docs(ctx, P, M):
    path = "/repo/doc/C/options/all_table.rst"
    ctx.require(os.path.exists(path), path)
    ctx.rule("the published option tables match the registered options: names, types, labels, ranges, defaults")
    tabs, cur = {}, None
    for no, line in enumerate(open(path), 1):
        m = re.match(r"\.\. csv-table:: (.*)", line)
        if m:
            cur = tabs.setdefault(m.group(1), [])
        elif cur is not None and line.startswith('   "'):
            row = next(csv.reader([line.strip()], skipinitialspace=True, escapechar="~"))
            if len(row) == 5:
                cur.append((no, row))
    ctx.require(len(tabs) >= 10, "option tables in " + path)
    for title, rows in tabs.items():
        names = {optmodel.tidy(r[0]) for _, r in rows}
        best, bs = [], 0
        for q, os_ in M.registries.items():
            if "_Float16" in q:
                continue
            have = {o.name for o in os_}
            j = len(have & names) / len(have | names)
            if j > bs + 1e-9:
                best, bs = [q], j
            elif abs(j - bs) < 1e-9:
                best.append(q)
        t = re.sub(r"[:`*.]|strong|cpp:type", "", title).strip()
        ctx.require(bs > 0.5, "a registry matching the documented table '%s'" % t)
        for q in best:
            os_ = {o.name: o for o in M.registries[q]}
            for n in sorted(set(os_) - names):
                ctx.finding("doc-missing:%s:%s" % (os_[n].fn["b"], n), ir.loc(os_[n].fn, os_[n].line), "option '%s' of %s is missing from '%s'" % (n, q, t))
            for no, (name, typ, dflt, desc, cons) in rows:
                n = optmodel.tidy(name)
                w = "doc/C/options/all_table.rst:%d" % no
                o = os_.get(n)
                if o is None:
                    if M.incomplete(q):
                        continue
                    ctx.finding("doc-extra:%s:%s" % (t, n), w, "documented option '%s' is not registered by %s" % (n, q))
                    continue
                ctx.count("documented_options")
                kind = {"integer": "int", "string": "string", "real": "real", "boolean": "bool"}.get(typ, typ)
                have = "real" if o.kind in ("float", "double") else o.kind
                if kind != have:
                    ctx.finding("doc-type:%s:%s" % (o.fn["b"], n), ir.loc(o.fn, o.line), "option '%s' is registered as %s but documented as %s" % (n, have, kind))
                    continue
                compare(ctx, o, dflt, cons, w, t)


def compare(ctx, o, dflt, cons, w, t):
    here = ir.loc(o.fn, o.line)
    if o.kind == "string":
        labs = {optmodel.tidy(x) for x in re.findall(r"`([^`]+)`", cons.replace(":math:`s=`", ""))}
        if o.labels and labs and labs != set(o.labels):
            d = sorted(labs ^ set(o.labels))
            ctx.finding("doc-labels:%s:%s" % (o.fn["b"], o.name), here, "labels of option '%s' differ from the documented ones (%s, %s): %s" % (o.name, t, w, ", ".join(d)))
        m = re.findall(r"`([^`]+)`", dflt.replace(":math:`s=`", ""))
        if m and o.default is not None and o.labels and optmodel.tidy(m[0]) != optmodel.tidy(o.default):
            # two spellings of one label code are the same default
            if o.labels.get(optmodel.tidy(m[0]), "x") != o.labels.get(optmodel.tidy(o.default), "y"):
                ctx.finding("doc-default:%s:%s" % (o.fn["b"], o.name), here, "default of option '%s' is '%s' but documented as '%s' (%s)" % (o.name, o.default, m[0], w))
        return
    if not o.args:
        return
    m = re.match(r":math:`[ir]=(.*)`", dflt)
    if m and o.args[4] is not None:
        v = docnum(m.group(1))
        if v is not None and v != float(o.args[4]) and abs(v - o.args[4]) > 1e-6 * abs(v):
            ctx.finding("doc-default:%s:%s" % (o.fn["b"], o.name), here, "default of option '%s' is %s but documented as %s (%s)" % (o.name, o.args[4], m.group(1), w))
    c = re.match(r":math:`(.*)`", cons)
    if not c:
        return
    c = c.group(1)
    lo = re.match(r"(\S+) (\\le|<) [ir]", c)
    up = re.search(r"[ir] (\\le|<) (\S+)$", c)
    (l, ls), (u, us), _ = bounds(o)
    dl = docnum(lo.group(1)) if lo else -INF
    du = docnum(up.group(2)) if up else INF
    if dl is not None and l is not None and (dl != l or (lo and (lo.group(2) == "<") != ls)):
        ctx.finding("doc-lower:%s:%s" % (o.fn["b"], o.name), here, "lower bound of option '%s' is %s%s but documented as %s (%s)" % (o.name, l, " (excluded)" if ls else "", c, w))
    if du is not None and u is not None and (du != u or (up and (up.group(1) == "<") != us)):
        ctx.finding("doc-upper:%s:%s" % (o.fn["b"], o.name), here, "upper bound of option '%s' is %s%s but documented as %s (%s)" % (o.name, u, " (excluded)" if us else "", c, w))
