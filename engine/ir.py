"""Control-flow graphs and expression helpers over the extracted facts."""
import re
from functools import lru_cache

# ------------------------------------------------------------------ expressions
_SKIP = (str, int, float, bool, type(None))


def kids(e):
    """Direct sub-expressions of an expression node."""
    k = e[0]
    if k == "call":
        return ([e[3]] if e[3] else []) + list(e[4])
    if k == "icall":
        return [e[1]] + ([e[2]] if e[2] else []) + list(e[3])
    if k == "ctor":
        return list(e[3])
    if k == "mem":
        return [e[1]]
    if k == "bin" or k == "asg":
        return [e[2], e[3]]
    if k == "un":
        return [e[2]]
    if k == "idx":
        return [e[1], e[2]]
    if k == "cond":
        return [e[1], e[2], e[3]]
    if k == "cast":
        return [e[3]]
    if k == "new":
        return [x for x in (e[3], e[4]) if x]
    if k == "del" or k == "thr":
        return [e[1]] if e[1] else []
    if k == "init":
        return list(e[1])
    if k == "op":
        return [x for x in e[2:] if isinstance(x, list)]
    return []


def walk(e):
    """Every node of an expression, outside-in."""
    if not e:
        return
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, list) or not x:
            continue
        yield x
        st.extend(reversed([c for c in kids(x) if c]))


def post(e):
    """Every node of an expression, operands first (an evaluation order)."""
    if not e or not isinstance(e, list):
        return
    k = e[0]
    cs = kids(e)
    if k == "asg":
        cs = [e[3], e[2]]
    for c in cs:
        if c:
            yield from post(c)
    yield e


def strip(e):
    """Without value-preserving wrappers."""
    while e and e[0] == "cast":
        e = e[3]
    return e


def strip_noop(e):
    while e and e[0] == "cast" and e[1] in ("NoOp", "BitCast", "IntegralCast", "LValueToRValue", "UserDefinedConversion", "Dependent", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "ToVoid"):
        e = e[3]
    return e


def const_int(e):
    e = strip(e)
    if not e:
        return None
    if e[0] == "int" and isinstance(e[1], int):
        return e[1]
    if e[0] == "enum":
        return e[2]
    if e[0] == "bool":
        return int(e[1])
    if e[0] == "un" and e[1] == "-":
        v = const_int(e[2])
        return None if v is None else -v
    return None


def is_null(e):
    e = strip(e)
    return bool(e) and (e[0] == "null" or (e[0] == "int" and e[1] == 0))


def calls(e):
    for x in walk(e):
        if x[0] in ("call", "icall", "ctor"):
            yield x


def line_of(e):
    k = e[0]
    try:
        if k in ("call",):
            return e[5]
        if k == "icall":
            return e[4]
        if k == "ctor":
            return e[4]
        if k in ("bin", "asg"):
            return e[4]
        if k in ("un", "idx"):
            return e[3]
        if k == "cast":
            return e[4]
        if k == "cond":
            return e[4]
        if k == "new":
            return e[6]
        if k == "del":
            return e[3]
        if k == "thr":
            return e[2]
    except IndexError:
        pass
    for c in kids(e):
        l = line_of(c)
        if l:
            return l
    return 0


def show(e, depth=0):
    """A short readable rendering."""
    if e is None:
        return ""
    if depth > 8:
        return "..."
    k = e[0]
    s = lambda x: show(x, depth + 1)
    if k == "var":
        return e[2]
    if k == "mem":
        return ("" if e[1][0] == "this" else s(e[1]) + ".") + e[2]
    if k == "this":
        return "this"
    if k in ("int", "flt", "bool"):
        return str(e[1])
    if k == "str":
        return '"%s"' % e[1][:40]
    if k == "null":
        return "nullptr"
    if k == "enum":
        return e[1].split("::")[-1]
    if k == "call":
        return (s(e[3]) + "." if e[3] else "") + e[2].split("::")[-1] + "(" + ", ".join(s(a) for a in e[4]) + ")"
    if k == "icall":
        return s(e[1]) + "(" + ", ".join(s(a) for a in e[3]) + ")"
    if k == "ctor":
        return e[2].split("::")[-1] + "(" + ", ".join(s(a) for a in e[3]) + ")"
    if k in ("bin", "asg"):
        return s(e[2]) + " " + e[1] + " " + s(e[3])
    if k == "un":
        return (s(e[2]) + e[1][1:]) if e[1].startswith("p") else e[1] + s(e[2])
    if k == "idx":
        return s(e[1]) + "[" + s(e[2]) + "]"
    if k == "cond":
        return s(e[1]) + " ? " + s(e[2]) + " : " + s(e[3])
    if k == "cast":
        return s(e[3])
    if k == "fn":
        return e[2]
    if k == "new":
        return "new " + e[1] + ("[" + s(e[3]) + "]" if e[2] else "")
    if k == "del":
        return "delete " + s(e[1])
    if k == "lam":
        return "<lambda>"
    if k == "init":
        return "{" + ", ".join(s(x) for x in e[1]) + "}"
    return k


# ------------------------------------------------------------------ statements
def substmts(s):
    k = s[0]
    if k == "seq":
        return [x for x in s[1] if x]
    if k == "if":
        return [x for x in (s[2], s[3]) if x]
    if k == "for":
        return [x for x in (s[1], s[4]) if x]
    if k == "while":
        return [s[2]] if s[2] else []
    if k == "do":
        return [s[1]] if s[1] else []
    if k == "rfor":
        return [s[1]] + ([s[3]] if s[3] else [])
    if k == "switch":
        return [s[2]] if s[2] else []
    if k == "case":
        return [s[2]] if s[2] else []
    if k == "default":
        return [s[1]] if s[1] else []
    if k == "label":
        return [s[2]] if s[2] else []
    if k == "try":
        return ([s[1]] if s[1] else []) + [h[2] for h in s[2] if h[2]]
    if k == "omp":
        return [s[3]] if s[3] else []
    return []


def stmt_exprs(s):
    """Expressions evaluated by this statement itself (not by sub-statements)."""
    k = s[0]
    if k == "e":
        return [s[1]] if s[1] else []
    if k == "decl":
        return ([s[4]] if s[4] else []) + [d for d in s[8] if d]
    if k == "if":
        return [s[1]]
    if k == "for":
        return [x for x in (s[2], s[3]) if x]
    if k == "while":
        return [s[1]]
    if k == "do":
        return [s[2]]
    if k == "rfor":
        return [s[2]]
    if k == "switch":
        return [s[1]]
    if k == "ret":
        return [s[1]] if s[1] else []
    return []


def walk_stmts(s):
    if not s:
        return
    yield s
    for c in substmts(s):
        yield from walk_stmts(c)


def all_exprs(fn):
    """Every expression node of a function (constructor initialisers included)."""
    for i in fn.get("inits", ()):
        if i[2]:
            yield from walk(i[2])
    for s in walk_stmts(fn["body"]):
        for e in stmt_exprs(s):
            yield from walk(e)


# ------------------------------------------------------------------ CFG
class Node:
    __slots__ = ("id", "kind", "e", "line", "succ", "tryid", "omp", "stmt")

    def __init__(self, i, kind, e, line):
        self.id, self.kind, self.e, self.line = i, kind, e, line
        self.succ = []  # (node id, label)
        self.tryid = None
        self.omp = ()
        self.stmt = None

    def __repr__(self):
        return "<%d %s %s L%s -> %s>" % (self.id, self.kind, show(self.e) if self.e and self.kind != "decl" else (self.stmt[2] if self.kind == "decl" else ""), self.line, self.succ)


class CFG:
    """nodes: entry(0), exit(1), then
    e      expression statement
    decl   variable declaration (stmt holds the declaration, e its initialiser)
    br     atomic condition, edges labelled True/False
    sw     switch, edges labelled ('case', value) / ('default',)
    ret    return (e may be None)
    ompb/ompe  begin/end of an OpenMP directive (stmt)
    catch  entry of a handler;  thr  explicit throw
    """

    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.tries = []  # (parent, [handler entry ids], handler types)
        self.labels, self.gotos = {}, []
        self.brk, self.cont = [], []
        self.curtry = None
        self.curomp = ()
        self.entry = self.new("entry", None, fn["line"])
        self.exit = self.new("exit", None, fn["end"])
        fr = [(self.entry.id, None)]
        for i in fn.get("inits", ()):
            n = self.new("e", i[2], fn["line"])
            n.stmt = ["minit", i]
            self.link(fr, n)
            fr = [(n.id, None)]
        fr = self.stmt(fn["body"], fr)
        self.link(fr, self.exit)
        for nid, lab, l in self.gotos:
            if l in self.labels:
                self.nodes[nid].succ.append((self.labels[l].id, None))
        # exceptional edges inside try blocks
        for n in list(self.nodes):
            if n.tryid is not None and n.kind in ("e", "decl", "br", "sw", "ret", "thr") and n.e is not None:
                if n.kind == "thr" or any(True for _ in calls(n.e)) or any(x[0] == "new" for x in walk(n.e)):
                    for h in self.tries[n.tryid][1]:
                        n.succ.append((h, "exc"))
        self.pred = {n.id: [] for n in self.nodes}
        for n in self.nodes:
            for s, l in n.succ:
                self.pred[s].append((n.id, l))

    def new(self, kind, e, line):
        n = Node(len(self.nodes), kind, e, line)
        n.tryid = getattr(self, "curtry", None)
        n.omp = getattr(self, "curomp", ())
        self.nodes.append(n)
        return n

    def link(self, fr, n):
        for nid, lab in fr:
            self.nodes[nid].succ.append((n.id, lab))

    def cond(self, e, fr, line):
        """Returns (true frontier, false frontier)."""
        x = e
        while x and x[0] == "cast" and x[1] in ("IntegralToBoolean", "NoOp", "PointerToBoolean", "LValueToRValue") and False:
            x = x[3]
        if x[0] == "bin" and x[1] == "&&":
            t, f = self.cond(x[2], fr, line)
            t2, f2 = self.cond(x[3], t, line)
            return t2, f + f2
        if x[0] == "bin" and x[1] == "||":
            t, f = self.cond(x[2], fr, line)
            t2, f2 = self.cond(x[3], f, line)
            return t + t2, f2
        if x[0] == "un" and x[1] == "!":
            t, f = self.cond(x[2], fr, line)
            return f, t
        if x[0] == "call" and x[2].endswith("__builtin_expect"):
            return self.cond(x[4][0], fr, line)
        if x[0] == "cast" and x[3] and x[1] in ("IntegralCast", "NoOp", "IntegralToBoolean") and x[3][0] in ("bin", "un") and x[3][1] in ("&&", "||", "!"):
            return self.cond(x[3], fr, line)
        n = self.new("br", x, line_of(x) or line)
        self.link(fr, n)
        v = const_int(x)
        if v is not None and x[0] in ("bool", "int"):
            return ([(n.id, None)], []) if v else ([], [(n.id, None)])
        return [(n.id, True)], [(n.id, False)]

    def expr_stmt(self, e, fr, line, kind="e"):
        # `c ? f() : g();` and short-circuit statements with effects
        if e and e[0] == "thr":
            n = self.new("thr", e, line)
            self.link(fr, n)
            return []
        n = self.new(kind, e, line)
        self.link(fr, n)
        if e and e[0] == "call" and e[2] in ("exit", "abort", "std::terminate", "std::abort", "__assert_fail", "std::exit"):
            return []
        return [(n.id, None)]

    def stmt(self, s, fr):
        if not s:
            return fr
        k = s[0]
        if k == "seq":
            for c in s[1]:
                fr = self.stmt(c, fr)
            return fr
        if k == "e":
            return self.expr_stmt(s[1], fr, s[2])
        if k == "decl":
            n = self.new("decl", s[4], s[5])
            n.stmt = s
            self.link(fr, n)
            return [(n.id, None)]
        if k == "if":
            t, f = self.cond(s[1], fr, s[4])
            t = self.stmt(s[2], t)
            f = self.stmt(s[3], f) if s[3] else f
            return t + f
        if k == "while":
            h = self.new("join", None, s[3])
            self.link(fr, h)
            t, f = self.cond(s[1], [(h.id, None)], s[3])
            self.brk.append([])
            self.cont.append([])
            b = self.stmt(s[2], t)
            self.link(b + self.cont.pop(), h)
            return f + self.brk.pop()
        if k == "do":
            h = self.new("join", None, s[3])
            self.link(fr, h)
            self.brk.append([])
            self.cont.append([])
            b = self.stmt(s[1], [(h.id, None)])
            t, f = self.cond(s[2], b + self.cont.pop(), s[3])
            self.link(t, h)
            return f + self.brk.pop()
        if k == "for":
            fr = self.stmt(s[1], fr)
            h = self.new("join", None, s[5])
            h.stmt = s
            self.link(fr, h)
            if s[2]:
                t, f = self.cond(s[2], [(h.id, None)], s[5])
            else:
                t, f = [(h.id, None)], []
            self.brk.append([])
            self.cont.append([])
            b = self.stmt(s[4], t)
            b = b + self.cont.pop()
            if s[3] and b:
                b = self.expr_stmt(s[3], b, s[5])
            self.link(b, h)
            return f + self.brk.pop()
        if k == "rfor":
            n0 = self.new("e", s[2], s[4])
            self.link(fr, n0)
            h = self.new("join", None, s[4])
            h.stmt = s
            n0.succ.append((h.id, None))
            d = self.new("decl", None, s[4])
            d.stmt = s[1][:4] + [None] + s[1][5:]
            h.succ.append((d.id, None))
            self.brk.append([])
            self.cont.append([])
            b = self.stmt(s[3], [(d.id, None)])
            self.link(b + self.cont.pop(), h)
            return [(h.id, None)] + self.brk.pop()
        if k == "switch":
            n = self.new("sw", s[1], s[3])
            n.stmt = s
            self.link(fr, n)
            self.brk.append([])
            self.sw = getattr(self, "sw", [])
            self.sw.append([n, False])
            out = self.stmt(s[2], [])
            st = self.sw.pop()
            out = out + self.brk.pop()
            if not st[1]:
                out = out + [(n.id, ("default",))]
            return out
        if k == "case":
            n = self.sw[-1][0]
            return self.stmt(s[2], fr + [(n.id, ("case", const_int(s[1]), s[1]))])
        if k == "default":
            self.sw[-1][1] = True
            return self.stmt(s[1], fr + [(self.sw[-1][0].id, ("default",))])
        if k == "break":
            self.brk[-1].extend(fr)
            return []
        if k == "continue":
            self.cont[-1].extend(fr)
            return []
        if k == "ret":
            n = self.new("ret", s[1], s[2])
            self.link(fr, n)
            n.succ.append((self.exit.id, None))
            return []
        if k == "goto":
            n = self.new("join", None, s[2])
            self.link(fr, n)
            self.gotos.append((n.id, None, s[1]))
            return []
        if k == "label":
            n = self.new("join", None, s[3])
            self.link(fr, n)
            self.labels[s[1]] = n
            return self.stmt(s[2], [(n.id, None)])
        if k == "try":
            old = self.curtry
            hs = []
            tid = len(self.tries)
            self.tries.append((old, [], [h[0] for h in s[2]]))
            for h in s[2]:
                n = self.new("catch", None, h[3])
                n.stmt = h
                self.tries[tid][1].append(n.id)
                hs.append((n, h))
            self.curtry = tid
            fr = self.stmt(s[1], fr)
            self.curtry = old
            for n, h in hs:
                fr = fr + self.stmt(h[2], [(n.id, None)])
            return fr
        if k == "omp":
            b = self.new("ompb", None, s[4])
            b.stmt = s
            self.link(fr, b)
            old = self.curomp
            self.curomp = old + (b.id,)
            fr = self.stmt(s[3], [(b.id, None)])
            self.curomp = old
            e = self.new("ompe", None, s[4])
            e.stmt = s
            self.link(fr, e)
            if s[1] in ("single", "master", "masked"):
                b.succ.append((e.id, None))
            return [(e.id, None)]
        return fr


_cache = {}


def cfg(fn):
    c = _cache.get(fn["id"])
    if c is None:
        c = _cache[fn["id"]] = CFG(fn)
    return c


# ------------------------------------------------------------------ program model
class Prog:
    def __init__(self, db):
        self.db = db
        self.fns = db.fns
        self.recs = db.recs
        self.bybase = {}
        for f in db.fns.values():
            self.bybase.setdefault(f["b"], []).append(f)
        self.derived = {}
        for r in db.recs.values():
            for b in r["bases"]:
                self.derived.setdefault(b, set()).add(r["q"])
        # method overrides: base method id -> overriding ids
        self.over = {}
        for r in db.recs.values():
            for m in r["methods"]:
                for o in m[3]:
                    self.over.setdefault(o, set()).add(m[0])
        self.ctors = {}
        for f in db.fns.values():
            if "K" in f["fl"]:
                self.ctors.setdefault(f["cls"], []).append(f)
        self.glam = {}
        for f in db.fns.values():
            if "glam" in f:
                self.glam.setdefault(f["glam"], []).append(f)

    def overrides(self, mid):
        out, st = set(), [mid]
        while st:
            x = st.pop()
            for o in self.over.get(x, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return out

    def subclasses(self, q):
        out, st = set(), [q]
        while st:
            x = st.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def supers(self, q):
        out, st = [], [q]
        while st:
            x = st.pop()
            r = self.recs.get(x)
            for b in (r["bases"] if r else ()):
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def targets(self, c, cls=None):
        """Functions with a body a call expression may reach. cls: dynamic class of `this`."""
        if c[0] == "call":
            out = []
            ids = {c[1]}
            if "v" in c[7]:
                ids |= self.overrides(c[1])
                if cls is not None:
                    ids = {self.resolve(c[1], cls)}
            for i in ids:
                f = self.fns.get(i)
                if f:
                    out.append(f)
            return out
        if c[0] == "ctor":
            f = self.fns.get(c[1])
            return [f] if f else []
        if c[0] == "icall":
            e = strip(c[1])
            if e and e[0] == "fn" and e[1] in self.fns:
                return [self.fns[e[1]]]
        return []

    def resolve(self, mid, cls):
        """The final overrider of method mid in class cls."""
        chain = [cls] + self.supers(cls)
        ok = {mid} | self.overrides(mid)
        for q in chain:
            r = self.recs.get(q)
            if not r:
                continue
            for m in r["methods"]:
                if m[0] in ok:
                    return m[0]
        return mid

    def short(self, f):
        return f["b"] if "lam" not in f else "lambda in " + (self.fns[f["lam"]]["b"] if f["lam"] in self.fns else f["lam"])


def loc(fn, line):
    return "%s:%s" % (fn["file"], line)
