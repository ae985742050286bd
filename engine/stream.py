"""Abstract layout of a model stream.

The functions that save, measure and load a model are folded, for one buffer mode at a time,
into a tree of tokens: ("io", type, place, how) for one datum, ("loop", bound, tokens),
("if", condition, tokens, tokens) and ("rec", function). Helpers and lambdas are followed with
their arguments bound; tests of the mode are decided; tests whose other branch only reports a
failure are dropped. What is left is the layout, independent of how the code is divided up.
"""
import re
import ir
from ir import strip, const_int

BUF = "da_model_persistence::serialization_buffer"
API = {BUF + "::" + n for n in ("dispatch_buffer_io", "serialize_data", "deserialize_data", "serialize_user_data", "add_size", "insert_data_in_buffer")}


def unref(t):
    t = t.strip()
    while True:
        n = t
        if n.endswith("&"):
            n = n[:-1].strip()
        if n.startswith("const "):
            n = n[6:].strip()
        if n == t:
            return t
        t = n


def canon(t, enums):
    """Category of a stored type: containers of the same elements share one layout."""
    t = unref(t)
    m = re.match(r"(?:std::vector|da_vector::da_vector)<(.*)>$", t)
    if m:
        inner, d = "", 0
        for ch in m.group(1):
            if ch == "," and d == 0:
                break
            d += ch == "<"
            d -= ch == ">"
            inner += ch
        return "vec<" + canon(inner, enums) + ">"
    if t.startswith("std::basic_string<") or t == "std::string":
        return "vec<char>"
    if t in enums:
        return "int"
    return t


class Stream:
    def __init__(self, db, P, modes):
        """modes: name -> value of the buffer_mode enumerator"""
        self.db, self.P, self.modes = db, P, modes
        self.enums = {v['t'] for v in db.enums.values()} | {v['q'] for v in db.enums.values()}
        self.reach = self._reach()
        self.inlined = set()
        self.cut = []  # constructs that could not be folded

    def _reach(self):
        direct, callers = set(), {}
        for f in self.db.fns.values():
            if f["b"].startswith(BUF + "::") and not re.match(re.escape(BUF) + "::(de)?serialize_metadata", f["b"]):
                continue
            for e in ir.all_exprs(f):
                if e[0] == "call":
                    if e[2] in API or (e[2].startswith(BUF + "::") and e[2].split("::")[-1] in ("serialize_metadata", "deserialize_metadata", "add_metadata_size")):
                        direct.add(f["id"])
                    for t in self.P.targets(e):
                        callers.setdefault(t["id"], set()).add(f["id"])
        work = list(direct)
        while work:
            x = work.pop()
            for c in callers.get(x, ()):
                if c not in direct:
                    direct.add(c)
                    work.append(c)
        return direct

    # ---------------------------------------------------------------- places
    def place(self, e, bind):
        e = strip(e)
        if not e:
            return "?"
        k = e[0]
        if k == "this":
            return bind.get("this", "this")
        if k == "mem":
            return self.place(e[1], bind) + "." + e[2]
        if k == "var":
            return bind.get(e[1], e[2])
        if k == "idx":
            return self.place(e[1], bind) + "[]"
        if k == "un" and e[1] in ("*", "&"):
            p = self.place(e[2], bind)
            return ("*" if e[1] == "*" else "&") + p
        if k == "call" and e[3] is not None:
            n = e[2].split("::")[-1]
            if n in ("operator*", "operator->"):
                return "*" + self.place(e[3], bind)
            if n in ("operator[]", "at"):
                return self.place(e[3], bind) + "[]"
            return self.place(e[3], bind) + "." + n + "()"
        if k in ("int", "enum", "bool"):
            return str(const_int(e))
        if k == "null":
            return "null"
        if k == "bin":
            return "(%s%s%s)" % (self.place(e[2], bind), e[1], self.place(e[3], bind))
        if k == "un":
            return "%s(%s)" % (e[1], self.place(e[2], bind))
        if k == "call":
            return e[2].split("::")[-1] + "(" + ",".join(self.place(a, bind) for a in e[4]) + ")"
        return ir.show(e)

    # ---------------------------------------------------------------- conditions
    def decide(self, e, bind):
        """Truth of a condition in the current mode, None when it does not depend on it."""
        e = strip(e)
        if not e:
            return None
        k = e[0]
        if k == "bool" or k == "int":
            return bool(e[1])
        if k == "un" and e[1] == "!":
            v = self.decide(e[2], bind)
            return None if v is None else not v
        if k == "bin" and e[1] in ("&&", "||"):
            a, b = self.decide(e[2], bind), self.decide(e[3], bind)
            if e[1] == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if k == "bin" and e[1] in ("==", "!="):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                c = const_int(y)
                if c is not None and self.ismode(x, bind):
                    return (self.mode == c) == (e[1] == "==")
        return None

    def ismode(self, e, bind):
        e = strip(e)
        if e[0] == "call" and e[2] == BUF + "::get_mode":
            return True
        if e[0] == "mem" and e[2] == "mode" and e[3] == BUF:
            return True
        return e[0] == "var" and bind.get(e[1]) == "<mode>"

    def statuscond(self, e):
        """Does the condition test a status variable or the result of a step?"""
        e = strip(e)
        if e[0] == "bin" and e[1] in ("==", "!="):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if const_int(y) == 0 and self.etype(x) == "da_status_":
                    return e[1]
        if e[0] == "bin" and e[1] in ("||", "&&"):
            a, b = self.statuscond(e[2]), self.statuscond(e[3])
            return a if a == b else None
        return None

    @staticmethod
    def etype(x):
        while x and x[0] == "cast":
            x = x[3]
        if x[0] == "var":
            return unref(x[3])
        if x[0] == "mem":
            return unref(x[4])
        if x[0] == "call":
            return unref(x[6])
        return ""

    def cond(self, e, bind):
        e = strip(e)
        if e[0] == "un" and e[1] == "!":
            c, n = self.cond(e[2], bind)
            return c, not n
        if e[0] == "bin" and e[1] == "!=":
            return "(%s==%s)" % (self.place(e[2], bind), self.place(e[3], bind)), True
        if e[0] == "call" and e[2].split("::")[-1] in ("operator!=", "operator=="):
            a = ([e[3]] if e[3] else []) + list(e[4])
            return "(%s==%s)" % tuple(self.place(x, bind) for x in a[:2]), e[2].endswith("!=")
        return self.place(e, bind), False

    # ---------------------------------------------------------------- statements
    def fold(self, fn, mode, bind=None, stack=()):
        self.mode = self.modes[mode]
        self.modename = mode
        toks, _ = self.body(fn, dict(bind or {}), stack)
        return toks

    def body(self, fn, bind, stack):
        self.inlined.add(fn["id"])
        return self.stmts([fn["body"]], bind, stack + (fn["id"],))

    def stmts(self, ss, bind, stack):
        out = []
        for i, s in enumerate(ss):
            if not s:
                continue
            k = s[0]
            if k == "seq":
                t, falls = self.stmts(list(s[1]) + ["|"], bind, stack) if False else self.stmts(list(s[1]), bind, stack)
                # a conditional success return inside the block guards what follows the block too
                g = self.pend
                out += t
                if g:
                    rest, f2 = self.stmts(ss[i + 1:], bind, stack)
                    self._append(g, rest)
                    if not f2:
                        falls = False
                    return out, falls
                if not falls:
                    return out, False
                continue
            self.pend = None
            if k in ("e", "decl", "ret"):
                for e in ir.stmt_exprs(s):
                    out += self.expr(e, bind, stack)
                if k == "decl" and s[4] and self.ismode(s[4], bind):
                    bind[s[1]] = "<mode>"
                elif k == "decl" and s[7] and s[4]:  # a reference names something else
                    bind[s[1]] = self.place(s[4], bind)
                if k == "ret":
                    return out, False
            elif k == "if":
                v = self.decide(s[1], bind)
                if v is not None:
                    branch = s[2] if v else s[3]
                    t, falls = self.stmts([branch], bind, stack) if branch else ([], True)
                    g = self.pend
                    out += t
                    if g:
                        rest, f2 = self.stmts(ss[i + 1:], bind, stack)
                        self._append(g, rest)
                        return out, f2
                    if not falls:
                        return out, False
                    continue
                out += self.expr(s[1], bind, stack)
                sc = self.statuscond(s[1])
                if sc:
                    ok = s[3] if sc == "!=" else s[2]
                    t, falls = self.stmts([ok], bind, stack) if ok else ([], True)
                    out += t
                    if not falls:
                        return out, False
                    continue
                fa_ = self.fails(s[2])
                fb_ = self.fails(s[3]) if s[3] else False
                if fa_ or fb_:
                    ok = s[3] if fa_ else s[2]
                    t, falls = self.stmts([ok], bind, stack) if ok else ([], True)
                    out += t
                    if not falls:
                        return out, False
                    continue
                c, neg = self.cond(s[1], bind)
                A, fa = self.stmts([s[2]], dict(bind), stack)
                B, fb = self.stmts([s[3]], dict(bind), stack) if s[3] else ([], True)
                if neg:
                    A, B, fa, fb = B, A, fb, fa
                if fa and fb:
                    if A or B:
                        out.append(("if", c, A, B))
                    continue
                rest, f2 = self.stmts(ss[i + 1:], bind, stack)
                if fa:
                    A = A + rest
                if fb:
                    B = B + rest
                if A or B:
                    out.append(("if", c, A, B))
                self.pend = None
                # what follows the enclosing block belongs to the branch that goes on
                if (fa or fb) and f2:
                    self.pend = (out, len(out) - 1, fa) if (A or B) else self._empty(out, c, fa)
                return out, (fa or fb) and f2
            elif k in ("for", "while", "do", "rfor"):
                b2 = dict(bind)
                if k == "for":
                    if s[1]:
                        t, _ = self.stmts([s[1]], b2, stack)
                        out += t
                    bound, body = self.bound(s[2], b2), s[4]
                    if s[3]:
                        self.expr(s[3], b2, stack)
                elif k == "while":
                    bound, body = self.bound(s[1], b2), s[2]
                elif k == "do":
                    bound, body = self.bound(s[2], b2), s[1]
                else:
                    rng = self.place(s[2], b2)
                    bound, body = "#" + rng, s[3]
                    v = s[1]
                    if isinstance(v, list) and v and v[0] == "decl":
                        b2[v[1]] = rng + "[]"
                t, _ = self.stmts([body], b2, stack)
                self.pend = None
                if t:
                    out.append(("loop", bound, t))
            elif k == "try":
                t, falls = self.stmts([s[1]], bind, stack)
                out += t
                if not falls:
                    return out, False
            elif k == "switch":
                subs = []
                for c in ir.substmts(s):
                    t, _ = self.stmts([c], dict(bind), stack)
                    subs += t
                self.pend = None
                if subs:
                    out.append(("switch", self.place(s[1], bind), subs))
            else:
                for c in ir.substmts(s):
                    t, falls = self.stmts([c], bind, stack)
                    out += t
                self.pend = None
        self.pend = None
        return out, True

    pend = None

    def _empty(self, out, c, fa):
        out.append(("if", c, [], []))
        return (out, len(out) - 1, fa)

    def _append(self, g, rest):
        out, i, onA = g
        _, c, A, B = out[i]
        if onA:
            A = A + rest
        else:
            B = B + rest
        if A or B:
            out[i] = ("if", c, A, B)
        else:
            del out[i]

    def bound(self, e, bind):
        e = strip(e) if e else None
        if e and e[0] == "bin" and e[1] in ("<", "!=", "<="):
            return self.place(e[3], bind)
        return self.place(e, bind) if e else "?"

    def fails(self, s):
        """The branch does nothing but report a failure."""
        if not s:
            return False
        rets = [x for x in ir.walk_stmts(s) if x[0] == "ret"]
        if not rets:
            return False
        last = s
        while last and last[0] == "seq":
            last = last[1][-1] if last[1] else None
        if not last or last[0] != "ret":
            return False
        for r in rets:
            e = strip(r[1]) if r[1] else None
            if not e:
                return False
            if e[0] == "enum" and e[2] != 0:
                continue
            if e[0] == "call" and e[2].startswith("da_errors::") and e[2].endswith("::rec"):
                c = const_int(e[4][0]) if e[4] else None
                if c != 0:
                    continue
            if e[0] == "cond" or self.etype(e) == "da_status_" and e[0] == "call" and any(const_int(a) not in (None, 0) and strip(a)[0] == "enum" for a in e[4]):
                continue
            return False
        return True

    # ---------------------------------------------------------------- expressions
    def expr(self, e, bind, stack):
        out = []
        if not e:
            return out
        if e[0] == "lam":
            return out
        if e[0] == "cond":
            v = self.decide(e[1], bind)
            if v is not None:
                return self.expr(e[2] if v else e[3], bind, stack)
        for c in ir.kids(e):
            if c:
                out += self.expr(c, bind, stack)
        if e[0] != "call":
            return out
        n = e[2]
        short = n.split("::")[-1]
        if n in API:
            ts = self.P.targets(e)
            pt = ts[0]["params"][0][2] if ts and ts[0]["params"] else self.etype(e[4][0])
            if short == "serialize_user_data":
                t = canon(pt.replace("*", "").strip(), self.enums)
                out.append(("io", "vec<%s>" % t, self.place(e[4][0], bind), "user", e))
            elif short == "add_size":
                out.append(("size", self.place(e[4][0], bind), e))
            else:
                out.append(("io", canon(pt, self.enums), self.place(e[4][0], bind), {"dispatch_buffer_io": "any", "serialize_data": "out", "insert_data_in_buffer": "out", "deserialize_data": "in"}[short], e))
            return out
        ts = [t for t in self.P.targets(e, self.cls if e[3] is not None and strip(e[3])[0] == "this" else None) if t["id"] in self.reach or t["b"] in (BUF + "::serialize_metadata", BUF + "::deserialize_metadata")]
        if not ts:
            return out
        if any(t["id"] in stack for t in ts):
            out.append(("rec", n.split("::")[-1], ",".join(self.place(a, bind) for a in e[4]), ""))
            return out
        res = []
        for t in ts:
            b = {}
            if "lam" in t:
                b = dict(bind)
            elif e[3] is not None:
                b["this"] = self.place(e[3], bind)
            args = list(e[4])
            if len(args) > len(t["params"]):
                args = args[len(args) - len(t["params"]):]
            for p, a in zip(t["params"], args):
                if self.ismode(a, bind):
                    b[p[0]] = "<mode>"
                else:
                    b[p[0]] = self.place(a, bind)
            save, self.pend = self.pend, None
            tk, _ = self.body(t, b, stack)
            self.pend = save
            res.append((t, tk))
        if len(res) == 1:
            out += res[0][1]
        else:
            out.append(("virt", [(t["b"], tk) for t, tk in res]))
        return out

    cls = None


def sig(toks, places=False):
    """Layout of a token list as a comparable value."""
    out = []
    for t in toks:
        if t[0] == "io":
            out.append(("io", t[1], t[2] if places else ""))
        elif t[0] == "loop":
            out.append(("loop", t[1], sig(t[2], places)))
        elif t[0] == "if":
            out.append(("if", t[1], sig(t[2], places), sig(t[3], places)))
        elif t[0] == "rec":
            out.append(("rec", t[1]))
        elif t[0] == "virt":
            out.append(("virt", tuple((n, sig(x, places)) for n, x in t[1])))
        elif t[0] == "switch":
            out.append(("switch", t[1], sig(t[2], places)))
        else:
            out.append(t[:2])
    return tuple(out)


def flat(toks, path=()):
    """(token, path of enclosing conditions) in stream order."""
    for t in toks:
        if t[0] == "io" or t[0] in ("rec", "size"):
            yield t, path
        elif t[0] == "loop":
            yield from flat(t[2], path + (("loop", t[1]),))
        elif t[0] == "if":
            yield from flat(t[2], path + (("if", t[1]),))
            yield from flat(t[3], path + (("not", t[1]),))
        elif t[0] == "switch":
            yield from flat(t[2], path + (("switch", t[1]),))
        elif t[0] == "virt":
            for n, x in t[1]:
                yield from flat(x, path + (("virt", n),))


def text(toks, d=0):
    out = []
    for t in toks:
        p = "  " * d
        if t[0] == "io":
            out.append("%s%s %s %s" % (p, t[1], t[2], t[3]))
        elif t[0] == "loop":
            out.append(p + "loop " + t[1])
            out += text(t[2], d + 1)
        elif t[0] == "if":
            out.append(p + "if " + t[1])
            out += text(t[2], d + 1)
            if t[3]:
                out.append(p + "else")
                out += text(t[3], d + 1)
        elif t[0] == "virt":
            for n, x in t[1]:
                out.append(p + "virt " + n)
                out += text(x, d + 1)
        else:
            out.append(p + str(t[:3]))
    return out
