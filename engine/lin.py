"""Interpreter with linear values: sums of unknowns, and the inequalities branches establish.

A value ("lin", ((symbol, coefficient), ...), constant). A branch on a comparison records
"lin >= 0" facts; nothing is solved: an obligation is discharged by a recorded fact with the same
unknowns (or by a sum of two), compared by its constant.
"""
import ast
import interp
from interp import TOP


def lin(v):
    if v[0] == "c" and isinstance(v[1], int):
        return ((), v[1])
    if v[0] == "s" and v != TOP:
        return (((v[1], 1),), 0)
    if v[0] == "lin":
        return (v[1], v[2])
    return None


def add(a, b, k=1):
    d = dict(a[0])
    for s, c in b[0]:
        d[s] = d.get(s, 0) + k * c
    return (tuple(sorted((s, c) for s, c in d.items() if c)), a[1] + k * b[1])


def val(l):
    if not l[0]:
        return ("c", l[1])
    if len(l[0]) == 1 and l[0][0][1] == 1 and l[1] == 0:
        return ("s", l[0][0][0])
    if len(l[0]) > 4:
        return TOP
    return ("lin", l[0], l[1])


_parsed = {}


class Linear(interp.Interp):
    def scalarish(self, v):
        return v[0] == "lin" or super().scalarish(v)

    def ev(self, e, st):
        if e and e[0] == "bin" and e[1] in ("+", "-", "*"):
            out = []
            for (a, b), s in self.seq([e[2], e[3]], st):
                a, b = self.val(a, s), self.val(b, s)
                la, lb = lin(a), lin(b)
                v = TOP
                if a[0] == "&" or b[0] == "&":
                    v = a if a[0] == "&" else b
                elif la and lb:
                    if e[1] in ("+", "-"):
                        v = val(add(la, lb, 1 if e[1] == "+" else -1))
                    elif not la[0] or not lb[0]:
                        k, l = (la[1], lb) if not la[0] else (lb[1], la)
                        v = val((tuple((x, c * k) for x, c in l[0]), l[1] * k)) if k else ("c", 0)
                    elif a[0] == "s" and b[0] == "s":
                        v = ("s", "(%s*%s)" % tuple(sorted((a[1], b[1]))))
                out.append((v, s))
            return out
        return super().ev(e, st)

    def fact(self, st, l):
        """record l >= 0"""
        return st.add("ge|%r|%d" % (l[0], l[1]))

    def rel(self, op, a, b, st):
        la, lb = lin(a), lin(b)
        if not la or not lb:
            return st
        if op in ("<", "<=", "=="):
            d = add(lb, la, -1)
            st = self.fact(st, (d[0], d[1] - (op == "<")))
        if op in (">", ">=", "=="):
            d = add(la, lb, -1)
            st = self.fact(st, (d[0], d[1] - (op == ">")))
        if op == "!=":
            d = add(la, lb, -1)
            st = st.add("ne|%r|%d" % d)
            d = add(lb, la, -1)
            st = st.add("ne|%r|%d" % d)
        return st

    def rsym(self, sym, op, n, st):
        r = super().rsym(sym, op, n, st)
        if r is not None and isinstance(n, int):
            r = self.rel(op, ("s", sym), ("c", n), r)
        return r

    @staticmethod
    def facts(st):
        for f in st.must:
            if f.startswith("ge|"):
                if f not in _parsed:
                    a, c = f[3:].rsplit("|", 1)
                    _parsed[f] = (ast.literal_eval(a), int(c))
                yield _parsed[f]

    def holds(self, st, l):
        """is l >= 0 a recorded fact (or a constant, or the sum of two facts)?"""
        if not l[0]:
            return l[1] >= 0
        fs = list(self.facts(st))
        for k, (s, r) in enumerate(st.ref.items()):
            if r[0] == "eq" and isinstance(r[1], int):
                fs.append((((s, 1),), -r[1]))
                fs.append((((s, -1),), r[1]))
        for a, c in fs:
            if a == l[0] and c <= l[1]:
                return True
        for i, f in enumerate(fs):
            for g in fs[i + 1:]:
                s = add(f, g)
                if s[0] == l[0] and s[1] <= l[1]:
                    return True
        return False

    def lower(self, st, v, n=0):
        """v >= n known"""
        l = lin(v)
        return l is not None and self.holds(st, (l[0], l[1] - n))

    def uppers(self, st, sym):
        """facts bounding a symbol from above: the rest of each inequality"""
        for a, c in self.facts(st):
            d = dict(a)
            if d.get(sym, 0) < 0:
                yield {k: x for k, x in d.items() if k != sym}, c
        r = st.ref.get(sym)
        if r and r[0] == "eq":
            yield {}, r[1]
