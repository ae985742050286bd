"""Which constant strings can a std::string expression hold?

Forward dataflow over a function's control-flow graph for local std::string variables
(assignment, +=, operator+, copy), refined by == comparisons against literals; parameters
take the union over their callers.  None means unknown.
"""
import ir
from ir import strip

MAXSET = 24


def is_str(t):
    return "basic_string" in t or t.replace("const ", "").strip(" &") in ("std::string", "string")


class StrConst:
    def __init__(self, P, callers):
        self.P, self.callers = P, callers
        self._env = {}

    def peel(self, e):
        while e:
            if e[0] == "cast":
                e = e[3]
            elif e[0] == "ctor" and e[3] and ("basic_string" in e[2]):
                e = e[3][0]
            elif e[0] in ("paren", "mte", "bind", "ewc", "defarg"):
                e = e[1]
            else:
                s = strip(e)
                if s is e:
                    return e
                e = s
        return e

    def val(self, f, env, e, depth=0):
        e = self.peel(e)
        if not e or depth > 6:
            return None
        if e[0] == "str":
            return frozenset([e[1]]) if e[1] != "?" else None
        if e[0] == "ctor" and not e[3] and "basic_string" in e[2]:
            return frozenset([""])
        if e[0] == "var":
            if e[1] in env:
                return env[e[1]]
            for i, p in enumerate(f["params"]):
                if p[0] == e[1]:
                    out = set()
                    cs = self.callers.get(f["id"], ())
                    if not cs:
                        return None
                    for g, c in cs:
                        a = c[4] if c[0] == "call" else c[3]
                        if i >= len(a) or g["id"] == f["id"]:
                            return None
                        v = self.at(g, c, a[i], depth + 1)
                        if v is None:
                            return None
                        out |= v
                    return frozenset(out)
            return None
        if e[0] == "cond":
            a, b = self.val(f, env, e[2], depth), self.val(f, env, e[3], depth)
            return a | b if a is not None and b is not None else None
        if e[0] == "call":
            n = e[2].split("::")[-1]
            if n in ("operator+", "operator+=") and (e[3] is not None or len(e[4]) == 2):
                x, y = (e[3], e[4][0]) if e[3] is not None else e[4]
                a, b = self.val(f, env, x, depth), self.val(f, env, y, depth)
                if a is None or b is None or len(a) * len(b) > MAXSET:
                    return None
                return frozenset(p + q for p in a for q in b)
            if n in ("c_str", "data") and e[3] is not None:
                return self.val(f, env, e[3], depth)
        return None

    def flow(self, f):
        if f["id"] in self._env:
            return self._env[f["id"]]
        self._env[f["id"]] = {}
        g = ir.cfg(f)
        # variables whose address escapes are unknown; by-reference arguments too
        inn = {g.entry.id: {}}
        work = [g.entry.id]
        steps = 0
        while work and steps < 20000:
            steps += 1
            nid = work.pop()
            n = g.nodes[nid]
            env = dict(inn[nid])
            self.step(f, n, env)
            for s, lab in n.succ:
                e2 = env
                if n.kind == "br" and lab in (True, False):
                    e2 = self.refine(f, env, n.e, lab)
                    if e2 is None:
                        continue
                old = inn.get(s)
                if old is None:
                    inn[s] = dict(e2)
                    work.append(s)
                else:
                    ch = False
                    for k in set(old) | set(e2):
                        if k in old and k in e2:
                            a, b = old[k], e2[k]
                            m = None if a is None or b is None or len(a | b) > MAXSET else a | b
                        else:
                            m = old.get(k, e2.get(k))
                        if k not in old or m != old[k]:
                            old[k] = m
                            ch = True
                    if ch:
                        work.append(s)
        self._env[f["id"]] = (g, inn)
        return self._env[f["id"]]

    def refine(self, f, env, e, lab):
        c = strip(e)
        if c and c[0] == "call" and c[2].split("::")[-1] in ("operator==", "operator!="):
            x, y = (c[3], c[4][0]) if c[3] is not None else c[4][:2]
            if c[2].endswith("!="):
                lab = not lab
            for a, b in ((x, y), (y, x)):
                a = self.peel(a)
                if a and a[0] == "var" and env.get(a[1]) is not None:
                    b = self.val(f, env, b)
                    if b is not None and len(b) == 1:
                        k = frozenset(v for v in env[a[1]] if (v in b) == lab)
                        if not k:
                            return None
                        return {**env, a[1]: k}
        return env

    def step(self, f, n, env):
        if n.kind == "decl" and getattr(n, "stmt", None):
            s = n.stmt
            if is_str(s[3]):
                env[s[1]] = self.val(f, env, s[4]) if s[4] else frozenset([""])
        if n.e is None:
            return
        for x in ir.post(n.e) if hasattr(ir, "post") else ir.walk(n.e):
            if x[0] == "call" and x[2].split("::")[-1] in ("operator=", "operator+=", "assign", "append") and x[3] is not None:
                o = strip(x[3])
                if o and o[0] == "var" and is_str(o[3]):
                    if x[2].endswith("=") and len(x[4]) == 1:
                        env[o[1]] = self.val(f, env, x[4][0]) if not x[2].endswith("+=") else self.val(f, env, x)
                    elif len(x[4]) == 1 and "append" not in x[2]:
                        env[o[1]] = self.val(f, env, x[4][0])
                    else:
                        env[o[1]] = None
            elif x[0] in ("call", "ctor"):
                args = x[4] if x[0] == "call" else x[3]
                ts = self.P.targets(x)
                for i, a in enumerate(args):
                    a = strip(a)
                    if a and a[0] == "un" and a[1] == "&":
                        a = strip(a[2])
                        if a and a[0] == "var" and a[1] in env:
                            env[a[1]] = None
                    elif a and a[0] == "var" and a[1] in env and ts:
                        for t in ts:
                            if i < len(t["params"]) and t["params"][i][2].rstrip().endswith("&") and "const" not in t["params"][i][2]:
                                env[a[1]] = None

    def at(self, f, call, e, depth=0):
        """Values of expression e evaluated at the node holding `call` in f."""
        v = self.val(f, {}, e, depth)
        if v is not None:
            return v
        r = self.flow(f)
        if not r:
            return None
        g, inn = r
        out = None
        for n in g.nodes:
            if n.e is not None and n.id in inn and any(x is call for x in ir.walk(n.e)):
                v = self.val(f, inn[n.id], e, depth)
                if v is None:
                    return None
                out = v if out is None else out | v
        return out
