"""Fidelity of the C interface to the C++ one (forwarding analysis over every exported wrapper).

Every function of the public headers is defined; every C entry point that has a C++ overload
(da_x_d / da_x_s / da_x_int / ... for da_x) reaches, on each of its paths, that overload exactly
once, in the precision its suffix promises, with its own parameters in the same positions and
unmodified, and returns exactly what the overload returned. Helpers between the two are
followed; the comparison is on the values that arrive, not on the text of the call.
"""
import interp, ir

SUFFIX = ["_real_d", "_real_s", "_string_key", "_string", "_uint8", "_str", "_int", "_d", "_s"]
PREC = {"_d": "double", "_s": "float", "_real_d": "double", "_real_s": "float"}


class FI(interp.Interp):
    MAXDEPTH = 8

    def __init__(self, P, tgt, names):
        super().__init__(P)
        self.tgt, self.names = tgt, names
        self.calls = []

    def inline(self, fn, call, args, obj, st):
        # helpers between the wrapper and the overload: anything a parameter is handed to
        return "cls" not in fn and fn["b"] not in self.names

    def on_call(self, e, targets, args, obj, st):
        if e[0] == "call" and e[3] is None and e[2] == self.tgt:
            vals = tuple(st.env.get(a[1], ("s", a[1])) if a[0] == "ref" else a for a in args)
            k = "call:%s:%s" % (e[1], vals)
            n = sum(1 for m in st.may if m.startswith("n:"))
            self.calls.append((e[1], vals, e))
            return [(("s", "R:" + repr((e[1], vals))), st.add("n:%d" % n, "to:" + repr((e[1], vals))))]
        return None


def norm(t):
    t = t.replace("const ", "")
    return t[:-5].rstrip() if t.endswith("const") else t


def run(ctx):
    db, P = ctx.db, ctx.P
    cdecl, cpp = {}, {}
    for d in db.fdecls.values():
        if d["externC"]:
            cdecl.setdefault(d["b"], d)
        else:
            cpp.setdefault(d["b"], []).append(d)
    ctx.require(len(cdecl) >= 250 and len(cpp) >= 60, "public declarations in source/include")
    cdef = {f["id"]: f for f in db.fns.values() if "C" in f["fl"]}
    # 1. everything declared is defined
    for n, d in sorted(cdecl.items()):
        ctx.count("c_declarations")
        if n not in cdef:
            ctx.finding("%s|undefined" % n, "%s:%d" % (d["file"], d["line"]), "%s is declared in a public header but defined nowhere" % n)
    inst = set(db.fns)
    for n, ds in sorted(cpp.items()):
        if n in cdecl:
            continue  # the same header seen outside extern "C"
        for d in ds:
            ctx.count("cpp_overloads")
            if d["id"] not in inst and not any(f["b"] == n and [p[2] for p in f["params"]] == [p[1] for p in d["params"]] for f in P.bybase.get(n, ())):
                ctx.finding("%s|undefined|%s" % (n, ",".join(p[1] for p in d["params"])), "%s:%d" % (d["file"], d["line"]), "overload %s(%s) is declared but never defined or instantiated" % (n, ", ".join(p[1] for p in d["params"])))
    # 2. forwarding
    for n, f in sorted(cdef.items()):
        base = suf = None
        for s in SUFFIX:
            if n.endswith(s):
                if n[:-len(s)] in cpp:
                    base, suf = n[:-len(s)], s
                    break
                # da_handle_get_result_int -> da_handle_get_result etc. handled above
        if base is None or n not in cdecl:
            ctx.count("c_functions_without_overload")
            continue
        ctx.count("wrappers")
        I = FI(P, base, set(cpp))
        st = interp.St({"L" + p[0]: ("s", "P%d" % i) for i, p in enumerate(f["params"])})
        outs = I.run(f, st)
        where = ir.loc(f, f["line"])
        for v, s in outs:
            ctx.count("wrapper_paths")
            to = [m for m in s.must if m.startswith("to:")]
            if len([m for m in s.may if m.startswith("n:")]) != 1 or len(to) != 1:
                ctx.finding("%s|forward" % n, where, "%s has a path that does not call %s exactly once" % (n, base))
                continue
            tid, vals = eval(to[0][3:])
            want = tuple(("s", "P%d" % i) for i in range(len(f["params"])))
            # an extra trailing argument is the overload's default; a parameter passed by address stays itself
            if len(vals) > len(want) and all(x == ("c", 0) for x in vals[len(want):]):
                vals = vals[:len(want)]
            byaddr = [i for i, (x, p) in enumerate(zip(vals, f["params"])) if x == ("&", "L" + p[0])]
            vals = tuple(want[i] if i in byaddr and i < len(want) else x for i, x in enumerate(vals))
            if vals != want:
                bad = [i for i in range(max(len(vals), len(want))) if i >= len(vals) or i >= len(want) or vals[i] != want[i]]
                ctx.finding("%s|args" % n, where, "%s does not hand its parameters to %s unchanged and in order (position%s %s)" % (n, base, "s" if len(bad) > 1 else "", ", ".join(str(b + 1) for b in bad)))
            if f["ret"] != "void" and v != ("s", "R:" + to[0][3:]):
                ctx.finding("%s|result" % n, where, "%s does not return what %s returned" % (n, base))
            t = db.fns.get(tid)
            tp = [p[2] for p in t["params"]] if t else None
            if tp is None:
                for d in cpp[base]:
                    if d["id"] == tid:
                        tp = [p[1] for p in d["params"]]
            if tp is None:
                ctx.finding("%s|target" % n, where, "%s calls an overload of %s that is not part of the public interface" % (n, base))
                continue
            if True:
                for i, (a, b) in enumerate(zip(tp, [p[2] for p in f["params"]])):
                    a, b = norm(a), norm(b)
                    if i in byaddr:
                        b += " *"
                    if a != b and not (a == "bool" and b in ("int", "long")):
                        ctx.finding("%s|type%d" % (n, i), where, "%s passes parameter %d (%s) to an overload taking %s" % (n, i + 1, b, a))
            if suf in PREC:
                targ = (t or {}).get("targs") or []
                reals = {x for x in ("double", "float") for p in tp if x in p}
                if targ and targ[0] in ("double", "float"):
                    reals.add(targ[0])
                if reals - {PREC[suf]}:
                    ctx.finding("%s|precision" % n, where, "%s reaches the %s implementation of %s" % (n, sorted(reals - {PREC[suf]})[0], base))
                elif not reals:
                    ctx.finding("%s|precision" % n, where, "%s reaches an implementation of %s that has no precision" % (n, base))
                else:
                    ctx.count("precisions_matched")
        ctx.sample("%s -> %s(%s)" % (n, base, ", ".join(p[1] for p in f["params"])))
    ctx.require(ctx.counts.get("wrappers", 0) >= 200, "C wrappers forwarding to C++ overloads")
    ctx.rule("identity forwarding: value arriving at overload parameter i == value of wrapper parameter i; result returned unchanged; suffix -> template argument")
