"""Developer aid: print the facts of functions whose qualified name matches."""
import sys, re, facts, ir


def pp(s, d=0):
    p = "  " * d
    if not s:
        return
    k = s[0]
    if k == "seq":
        for c in s[1]:
            pp(c, d)
        return
    print(p + k, "; ".join(ir.show(e) if e else "" for e in ir.stmt_exprs(s)), s[2] if k == "decl" else "", s[1:3] if k == "omp" else "")
    for c in ir.substmts(s):
        pp(c, d + 1)
        if k == "if" and c is s[2] and s[3]:
            print(p + "else")


if __name__ == "__main__":
    db = facts.load()
    for f in db.fns.values():
        if re.search(sys.argv[1], f["q"]):
            print(f["q"], f["file"], f["line"], f["fl"], f["ret"], [(p[1], p[2]) for p in f["params"]])
            if len(sys.argv) > 2:
                pp(f["body"], 1)
