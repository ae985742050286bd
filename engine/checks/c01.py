"""No failure status is lost.

Every call in the library that yields a status (a da_status or aoclsparse_status result, a status
passed by reference, or a LAPACK-style info argument) is explored under the hypothesis that it
fails.  On every path to an exit of the calling function the failure must be returned, stored for
the caller, turned into another failure, or (in a function without a status result) at least
tested; a path that ends in success or never looks at the failure is a violation.

A callee that cannot fail needs no test: callees without any failing path, callees that cannot
fail for the constant or non-null arguments of the call, and option reads and writes whose name,
type and range are proved correct against the registry.
"""
import re
import ir, optmodel, status
from ir import strip

# Failures a caller may answer itself once it has tested them (callee -> why).
HANDLED = {
    "get_result_common": "da_status_unknown_query asks the caller to look further",
    "get_number": "type probing: a token that is no number is read as text",
    "char_to_num": "type probing: a token that is no number is read as text",
    "check_data": "the status is mapped to a message about NaN in the named array",
    "fit_impl": "a failed solver is retried with the fallback solver",
    "compute_cg": "a warning with a usable solution is cleared by the linear model",
    "compute_probabilities": "a warning still provides usable probability estimates",
    "solve": "a warning with a usable solution is cleared by the linear model",
    "kmeans::compute": "an unconverged k-means still yields usable centres",
    "linear_model::fit": "low-precision warm start: without it the solve starts cold",
    "coord_rcomm": "reverse communication reports through its itask argument",
    "getrf": "a singular factor (info > 0) is usable by the range finder",
}
# Failures that need not even be tested (callee -> why).
BEST_EFFORT = {
    "LRUCache::put": "a column that could not be cached is recomputed later; the result is already filled",
    "coord_rcomm": "reverse communication reports through its itask argument",
    "linear_model::get_result": "iteration count of the low-precision warm start, informative only",
}


def last(n, k):
    return "::".join(n.split("::")[-k:])


def listed(site, table):
    return last(site, 1) in table or last(site, 2) in table


def run(ctx):
    P = ctx.P
    M = optmodel.OptModel(P)

    def named(f, e):
        """An option access whose name and type are registered (only the value is computed)."""
        try:
            return M.isuse(e) and M.provable(f, e) in (None, "the value is not constant")
        except Exception:
            return False

    def never(f, e):
        n = e[2]
        b = n.split("::")[-1]
        if n.startswith("std::"):
            return True  # container access to stored statuses
        if b == "register_opt" or re.match(r"(re)?register_\w+$", b):
            return True  # valid definitions are decided by the option-table check
        if b == "query_map" and "OptionRegistry" in n:
            return True
        return named(f, e)
    A = status.StatusAnalysis(P, never)
    ctx.rule("a failing call's status is returned, stored for the caller, converted into another failure or tested, on every path of the calling function")
    nf = 0
    seen = {}
    for f in P.fns.values():
        res = A.check(f)
        nf += 1
        for (site, how), line in res:
            callee, at, kind = site
            if "inspecting" in how and (listed(callee, HANDLED)):
                ctx.count("failures_answered_by_the_caller")
                continue
            if listed(callee, BEST_EFFORT):
                ctx.count("best_effort_calls")
                continue
            k = (f["file"], status.tbase(f["b"]), callee, at, how)
            if k in seen:
                continue
            seen[k] = 1
            ctx.finding("%s:%s:%s" % (status.tbase(f["b"]), callee, "inspected" if "inspecting" in how else "dropped"), ir.loc(f, at),
                        "a failure of %s is lost in %s: the path leaving at line %s %s" % (callee, status.tbase(f["b"]), line, how),
                        path=["%s: %s fails" % (ir.loc(f, at), callee), "%s: %s" % (ir.loc(f, line), how)])
    # keep one sample of what was proved
    for (fid, callee, line, kind) in list(A.sites)[:40]:
        ctx.sample("%s: %s (%s)" % (ir.loc(P.fns[fid], line), callee, kind))
    ctx.count("functions_explored", nf)
    ctx.count("failing_calls_followed", len(A.sites))
    ctx.count("calls_proved_unable_to_fail", len([1 for v in A._seeded.values() if v is False]))
    ctx.count("truncated_explorations", len(set(a for a, b in A.truncated)))
    ctx.require(len(A.sites) > 500, "status calls")
