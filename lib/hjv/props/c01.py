from ..dense import *

METHODS = {k: "a.%s()" % k for k in spec.UNARY if k not in ("pow", "logb")}
METHODS["pow"] = "a.pow(hj_sym(%d))" % PARAM
METHODS["logb"] = "a.log(hj_sym(%d))" % PARAM
FLOATS = [Ty(2, 3, "float"), Ty(1, 4, "float"), Ty(2, None, "float")]


def run(chk):
    s = Suite(chk)
    for ty in all_types() + FLOATS:
        for f, e in METHODS.items():
            ns = sizes(chk, ty)
            if ty.dyn and f in ("sin", "pow"): ns = ns + [130]
            for n in ns:
                s.add(ty, f, "T a = jet<T>(0, n); T r = %s; out(0, r);" % e,
                      jet_meta("%s of %s with %d variables" % (f, ty.cpp, n), spec.UNARY[f], ty, n, [("j", 0)] + ([("s", PARAM)] if f in ("pow", "logb") else [])), n)
    s.judge("unary chain rule", fun_problem)
    chk.rules = ["value = phi(a.f); g_i = phi'(a.f) a_i; h_ij = phi''(a.f) a_i a_j + phi'(a.f) a_ij, phi', phi'' by symbolic differentiation"]
    chk.expected_min = 20000
    return chk.finish(explanation=EXPL)


EXPL = ("Every unary function was abstractly interpreted on a fully symbolic operand for each listed order, size and storage; each result component "
        "is a value-number term compared with the chain rule by random interpretation (confirmed in 50 digits); data-dependent branches are joined, and both sides are compared.")
