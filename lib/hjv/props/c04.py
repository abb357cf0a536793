from ..dense import *
from .c02 import FLOATS

ABC = "const T a = jet<T>(0, n); const T b = jet<T>(%d, n); const T c = jet<T>(%d, n);" % (STEP, 2 * STEP)


def run(chk):
    s = Suite(chk)
    a, b, c = ("j", 0), ("j", STEP), ("j", 2 * STEP)
    for ty in all_types() + FLOATS:
        for n in sizes(chk, ty):
            m = lambda w, f, ops: jet_meta("%s of %s with %d variables" % (w, ty.cpp, n), f, ty, n, ops)
            s.add(ty, "atan2", ABC + "T r = a.atan2(b); out(0, r);", m("a.atan2(b)", spec.ATAN2, [a, b]), n)
            s.add(ty, "atan2r", ABC + "T r = b.atan2(a); out(0, r);", m("b.atan2(a)", spec.ATAN2, [b, a]), n)
            s.add(ty, "atan2s", ABC + "T r = a.atan2(a); out(0, r);", m("a.atan2(a)", spec.ATAN2, [a, a]), n)
            s.add(ty, "over", ABC + "T x = a; T y = b; x = x.atan2(y); y = T(a).atan2(T(b)); out(0, x); out(3, y);", jet_meta("x = x.atan2(y) of %s with %d variables" % (ty.cpp, n), spec.ATAN2, ty, n, [a, b], tags=(0, 3)), n)
            s.add(ty, "hypotover", ABC + "T x = a; T y = b; x = T::hypot(x, y); y = T::hypot(a, y); out(0, x); out(3, y);", jet_meta("x = hypot(x, y) of %s with %d variables" % (ty.cpp, n), spec.HYPOT2, ty, n, [a, b], tags=(0, 3)), n)
            s.add(ty, "hypot2", ABC + "T r = T::hypot(a, b); out(0, r);", m("hypot(a, b)", spec.HYPOT2, [a, b]), n)
            s.add(ty, "hypot2s", ABC + "T r = T::hypot(a, a); out(0, r);", m("hypot(a, a)", spec.HYPOT2, [a, a]), n)
            s.add(ty, "hypot3", ABC + "T r = T::hypot(a, b, c); out(0, r);", m("hypot(a, b, c)", spec.HYPOT3, [a, b, c]), n)
            for w, ops in (("aab", [a, a, b]), ("aba", [a, b, a]), ("baa", [b, a, a]), ("aaa", [a, a, a])):
                s.add(ty, "hypot3" + w, ABC + "T r = T::hypot(%s); out(0, r);" % ", ".join(w), m("hypot(%s)" % ", ".join(w), spec.HYPOT3, ops), n)
    s.judge("chain rule of atan2 and hypot", fun_problem)
    chk.rules = ["chain rule with the exact first and second partial derivatives; quadrants and axes are among the sampled points; atan2 away from its branch cut"]
    chk.expected_min = 5000
    return chk.finish(explanation="atan2 and both hypot forms on distinct and repeated symbolic operands for each order, size and storage, compared with the exact chain rule in all quadrants and on the axes.")
