from ..sparse import *

CALLS = {k: "a.%s()" % k for k in spec.UNARY if k not in ("pow", "logb")}
CALLS["pow"] = "a.pow(hj_sym(%d))" % PARAM
CALLS["logb"] = "a.log(hj_sym(%d))" % PARAM


def run(chk):
    for hf in ("31",) + (("7", "1") if chk.thorough else ()):
        s = SSuite(chk, tag=hf, flags=("-DHJ_HASH=" + hf,))
        for ty in (STy(), STy("float")):
            full = ty.scalar == "double"
            for k, call in CALLS.items():
                f = spec.UNARY[k]
                for A, N in [(m, NAMES) for m in (MASKS if full else (0, 1, 5))] + [(BIG, 27)]:
                    ops = [("j", 0, A)] + ([("s", PARAM)] if f.nparam else [])
                    s.sadd(ty, k, "const T a = sj<T>(0, A); T r = %s; sout(0, r, N); sout(3, a, N);" % call,
                           s_meta("%s of %s, variables %s" % (k, ty.cpp, show(A)), f, ops, N, keep={3: (0, A)}), (A,), N)
            pairs = ([(a, b, NAMES) for a, b in PAIRS3 + MORE] if full else [(3, 6, NAMES)]) + [(a, b, 27) for a, b in BIGS]
            for nm, f, call in (("atan2", spec.ATAN2, "a.atan2(b)"), ("hypot", spec.HYPOT2, "T::hypot(a, b)")):
                for A, B, N in pairs:
                    s.sadd(ty, nm, "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); T r = %s; sout(0, r, N); sout(3, a, N); sout(6, b, N);" % (STEP, call),
                           s_meta("%s of %s, variables %s and %s" % (nm, ty.cpp, show(A), show(B)), f, [("j", 0, A), ("j", STEP, B)], N, keep={3: (0, A), 6: (STEP, B)}), (A, B), N)
            for A in (0, 3, 0b1011000):
                s.sadd(ty, "hypot_same", "const T a = sj<T>(0, A); T r = T::hypot(a, a); sout(0, r, N);", s_meta("hypot(a, a) of %s, variables %s" % (ty.cpp, show(A)), spec.HYPOT2, [("j", 0, A)] * 2), (A,))
                s.sadd(ty, "hypot_same3", "const T a = sj<T>(0, A); T r = T::hypot(a, a, a); sout(0, r, N);", s_meta("hypot(a, a, a) of %s, variables %s" % (ty.cpp, show(A)), spec.HYPOT3, [("j", 0, A)] * 3), (A,))
                s.sadd(ty, "atan2_same", "const T a = sj<T>(0, A); T r = a.atan2(a); sout(0, r, N);", s_meta("atan2(a, a) of %s, variables %s" % (ty.cpp, show(A)), spec.ATAN2, [("j", 0, A)] * 2), (A,))
            trip = [(a, b, c, NAMES) for a in (0, 1, 3, 6) for b in (0, 1, 2, 5) for c in (0, 4, 7)] + [(8, 16, 64, NAMES), (0b1111000, 0b0001111, 0b1010101, NAMES), (BIG, 5, 0x1555555, 27), (0x1ff, 0x3fe00, 0x7fc0000, 27)]
            for A, B, C, N in trip if full else trip[:3]:
                s.sadd(ty, "hypot3", "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); const T c = sj<T>(%d, C); T r = T::hypot(a, b, c); sout(0, r, N); sout(3, a, N); sout(6, b, N); sout(12, c, N);" % (STEP, 2 * STEP),
                       s_meta("hypot of %s, variables %s, %s and %s" % (ty.cpp, show(A), show(B), show(C)), spec.HYPOT3, [("j", 0, A), ("j", STEP, B), ("j", 2 * STEP, C)], N, keep={3: (0, A), 6: (STEP, B), 12: (2 * STEP, C)}), (A, B, C), N)
        s.judge("sparse functions", s_problem, kinds=MEMORY | PURITY, leaks=True)
    chk.rules = ["value and derivative with respect to every name of the operands by the chain rule (derivatives by symbolic differentiation), zero for all others; the variables of the result are the union"]
    chk.expected_min = 3000
    return chk.finish(explanation="Every function of sparse numbers on symbolic operands for sets of variables over seven names (empty, long, sharing prefixes) and sets large enough to rehash, interpreted through the standard unordered_map; each derivative is a value-number term compared with the chain rule.")
