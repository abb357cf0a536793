from ..sparse import *
from .c02 import OPS


def run(chk):
    K = "const S s = hj_sym(%d); " % PARAM
    for hf in ("31",) + (("7", "1") if chk.thorough else ()):
        s = SSuite(chk, tag=hf, flags=("-DHJ_HASH=" + hf,))
        for ty in (STy(), STy("float")):
            pairs = PAIRS3 + MORE if ty.scalar == "double" else [(3, 6), (0, 5), (7, 7), (1, 2)]
            pairs = [(a, b, NAMES) for a, b in pairs] + [(a, b, 27) for a, b in BIGS]
            for name, op, fun in OPS:
                for A, B, N in pairs:
                    j, k = ("j", 0, A), ("j", STEP, B)
                    d = "variables %s and %s" % (show(A), show(B))
                    s.sadd(ty, name, "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); T r = a %s b; sout(0, r, N); sout(3, a, N); sout(6, b, N);" % (STEP, op),
                           s_meta("a %s b of %s, %s" % (op, ty.cpp, d), fun, [j, k], N, keep={3: (0, A), 6: (STEP, B)}, ints={4: bits(A), 7: bits(B)}), (A, B), N)
                    s.sadd(ty, name + "_ip", "T a = sj<T>(0, A); const T b = sj<T>(%d, B); T &q = (a %s= b); hj_outi(9, &q == &a); sout(0, a, N); sout(6, b, N);" % (STEP, op),
                           s_meta("a %s= b of %s, %s" % (op, ty.cpp, d), fun, [j, k], N, keep={6: (STEP, B)}, ints={7: bits(B), 9: 1}), (A, B), N)
                for A, N in [(m, NAMES) for m in MASKS] + [(BIG, 27)]:
                    j = ("j", 0, A)
                    p = ("s", PARAM)
                    d = "variables %s" % show(A)
                    s.sadd(ty, name + "_js", K + "const T a = sj<T>(0, A); T r = a %s s; sout(0, r, N); sout(3, a, N);" % op, s_meta("a %s scalar of %s, %s" % (op, ty.cpp, d), fun, [j, p], N, keep={3: (0, A)}), (A,), N)
                    s.sadd(ty, name + "_sj", K + "const T a = sj<T>(0, A); T r = s %s a; sout(0, r, N); sout(3, a, N);" % op, s_meta("scalar %s a of %s, %s" % (op, ty.cpp, d), flip(fun), [j, p], N, keep={3: (0, A)}), (A,), N)
                    s.sadd(ty, name + "_ips", K + "T a = sj<T>(0, A); T &q = (a %s= s); hj_outi(9, &q == &a); sout(0, a, N);" % op, s_meta("a %s= scalar of %s, %s" % (op, ty.cpp, d), fun, [j, p], N, ints={9: 1}), (A,), N)
                    s.sadd(ty, name + "_self", "T a = sj<T>(0, A); T &q = (a %s= a); hj_outi(9, &q == &a); sout(0, a, N);" % op, s_meta("a %s= a of %s, %s" % (op, ty.cpp, d), fun, [j, j], N, ints={9: 1}), (A,), N)
                    s.sadd(ty, name + "_same", "const T a = sj<T>(0, A); T r = a %s a; sout(0, r, N); sout(3, a, N);" % op, s_meta("a %s a of %s, %s" % (op, ty.cpp, d), fun, [j, j], N, keep={3: (0, A)}), (A,), N)
                    s.sadd(ty, name + "_ipf", "T a = sj<T>(0, A); a %s= a.f(); sout(0, a, N);" % op, s_meta("a %s= a.f() of %s, %s" % (op, ty.cpp, d), fun, [j, ("s", 0)], N), (A,), N)
                    s.sadd(ty, name + "_int", "const T a = sj<T>(0, A); T r = a %s 3; sout(0, r, N);" % op, s_meta("a %s 3 of %s, %s" % (op, ty.cpp, d), fun, [j, ("c", 3)], N), (A,), N)
            for A in MASKS:
                s.sadd(ty, "neg", "const T a = sj<T>(0, A); T r = -a; sout(0, r, N); sout(3, a, N);", s_meta("-a of %s, variables %s" % (ty.cpp, show(A)), spec.NEG, [("j", 0, A)], keep={3: (0, A)}), (A,))
                # chained and nested
                for B in (0, 1, 6):
                    s.sadd(ty, "chain", "T a = sj<T>(0, A); const T b = sj<T>(%d, B); (a *= b) *= b; T c = sj<T>(0, A); c = c * b; c = c * b; sout(3, a, N); sout(20, c, N);" % STEP,
                           dict(name="(a *= b) *= b of %s, variables %s and %s" % (ty.cpp, show(A), show(B)), pair=(3, 20), ints={4: bits(A | B), 21: bits(A | B)}, operands=[]), (A, B))
                    s.sadd(ty, "nest", "T a = sj<T>(0, A); const T b = sj<T>(%d, B); a = (a + b) / (a * b); T x = sj<T>(0, A); T c = x + b; T e = x * b; T r = c / e; sout(3, a, N); sout(20, r, N);" % STEP,
                           dict(name="a = (a + b) / (a * b) of %s, variables %s and %s" % (ty.cpp, show(A), show(B)), pair=(3, 20), ints={4: bits(A | B), 21: bits(A | B)}, operands=[]), (A, B))
        s.judge("sparse arithmetic", mk, kinds=MEMORY | PURITY, leaks=True)
    chk.rules = ["value and derivative with respect to every name of either operand by the chain rule, zero for all others; the number of variables is that of the union",
                 "compound forms return the target and equal the binary forms, also on the target itself; operands keep value and derivatives"]
    chk.expected_min = 5000
    return chk.finish(explanation="Binary and compound operators on symbolic sparse numbers for all pairs of variable sets over three names, special names (empty, long, sharing prefixes) and sets large enough to rehash, interpreted through the standard unordered_map.")


def flip(fun):
    """scalar op number as a function of (number, scalar)."""
    return FLIP[fun.name]


_x = spec._x
_E = {"add": _x[0] + _x[1], "sub": _x[1] - _x[0], "mul": _x[0] * _x[1], "div": _x[1] / _x[0]}
FLIP = {k: spec.Fun("r" + k, e, 2, [spec.NZ if k == "div" else spec.ANY, spec.REAL]) for k, e in _E.items()}


def mk(run, meta):
    if "pair" in meta:
        t, ref = meta["pair"]
        return same_problem(run, dict(meta, pairs={t: ref}, values={0: spec.NZ, STEP: spec.NZ}))
    return s_problem(run, meta)
