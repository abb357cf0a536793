from ..sparse import *
import operator

OPS = [("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), (">", operator.gt), ("<=", operator.le), (">=", operator.ge)]
ANYV = spec.Dom(spec.REAL.gen, lambda v: v == v)
ALL = spec.Dom(spec.REAL.gen, lambda v: np.ones(np.shape(v), bool))
VALS = (0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 1e-300, -1e-300, 1e300, float("inf"), float("-inf"), float("nan"))


def run(chk):
    s = Suite(chk)
    for ty in all_types() + [Ty(2, 3, "float"), Ty(1, None, "float")]:
        pairs = [(n, n) for n in sizes(chk, ty)]
        if ty.dyn: pairs += [(0, 2), (2, 0), (2, 3), (3, 1), (17, 16)]
        for n, k in pairs:
            A = "const T a = jet<T>(0, n); const T b = jet<T>(%d, %s); const S s = hj_sym(%d); freeze(a, 0); freeze(b, 1);" % (STEP, "hj_arg(1)" if ty.dyn else "n", PARAM)
            code, wb = A, {}
            for i, (o, f) in enumerate(OPS):
                for j, (x, y, p, q) in enumerate((("a", "b", 0, STEP), ("a", "s", 0, PARAM), ("s", "b", PARAM, STEP), ("a", "a", 0, 0), ("b", "a", STEP, 0))):
                    t = 100 + 10 * i + j
                    code += " hj_outb(%d, %s %s %s);" % (t, x, o, y)
                    wb[t] = (lambda f, p, q: lambda P: [f(P.sym(p), P.sym(q))])(f, p, q)
                # literals and temporaries
                code += " hj_outb(%d, a %s 1); hj_outb(%d, 0 %s b); hj_outb(%d, T(a) %s T(b));" % (100 + 10 * i + 5, o, 100 + 10 * i + 6, o, 100 + 10 * i + 7, o)
                one = np.longdouble(1)
                wb[100 + 10 * i + 5] = (lambda f: lambda P: [f(P.sym(0), one)])(f)
                wb[100 + 10 * i + 6] = (lambda f: lambda P: [f(0 * one, P.sym(STEP))])(f)
                wb[100 + 10 * i + 7] = (lambda f: lambda P: [f(P.sym(0), P.sym(STEP))])(f)
            code += " hj_thaw();"
            lab = {100 + 10 * i + j: w % o for i, (o, _) in enumerate(OPS) for j, w in enumerate(("a %s b", "a %s s", "s %s b", "a %s a", "b %s a", "a %s 1", "0 %s b", "T(a) %s T(b)"))}
            special = [{0: u, STEP: v, PARAM: v} for u in VALS for v in VALS] if ty.scalar == "double" else [{0: u, STEP: v, PARAM: v} for u in (0, 1, -1, 2.5) for v in (0, 1, -1, 2.5)]
            s.add(ty, "cmp", code, dict(name="comparisons of %s with %d and %d variables" % (ty.cpp, n, k), scalar=ty.scalar, wantb=wb, label=lab, values={0: ALL, STEP: ALL, PARAM: ALL}, special=special), n, [k] if ty.dyn else [])
        for n in sizes(chk, ty):
            L = spec.comps(ty.order, n)
            s.add(ty, "abs", "const T a = jet<T>(0, n); T r = a.abs(); out(0, r); T q = abs(a); out(3, q);",
                  dict(name="abs of %s with %d variables" % (ty.cpp, n), scalar=ty.scalar, values={0: spec.NZ}, ints={1: n, 2: L}, special=[{0: v} for v in (1, -1, 1e-40, -1e-40, 1e40, -1e40)], label={0: "a.abs()", 3: "abs(a)"},
                       exact={t: (lambda L: lambda P: np.where(P.sym(0) < 0, -1, 1) * P.block(0, L))(L) for t in (0, 3)}, zeros=zero_patterns(ty.order, n, [0])), n)
    s.judge("comparison of the values", same_problem, kinds=PURITY | MEMORY)
    q = SSuite(chk)
    for ty in (STy(), STy("float")):
        for A, B in ((0, 0), (1, 0), (3, 6), (7, 7), (0b1011000, 5)):
            code, wb, lab = "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); const S s = hj_sym(%d);" % (STEP, PARAM), {}, {}
            for i, (o, f) in enumerate(OPS):
                for j, (x, y, u, v) in enumerate((("a", "b", 0, STEP), ("a", "s", 0, PARAM), ("s", "b", PARAM, STEP), ("a", "a", 0, 0), ("b", "a", STEP, 0))):
                    t = 100 + 10 * i + j
                    code += " hj_outb(%d, %s %s %s);" % (t, x, o, y)
                    wb[t] = (lambda f, u, v: lambda P: [f(P.sym(u), P.sym(v))])(f, u, v)
                    lab[t] = "%s %s %s" % (x, o, y)
                t = 100 + 10 * i + 5
                code += " hj_outb(%d, a %s 1); hj_outb(%d, 0 %s b);" % (t, o, t + 1, o)
                one = np.longdouble(1)
                wb[t] = (lambda f: lambda P: [f(P.sym(0), one)])(f)
                wb[t + 1] = (lambda f: lambda P: [f(0 * one, P.sym(STEP))])(f)
                lab[t], lab[t + 1] = "a %s 1" % o, "0 %s b" % o
            special = [{0: u, STEP: v, PARAM: v} for u in VALS for v in VALS] if ty.scalar == "double" else [{0: u, STEP: v, PARAM: v} for u in (0, 1, -1, 2.5) for v in (0, 1, -1, 2.5)]
            q.sadd(ty, "cmp", code + " sout(0, a, N);", dict(name="comparisons of %s, variables %s and %s" % (ty.cpp, show(A), show(B)), wantb=wb, label=lab, values={0: ALL, STEP: ALL, PARAM: ALL}, special=special, keep={}, ints={1: bits(A)}), (A, B))
        for A in MASKS:
            q.sadd(ty, "abs", "const T a = sj<T>(0, A); T r = a.abs(); sout(0, r, N); T w = abs(a); sout(3, w, N); sout(6, a, N);",
                   s_meta("abs of %s, variables %s" % (ty.cpp, show(A)), spec.UNARY["abs"], [("j", 0, A)], tags=(0, 3), keep={6: (0, A)}, ints={4: bits(A), 7: bits(A)}, special=[{0: v} for v in (1, -1, 1e-40, -1e-40, 1e40, -1e40)]), (A,))
    q.judge("comparison of the values (sparse)", s_problem, kinds=PURITY | MEMORY)
    chk.rules = ["the derived truth term equals the comparison of the two values at all orderings of the values, including equal ones, signed zeros, infinities and NaN; it is independent of every derivative", "abs: the number where its value is positive, its negation where it is negative"]
    chk.expected_min = 1000
    return chk.finish(explanation="All comparison operators between numbers (also of different run-time sizes), numbers and scalars on both sides, and abs; the truth terms are compared with the comparison of the values.")
