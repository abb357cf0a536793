from ..dense import *
from . import c11

DB = 800000


def run(chk):
    s = Suite(chk, tag="e", flags=build.EIGEN)
    for ty in all_types() + [Ty(2, 3, "float"), Ty(1, None, "float"), Ty(2, None, "float")]:
        for n in sizes(chk, ty, (0, 1, 2, 3, 4, 5, 8, 16, 17, 33)):
            m = dict(name="eval of %s with %d variables" % (ty.cpp, n), order=ty.order, n=n, scalar=ty.scalar, label={0: "the expansion", 3: "the number"})
            s.add(ty, "eval", "const T a = jet<T>(0, n); const auto d = disp<T>(%d, n); hj_out(0, a.eval(d)); out(3, a);" % DB, m, n)
    s.judge("Taylor expansion", mk, kinds=MEMORY | PURITY, leaks=True)
    for q in c11.suites(chk, ("C15",), True):
        q.judge("displacement of another length is rejected", keep_problem, kinds=MEMORY, leaks=True)
    chk.rules = ["f + sum g_i d_i for order 1, plus half the full quadratic form for order 2 (off-diagonal entries twice)", "other lengths end in an exception"]
    chk.expected_min = 100
    return chk.finish(explanation="eval on a symbolic number and a symbolic displacement for each order, size and storage compared with the quadratic form; run-time-sized numbers with displacements of other lengths must throw.")


def mk(run, meta):
    order, n = meta["order"], meta["n"]

    def want(P):
        r = P.sym(0).copy()
        d = [P.sym(DB + i) for i in range(n)]
        for i in range(n): r = r + d[i] * P.sym(1 + i)
        if order == 2:
            for i in range(n):
                for j in range(i, n): r = r + d[i] * d[j] * P.sym(hpos(n, i, j)) * (np.longdouble(0.5) if i == j else 1)
        return [r]
    f32 = meta["scalar"] != "double"
    L = spec.comps(order, n)
    zeros = zero_patterns(order, n, [0]) + [set(DB + i for i in range(n))] + [{DB + i} for i in range(min(n, 4))]
    return Problem(run, {0: want, 3: lambda P: P.block(0, L)}, {0: spec.REAL}, zeros=zeros, f32ok=f32, tol=1e-4 if f32 else 1e-13)
