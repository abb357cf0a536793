from ..dense import *
from . import c11

MS = 400000   # symbols of a matrix argument, upper triangle row by row
GS = 500000   # symbols of a gradient or component array argument


def run(chk):
    s = Suite(chk, tag="e", flags=build.EIGEN)
    types = all_types() + [Ty(2, 3, "float"), Ty(1, 4, "float"), Ty(1, None, "float"), Ty(2, None, "float")]
    SYM = ("typename T::Matrix m(n, n); { long q = 0; for (long i = 0; i < n; i++) for (long j = i; j < n; j++) { m(i, j) = hj_sym(%d + q); m(j, i) = m(i, j); q++; } } " % MS)
    UPPER = ("typename T::Matrix m(n, n); { long q = 0; for (long i = 0; i < n; i++) for (long j = i; j < n; j++) { m(j, i) = S(0); m(i, j) = hj_sym(%d + q); q++; } } " % MS)
    BIG = SYM + "Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> big(n + 3, n + 2); big.setConstant(S(7)); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) big(i + 1, j + 2) = m(i, j); "
    ROWM = SYM + "Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rm(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) rm(i, j) = m(i, j); "
    VEC = "typename T::Vector g(n); for (long i = 0; i < n; i++) g(i) = hj_sym(%d + i); " % GS
    BIGV = VEC + "Eigen::Matrix<S, 1, Eigen::Dynamic> bv(n + 4); bv.setConstant(S(7)); for (long i = 0; i < n; i++) bv(i + 2) = g(i); "
    OUTM = "for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) hj_out(10, m(i, j)); hj_outi(20, m.rows()); hj_outi(21, m.cols());"
    for ty in types:
        for n in sizes(chk, ty, (0, 1, 2, 3, 5, 8, 17), (4, 6, 7, 12, 16, 33)):
            L = spec.comps(ty.order, n)
            H = n * (n + 1) // 2 if ty.order == 2 else 0
            sy = lambda k: ("s", k)

            def add(name, code, exact, ints=None):
                s.add(ty, name, "T x = jet<T>(0, n); const T &c = x; const S s = hj_sym(%d); (void)c; " % PARAM + code,
                      dict(name="%s of %s with %d variables" % (name, ty.cpp, n), scalar=ty.scalar, exact=exact, label={0: "the number", 10: "the matrix", 11: "the array"},
                           ints=({1: n, 2: L} if 0 in exact else {}) | (ints or {})), n)
            keep = lst([sy(k) for k in range(L)])

            def mat(lower): return lst([sy(hpos(n, i, j)) if j >= i else (sy(hpos(n, i, j)) if lower else 0) for i in range(n) for j in range(n)])
            packed = lambda f, g, h: lst([f] + [g(i) for i in range(n)] + [h(k) for k in range(H)])
            oldf, oldg, oldh = sy(0), (lambda i: sy(1 + i)), (lambda k: sy(1 + n + k))
            newg, newh = (lambda i: sy(GS + i)), (lambda k: sy(MS + k))
            # gradient
            add("ag of a constant number", "auto g = c.ag(); hj_outi(20, g.size()); for (long i = 0; i < g.size(); i++) hj_out(11, g(i)); hj_outi(21, g.size() == 0 || g.data() == c.ptr() + 1); out(0, x);", {0: keep, 11: lst([sy(1 + i) for i in range(n)])}, {20: n, 21: 1})
            add("ag", "auto g = x.ag(); hj_outi(20, g.size()); for (long i = 0; i < n; i++) hj_out(11, g(i)); hj_outi(21, g.size() == 0 || g.data() == x.ptr() + 1); out(0, x);", {0: keep, 11: lst([sy(1 + i) for i in range(n)])}, {20: n, 21: 1})
            add("writing through ag", "auto g = x.ag(); for (long i = 0; i < n; i++) g(i) = hj_sym(%d + i); out(0, x);" % GS, {0: packed(oldf, newg, oldh)})
            add("assigning to ag", VEC + "x.ag() = g; out(0, x);", {0: packed(oldf, newg, oldh)})
            add("scaling ag", "auto g = x.ag(); x.set_f(s); for (long i = 0; i < n; i++) x.set_g(i, hj_sym(%d + i)); for (long i = 0; i < n; i++) hj_out(11, g(i)); out(0, x);" % GS,
                {0: packed(sy(PARAM), newg, oldh), 11: lst([newg(i) for i in range(n)])})
            # components
            add("adata", "auto d = x.adata(); hj_outi(20, d.size()); for (long i = 0; i < d.size(); i++) hj_out(11, d(i)); hj_outi(21, d.data() == x.ptr()); out(0, x);", {0: keep, 11: keep}, {20: L, 21: 1})
            new = lst([sy(GS + k) for k in range(L)])
            add("writing through adata", "auto d = x.adata(); for (long i = 0; i < d.size(); i++) d(i) = hj_sym(%d + i); out(0, x);" % GS, {0: new})
            DV = "typename T::DataVector v(x.data_length()); for (long i = 0; i < v.size(); i++) v(i) = hj_sym(%d + i); " % GS
            add("set_adata", DV + "x.set_adata(v); out(0, x); for (long i = 0; i < v.size(); i++) hj_out(11, v(i)); v(0) = s; out(3, x);", {0: new, 3: new, 11: new})
            add("set_adata from another number", "T y = jet<T>(%d, n); x.set_adata(y.adata()); out(0, x); y.ptr()[0] = s; out(3, x);" % GS, {0: new, 3: new})
            add("set_adata from itself", "x.set_adata(x.adata()); out(0, x);", {0: keep})
            if ty.order == 1:
                add("from_gradient", VEC + "T r = T::from_gradient(s, g); out(0, r); for (long i = 0; i < n; i++) g(i) = S(1); out(3, r);", {0: packed(sy(PARAM), newg, None), 3: packed(sy(PARAM), newg, None)})
                add("from_gradient of a segment", BIGV + "T r = T::from_gradient(s, bv.segment(2, n)); out(0, r);", {0: packed(sy(PARAM), newg, None)})
                add("from_gradient of ag", "T r = T::from_gradient(s, c.ag()); r.set_f(c.f()); out(0, r);", {0: keep})
            if ty.order == 2:
                add("hm full", "typename T::Matrix m = c.hm(\"full\"); %s out(0, x);" % OUTM, {0: keep, 10: mat(True)}, {20: n, 21: n})
                add("hm zeros", "typename T::Matrix m = c.hm(\"zeros\"); %s out(0, x);" % OUTM, {0: keep, 10: mat(False)}, {20: n, 21: n})
                for md in ("full", "zeros"):
                    add("hm %s into a matrix" % md, "typename T::Matrix m(n, n); m.setConstant(S(7)); c.hm(\"%s\", m); %s out(0, x);" % (md, OUTM), {0: keep, 10: mat(md == "full")}, {20: n, 21: n})
                    add("hm %s into a block" % md, "Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> big(n + 3, n + 2); big.setConstant(S(7)); c.hm(\"%s\", big.block(1, 2, n, n)); for (long i = 0; i < n + 3; i++) for (long j = 0; j < n + 2; j++) hj_out(10, big(i, j)); out(0, x);" % md,
                        {0: keep, 10: lst([7 if not (1 <= i <= n and j >= 2) else (sy(hpos(n, i - 1, j - 2)) if j - 2 >= i - 1 or md == "full" else 0) for i in range(n + 3) for j in range(n + 2)])})
                add("set_hm", SYM + "x.set_hm(m); out(0, x); m.setConstant(S(7)); out(3, x);", {0: packed(oldf, oldg, newh), 3: packed(oldf, oldg, newh)})
                add("set_hm of the upper triangle", UPPER + "x.set_hm(m); out(0, x);", {0: packed(oldf, oldg, newh)})
                add("set_hm of a block", BIG + "x.set_hm(big.block(1, 2, n, n)); out(0, x);", {0: packed(oldf, oldg, newh)})
                add("set_hm of a row-major matrix", ROWM + "x.set_hm(rm); out(0, x);", {0: packed(oldf, oldg, newh)})
                add("set_hm of hm full", "T y = T::zero(n); y.set_hm(c.hm(\"full\")); y.ag() = c.ag(); y.set_f(c.f()); out(0, y);", {0: keep})
                add("set_hm of hm zeros", "T y = T::zero(n); y.set_hm(c.hm(\"zeros\")); y.ag() = c.ag(); y.set_f(c.f()); out(0, y);", {0: keep})
                add("from_arrays", SYM + VEC + "T r = T::from_arrays(s, g, m); out(0, r);", {0: packed(sy(PARAM), newg, newh)})
                add("from_arrays of blocks", BIG + BIGV + "T r = T::from_arrays(s, bv.segment(2, n), big.block(1, 2, n, n)); out(0, r);", {0: packed(sy(PARAM), newg, newh)})
                add("from_arrays of its own parts", "T r = T::from_arrays(c.f(), c.ag(), c.hm(\"full\")); out(0, r);", {0: keep})
                add("hm of set_hm", SYM + "x.set_hm(m); m = x.hm(\"full\"); " + OUTM, {10: lst([sy(MS + hpos(n, i, j) - 1 - n) for i in range(n) for j in range(n)])}, {20: n, 21: n})
    s.judge("exchange is lossless", same_problem, kinds=MEMORY, leaks=True)
    for q in c11.suites(chk, ("C13",), True):
        q.judge("wrongly shaped input is rejected", keep_problem, kinds=MEMORY, leaks=True)
    chk.rules = ["each cell of the matrix, gradient or array denotes the packed component it stands for, and the other way round", "views alias the live storage (their address is that of the component)",
                 "matrices, gradients and arrays of another shape and unknown modes end in an exception on every path"]
    chk.expected_min = 10000
    return chk.finish(explanation="hm, set_hm, ag, adata, set_adata, from_gradient and from_arrays on symbolic contents for each order, size and storage, with contiguous, strided (block) and row-major arguments; wrong shapes enumerated.")
