from ..dense import *


def run(chk):
    s = Suite(chk)
    N = PARAM
    for ty in all_types() + [Ty(2, 3, "float"), Ty(1, None, "float"), Ty(2, None, "float")]:
        for n in sizes(chk, ty):
            L = spec.comps(ty.order, n)
            o = 1 if ty.dyn else 0
            H = n * (n + 1) // 2 if ty.order == 2 else 0

            def add(name, code, exact, args=(), ints=None, nm=None):
                s.add(ty, name, "T x = jet<T>(0, n); const T &c = x; const S s = hj_sym(%d); (void)c; %s" % (N, code),
                      dict(name="%s of %s with %d variables" % (nm or name, ty.cpp, n), scalar=ty.scalar, ints=ints or {}, exact=exact), n, args)
            sy = lambda k: ("s", k)
            # reading
            add("read_f", "hj_out(0, c.f()); hj_out(0, x.f());", {0: lst([sy(0), sy(0)])})
            add("read_g", "for (long i = 0; i < n; i++) hj_out(0, c.g(i)); for (long i = 0; i < n; i++) hj_out(3, x.g(i));", {0: lst([sy(1 + i) for i in range(n)]), 3: lst([sy(1 + i) for i in range(n)])})
            if ty.order == 2:
                for e in "cx":
                    add("read_h" + e, "for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) hj_out(0, %s.h(i, j)); for (long k = 0; k < n * (n + 1) / 2; k++) hj_out(3, %s.h(k));" % (e, e),
                        {0: lst([sy(hpos(n, i, j)) for i in range(n) for j in range(n)]), 3: lst([sy(1 + n + k) for k in range(H)])})
            add("read_data", "hj_outi(20, (long)c.data().size()); hj_outi(21, c.ptr() == c.data().data()); hj_outi(22, x.ptr() == &x.f()); outs(0, x.data().data(), c.data_length());", {0: lst([sy(k) for k in range(L)])}, ints={20: max(L, 1), 21: 1, 22: 1})
            if n: add("place", "hj_outi(20, &x.g(0) - x.ptr()); hj_outi(21, &x.g(n - 1) - x.ptr());" + (" hj_outi(22, &x.h(0) - x.ptr()); hj_outi(23, &x.h(n - 1, n - 1) - x.ptr()); hj_outi(24, &x.h(0, n - 1) == &x.h(n - 1, 0)); hj_outi(25, &x.h(n - 1, 0) - x.ptr());" if H else ""), {},
                           ints=dict([(20, 1), (21, n)] + ([(22, 1 + n), (23, L - 1), (24, 1), (25, 2 * n)] if H else [])))
            # writing one component
            def changed(k): return {0: lst([("s", N) if q == k else sy(q) for q in range(L)])}
            add("set_f", "x.set_f(s); out(0, x);", changed(0))
            add("ref_f", "x.f() = s; out(0, x);", changed(0))
            every = n <= 8 or n in (16, 17)
            for i in range(n):
                if not every and i not in (0, 1, n // 2, n - 1): continue
                add("set_g", "x.set_g(hj_arg(%d), s); out(0, x);" % o, changed(1 + i), [i], nm="set_g(%d)" % i)
                add("ref_g", "x.g(hj_arg(%d)) = s; out(0, x);" % o, changed(1 + i), [i], nm="g(%d) =" % i)
            if H:
                for i in range(n):
                    for j in range(n):
                        if n > 6 and not (i in (0, 1, n // 2, n - 1) and j in (0, n // 2, n - 2, n - 1)): continue
                        add("set_h", "x.set_h(hj_arg(%d), hj_arg(%d), s); out(0, x);" % (o, o + 1), changed(hpos(n, i, j)), [i, j], nm="set_h(%d, %d)" % (i, j))
                        add("ref_h", "x.h(hj_arg(%d), hj_arg(%d)) = s; out(0, x);" % (o, o + 1), changed(hpos(n, i, j)), [i, j], nm="h(%d, %d) =" % (i, j))
                for k in range(H):
                    if H > 30 and k not in (0, 1, n - 1, n, n + 1, H // 2, H - 2, H - 1): continue
                    add("set_hk", "x.set_h(hj_arg(%d), s); out(0, x);" % o, changed(1 + n + k), [k], nm="set_h(%d)" % k)
                    add("ref_hk", "x.h(hj_arg(%d)) = s; out(0, x);" % o, changed(1 + n + k), [k], nm="h(%d) =" % k)
            # writing all of them
            new = [("s", 500000 + k) for k in range(L)]
            allset = "x.set_f(hj_sym(500000)); for (long i = 0; i < n; i++) x.set_g(i, hj_sym(500001 + i));"
            rev = "for (long i = n - 1; i >= 0; i--) x.set_g(i, hj_sym(500001 + i)); x.set_f(hj_sym(500000));"
            if ty.order == 2:
                allset += " { long k = 0; for (long i = 0; i < n; i++) for (long j = i; j < n; j++) x.set_h(j, i, hj_sym(500001 + n + k++)); }"
                rev = "{ long k = n * (n + 1) / 2; for (long i = n - 1; i >= 0; i--) for (long j = n - 1; j >= i; j--) x.h(i, j) = hj_sym(500000 + n + k--); } " + rev
            add("set_all", allset + " out(0, x);", {0: lst(new)})
            add("set_all_reverse", rev + " out(0, x);", {0: lst(new)})
    s.judge("packed layout", same_problem, kinds=MEMORY)
    chk.rules = ["every accessor resolves to the packed position value | gradient | upper triangle row by row; a setter's store reaches exactly that cell", "h(i,j) and h(j,i) resolve to one address"]
    chk.expected_min = 5000
    return chk.finish(explanation="Address resolution of all accessors and setters for every index (sampled for large sizes) of each order, size and storage: reads return the packed symbol, writes change exactly one component.")
