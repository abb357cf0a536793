"""Requests that must be rejected (C11, C13, C15, C29)."""
from .dense import *


class Rej:
    def __init__(self, name, ty, n, code, args=(), eigen=False, prop="C11", what=""):
        self.name, self.ty, self.n, self.code, self.args, self.eigen, self.prop, self.what = name, ty, n, code, args, eigen, prop, what


def types():
    return all_types() + [Ty(2, 3, "float"), Ty(2, None, "float")]


def sizes_of(order, upto):
    return {spec.comps(order, n) for n in range(upto)}


def requests(thorough=False):
    """x: an existing number with n variables (symbols 0...), kept; data: helper."""
    R = []
    SA = "const S s = hj_sym(%d); " % PARAM
    for ty in types():
        ns = (0, 1, 2, 3, 6, 17) + ((5, 8, 16, 33) if thorough else ()) if ty.dyn else (ty.size,)
        o = 1 if ty.dyn else 0
        A = "hj_arg(%d)" % o
        for n in ns:
            def r(name, code, args=(), **kw): R.append(Rej(name, ty, n, SA + code, args, **kw))
            if ty.dyn:
                for m in (-1, -2, -1000):
                    r("empty", "T r = T::empty(%s);" % A, [m])
                    r("zero", "T r = T::zero(%s);" % A, [m])
                    r("constant", "T r = T::constant(s, %s);" % A, [m])
                    r("resize", "x.resize(%s);" % A, [m])
                    r("variable_size", "T r = T::variable(0, s, %s);" % A, [m])
                    r("data_size", "T r(x.data(), %s);" % A, [m])
                for d in (-1, 1, 5):
                    if n + d >= 0: r("data_size", "T r(x.data(), %s);" % A, [n + d])
                good = sizes_of(ty.order, 200)
                for L in (0, 2, 4, 5, 7, 8, 9, 11, 14, 16, 20, 22, 27, 29, 35, 37, 44, 46, 119, 121, 135, 137, 152, 154):
                    if L in good: continue
                    r("create", "typename T::Data d(%s); for (auto &q : d) q = s; T r = T::create(d);" % A, [L])
                    r("count", "long k = T::size_from_data_length(%s); hj_outi(99, k);" % A, [L])
                r("count", "long k = T::size_from_data_length(%s); hj_outi(99, k);" % A, [-1])
                r("count", "long k = T::size_from_data_length(%s); hj_outi(99, k);" % A, [-5])
                for L in (2, 4, 5, 7):
                    if L not in good: r("list%d" % L, "T r{%s};" % ", ".join(["s"] * L))
                for m in (n - 1, n - 2, 0, -1, -7):
                    if m < n:
                        r("pad_left", "T r = x.pad_left(%s);" % A, [m])
                        r("pad_right", "T r = x.pad_right(%s);" % A, [m])
                for i in (-1, n, n + 1, n + 100, -100): r("variable_index", "T r = T::variable(%s, s, n);" % A, [i])
            else:
                for m in (n - 1, n + 1, 0, -1, -2, 2 * n + 3):
                    if m == n: continue
                    r("empty", "T r = T::empty(%s);" % A, [m])
                    r("zero", "T r = T::zero(%s);" % A, [m])
                    r("constant", "T r = T::constant(s, %s);" % A, [m])
                    r("variable_size", "T r = T::variable(0, s, %s);" % A, [m])
                    if m >= 0: r("variables", "std::vector<S> w(%s, s); auto r = T::variables(w);" % A, [m])
                for i in (-1, n, n + 1, n + 100, -100):
                    r("variable_index", "T r = T::variable(%s, s);" % A, [i])
                    r("variable_indexn", "T r = T::variable(%s, s, n);" % A, [i])
                L = spec.comps(ty.order, n)
                for k in sorted({L - 1, L + 1, L + 2, 2} | {spec.comps(ty.order, n + 1), spec.comps(ty.order, max(n - 1, 0))}):
                    if k > 0 and k != L: r("list%d" % k, "T r{%s};" % ", ".join(["s"] * k))
                for k in (L - 1, L + 1, 0):
                    if k in sizes_of(ty.order, 200) or k < 0: continue
                    r("count", "long k = T::size_from_data_length(%s); hj_outi(99, k);" % A, [k])
            # Eigen
            if ty.dyn:
                for d in (-1, 1, 4):
                    if n + d < 0: continue
                    r("eval", "std::vector<S> d(%s, s); hj_out(98, x.eval(d));" % A, [n + d], eigen=True, prop="C15")
                    r("set_adata", "typename T::DataVector v(%s); for (long i = 0; i < v.size(); i++) v(i) = s; x.set_adata(v);" % A, [spec.comps(ty.order, n) + d], eigen=True, prop="C13")
                    if ty.order == 2:
                        for a, b in ((n + d, n + d), (n + d, n), (n, n + d)):
                            r("set_hm", "typename T::Matrix m(%s, hj_arg(2)); m.setConstant(s); x.set_hm(m);" % A, [a, b], eigen=True, prop="C13")
                            r("hm_out", "typename T::Matrix m(%s, hj_arg(2)); m.setConstant(s); x.hm(\"full\", m);" % A, [a, b], eigen=True, prop="C13")
                            r("from_arrays", "typename T::Vector g(n); g.setConstant(s); typename T::Matrix m(%s, hj_arg(2)); m.setConstant(s); T r = T::from_arrays(s, g, m);" % A, [a, b], eigen=True, prop="C13")
            if ty.order == 2 and n:
                for i, md in enumerate(("", "Full", "zero", "lower", "fullx")):
                    r("mode%d" % i, "auto m = x.hm(\"%s\"); hj_out(98, m(0, 0));" % md, eigen=True, prop="C13")
    return R
