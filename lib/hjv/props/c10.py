from ..dense import *

BIG = (20, 31, 50, 100, 255, 1000, 4095, 46339, 46340, 65535, 1000000)


def run(chk):
    s = Suite(chk)
    S = ("s", PARAM)
    for ty in all_types() + [Ty(2, 3, "float"), Ty(1, None, "float"), Ty(2, None, "float")]:
        f32 = ty.scalar != "double"
        for n in sizes(chk, ty):
            L = spec.comps(ty.order, n)

            def add(name, code, items, args=(), n_=n, nm=None, extra=None, key=None):
                m = dict(name="%s of %s with %d variables" % (nm or name, ty.cpp, n), scalar=ty.scalar, ints={1: n_, 2: spec.comps(ty.order, n_)}, exact={0: lst(items)} if items is not None else {},
                         label={0: "result"}, intnames={1: "size of the result", 2: "number of components of the result"})
                if extra: m["ints"].update(extra)
                s.add(ty, key or name, "const S s = hj_sym(%d); %s" % (PARAM, code), m, n, args)
            const = [S] + [0.0] * (L - 1)
            add("zero_n", "T r = T::zero(n); out(0, r);", [0.0] * L)
            add("constant_n", "T r = T::constant(s, n); out(0, r);", const)
            add("empty_n", "T r = T::empty(n); out(0, r);", None)
            add("create", "typename T::Data d; if constexpr (T::is_dynamic()) d.resize(T::data_length_from_size(n)); for (long k = 0; k < (long)d.size(); k++) d[k] = hj_sym(k); T r = T::create(d); out(0, r);" if False else
                "T a = jet<T>(0, n); T r = T::create(a.data()); out(0, r); hj_outi(5, &r.ptr()[0] != &a.ptr()[0]);", [("s", k) for k in range(L)], extra={5: 1})
            add("trait", "T r = T::zero(n); out(0, r); hj_outi(20, T::order()); hj_outi(21, T::is_dynamic()); hj_outi(22, T::static_size()); hj_outi(23, (long)r.data().size()); hj_outi(24, T::data_length_from_size(n)); hj_outi(25, T::size_from_data_length(r.data_length()));",
                [0.0] * L, extra={20: ty.order, 21: int(ty.dyn), 22: -1 if ty.dyn else n, 23: max(L, 1), 24: L, 25: n})
            off = 1 if ty.dyn else 0
            for i in range(n):
                if n > 17 and i not in (0, 1, n // 2, n - 2, n - 1): continue
                g = [1.0 if k == i else 0.0 for k in range(n)]
                v = [S] + g + [0.0] * (L - 1 - n)
                add("variable_n", "T r = T::variable(hj_arg(%d), s, n); out(0, r);" % off, v, [i], nm="variable(%d, s, n)" % i)
                if not ty.dyn: add("variable_i", "T r = T::variable(hj_arg(%d), s); out(0, r);" % off, v, [i], nm="variable(%d, s)" % i)
            # lists of variables
            items, code = {}, "std::vector<S> w(n); for (long i = 0; i < n; i++) w[i] = hj_sym(i); auto v = T::variables(w); hj_outi(3, (long)v.size()); for (long i = 0; i < n && i < (long)v.size(); i++) { hj_outi(1000 + i, v[i].size()); outs(2000 + i, v[i].ptr(), v[i].data_length()); }"
            m = dict(name="variables(vector) of %s with %d variables" % (ty.cpp, n), scalar=ty.scalar, ints={3: n}, exact={}, label={})
            for i in range(n):
                m["ints"][1000 + i] = n
                m["exact"][2000 + i] = lst([("s", i)] + [1.0 if k == i else 0.0 for k in range(n)] + [0.0] * (L - 1 - n))
                m["label"][2000 + i] = "variable %d" % i
            s.add(ty, "variables_v", code, m, n)
            for na in ([n] if not ty.dyn else (0, 1, 2, 3, 5)):
                if ty.dyn and n != 0: continue
                LA = spec.comps(ty.order, na)
                code = "std::array<S, %d> w{}; for (long i = 0; i < %d; i++) w[i] = hj_sym(i); auto v = T::template variables<%d>(w); hj_outi(3, (long)v.size()); for (long i = 0; i < %d && i < (long)v.size(); i++) { hj_outi(1000 + i, v[i].size()); outs(2000 + i, v[i].ptr(), v[i].data_length()); }" % (na, na, na, na)
                m = dict(name="variables(array) of %s with %d variables" % (ty.cpp, na), scalar=ty.scalar, ints={3: na}, exact={}, label={})
                for i in range(na):
                    m["ints"][1000 + i] = na
                    m["exact"][2000 + i] = lst([("s", i)] + [1.0 if k == i else 0.0 for k in range(na)] + [0.0] * (LA - 1 - na))
                    m["label"][2000 + i] = "variable %d" % i
                s.add(ty, "variables_a%s" % (na if ty.dyn else ""), code, m, n)
            # constructors
            if not ty.dyn:
                add("zero_0", "T r = T::zero(); out(0, r);", [0.0] * L)
                add("constant_0", "T r = T::constant(s); out(0, r);", const)
                add("empty_0", "T r = T::empty(); out(0, r);", None)
                add("ctor_0", "T r; out(0, r);", None)
                add("ctor_s", "T r(s); out(0, r);", const)
                add("ctor_conv", "T r = s; out(0, r);", const)
                add("ctor_assign", "T r; r = s; out(0, r);", const)
                add("ctor_data", "T a = jet<T>(0, n); T r(a.data()); out(0, r);", [("s", k) for k in range(L)])
            else:
                add("ctor_datan", "T a = jet<T>(0, n); T r(a.data(), n); out(0, r);", [("s", k) for k in range(L)])
                if n == 0:
                    add("ctor_0", "T r; out(0, r);", [0.0])
                    add("ctor_s", "T r(s); out(0, r);", [S])
                    add("ctor_conv", "T r = s; out(0, r);", [S])
                    add("ctor_assign", "T r = jet<T>(0, 3); r = s; out(0, r);", [S])
                    add("zero_0", "T r = T::zero(); out(0, r);", [0.0])
                    add("constant_0", "T r = T::constant(s); out(0, r);", [S])
                    add("empty_0", "T r = T::empty(); out(0, r);", None)
                    add("vec_default", "std::vector<T> v(2); out(0, v[1]);", [0.0])
            if L <= 45 or not ty.dyn:
                il = ", ".join("(S)hj_sym(%d)" % k for k in range(L))
                add("ctor_list", "T r{%s}; out(0, r);" % il, [("s", k) for k in range(L)], key="ctor_list%s" % (n if ty.dyn else ""))
                add("ctor_listeq", "T r = {%s}; out(0, r);" % il, [("s", k) for k in range(L)], key="ctor_listeq%s" % (n if ty.dyn else ""))
            add("copy", "T a = jet<T>(0, n); T r = a; out(0, r);", [("s", k) for k in range(L)])
            add("set_zero", "T r = jet<T>(0, n); r.set_zero(); out(0, r);", [0.0] * L)
            for how, st in (("into_other", "T q = jet<T>(%d, n); q = a; out(0, q);" % STEP), ("into_empty", "T q = T::empty(n); q = a; out(0, q);")):
                add("assign_" + how, "T a = jet<T>(0, n); " + st, [("s", k) for k in range(L)])
            if ty.dyn:
                add("assign_bigger", "T a = jet<T>(0, n); T q = jet<T>(%d, n + 3); q = a; out(0, q);" % STEP, [("s", k) for k in range(L)])
                add("assign_smaller", "T a = jet<T>(0, n); T q = jet<T>(%d, n > 2 ? n - 2 : 0); q = a; out(0, q);" % STEP, [("s", k) for k in range(L)])
        # component counts of large numbers
        if ty.dyn and not f32:
            for n in BIG:
                s.add(ty, "count", "hj_outi(24, T::data_length_from_size(n)); hj_outi(25, T::size_from_data_length(hj_arg(1)));",
                      dict(name="component count of %s with %d variables" % (ty.cpp, n), ints={24: spec.comps(ty.order, n), 25: n}, intnames={24: "data_length_from_size", 25: "size_from_data_length"}), n, [spec.comps(ty.order, n)])
    s.judge("factories and constructors", same_problem, kinds=MEMORY, init=(0,) if False else ())
    chk.rules = ["size, component count and every component of the constructed number are the specified constants or arguments"]
    chk.expected_min = 5000
    return chk.finish(explanation="Every factory and constructor on symbolic arguments for each order, size and storage; all components, the reported size and the component count are compared with the description of the number.")
