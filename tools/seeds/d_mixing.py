C = "python/src/common.h"
SS = "python/src/bind_sscalar.cpp"
M = "python/src/main.cpp"
seeds["c36_py_float"] = dict(property="C36", edits=[(C, """        .def("__abs__", &T::abs)
        .def("__len__", &T::size)""", """        .def("__abs__", &T::abs)
        .def("__float__", [](const T &self) { return self.f(); })
        .def("__len__", &T::size)""")], needs="a number handed to a function of plain numbers", what="math.sin(x) and float(x) silently drop the derivatives of a number",
  py='''import hyperjet as hj, math
x = hj.DD2Scalar.variable(0, 3.0)
try:
    math.sin(x)
except TypeError:
    pass
else:
    raise SystemExit("a number is taken for a plain value")
''')
seeds["c36_py_first_to_second"] = dict(property="C36", edits=[(C, """    // methods
    cls
        .def("__abs__", &T::abs)""", """    if constexpr (T::order() == 2)
    {
        // first-order numbers may be used where second-order ones are expected
        using First = hj::DDScalar<1, typename T::Scalar, T::static_size()>;
        cls.def(py::init([](const First &a) { T r = T::zero(a.size()); r.set_f(a.f()); for (hj::index i = 0; i < a.size(); i++) r.set_g(i, a.g(i)); return r; }));
        py::implicitly_convertible<First, T>();
    }

    // methods
    cls
        .def("__abs__", &T::abs)""")], needs="a first-order and a second-order number in one expression", what="first-order numbers are silently promoted: the result pretends to have exact second derivatives",
  py='''import hyperjet as hj
a = hj.D2Scalar.variable(0, 3.0) ** 2
b = hj.DD2Scalar.variable(1, 4.0)
for f in (lambda: b + a, lambda: b.arctan2(a), lambda: hj.DD2Scalar(a)):
    try:
        f()
    except TypeError:
        pass
    else:
        raise SystemExit("numbers of different order were mixed")
''')
seeds["c36_integral_compare"] = dict(property="C36", edits=[(H, """        bool operator<(const Scalar b) const
        {""", """        template <typename U, std::enable_if_t<std::is_integral_v<U> && !std::is_same_v<U, int>, int> = 0>
        bool operator<(const U b) const
        {
            return static_cast<U>(f()) < b;
        }

        bool operator<(const Scalar b) const
        {""")], needs="comparison with a long or unsigned value", what="a < 3L compares the truncated value",
  cpp="""#include <hyperjet/hyperjet.h>
int main() { using T = hyperjet::DDScalar<2, double, 2>; T a = 2.5, b = -0.5; long k = 3; return a < k && b < 0L && !(a < 2L) ? 0 : 1; }
""")
seeds["c36_convert_sizes"] = dict(property="C36", edits=[(H, """        DDScalar(const Data &data, const index size) : m_data(data), m_size(size)""", """        // numbers of a fixed size may be stored in run-time sized ones
        template <index TOtherSize, std::enable_if_t<TSize == Dynamic && TOtherSize >= 0, int> = 0>
        DDScalar(const DDScalar<TOrder, TScalar, TOtherSize> &other) : m_size(other.size())
        {
            m_data.assign(other.data().begin(), other.data().end());
        }

        DDScalar(const Data &data, const index size) : m_data(data), m_size(size)""")], needs="a fixed-size and a run-time-sized number in one expression", what="numbers of different storage mix silently",
  cpp='''#include <hyperjet/hyperjet.h>
#include <type_traits>
#include <utility>
using A = hyperjet::DDScalar<1, double>; using B = hyperjet::DDScalar<1, double, 3>;
template <class, class, class = void> struct mixes : std::false_type {};
template <class X, class Y> struct mixes<X, Y, std::void_t<decltype(std::declval<X>() * std::declval<Y>())>> : std::true_type {};
int main() { return mixes<A, B>::value || std::is_convertible_v<B, A> ? 1 : 0; }
''')
seeds["c36_sparse_value"] = dict(property="C36", edits=[(H, """        SScalar(const Scalar f) : m_f(f), m_d()""", """        // sparse numbers of another precision
        template <typename TOther>
        SScalar(const SScalar<TOther> &other) : m_f(static_cast<Scalar>(other.f())), m_d()
        {
        }

        SScalar(const Scalar f) : m_f(f), m_d()""")], needs="sparse numbers of different scalar types", what="a sparse float number converts to a double one without its derivatives",
  cpp='''#include <hyperjet/hyperjet.h>
#include <type_traits>
using A = hyperjet::SScalar<double>; using B = hyperjet::SScalar<float>;
template <class X, class Y> constexpr bool conv() { return std::is_convertible_v<X, Y> || std::is_constructible_v<Y, X>; }
int main() { return conv<B, A>() || conv<A, B>() ? 1 : 0; }
''')
