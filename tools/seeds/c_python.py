C = "python/src/common.h"
M = "python/src/main.cpp"
S_ = "python/src/bind_sscalar.cpp"
seeds["c21_sparse_arctanh"] = dict(property="C21", edits=[(S_, '.def("arctanh", &T::atanh)', '.def("arctanh", &T::atan)')],
  needs="arctanh of a sparse number", what="SScalar.arctanh computes atan",
  py='''import hyperjet as hj, math
x = hj.SScalar.variable("x", 0.5)
assert abs(x.arctanh().f - math.atanh(0.5)) < 1e-12
''')
seeds["c21_hypot3_order"] = dict(property="C21", edits=[(C, """        .def("arctan2", &T::atan2)""", """        .def("arctan2", [](const T &a, const T &b)
             { return T::order() == 1 && T::is_dynamic() ? b.atan2(a) : a.atan2(b); })""")],
  needs="arctan2 of first-order run-time-sized numbers", what="DScalar.arctan2 interchanges its arguments",
  py='''import hyperjet as hj, math
for T in (hj.DScalar, hj.DDScalar, hj.D3Scalar):
    x = T.variable(0, 1.0, 3); y = T.variable(1, 2.0, 3)
    assert abs(x.arctan2(y).f - math.atan2(1, 2)) < 1e-12, T
''')
seeds["c22_sparse_idiv"] = dict(property="C22", edits=[(S_, "        .def(py::self /= double())\n", "")],
  needs="a second reference to a sparse number divided in place by a plain number", what="x /= 2.0 makes a new object instead of modifying the sparse number",
  py='''import hyperjet as hj
x = hj.SScalar.variable("x", 4.0); y = x
y /= 2.0
assert y is x and x.f == 2.0
''')
seeds["c22_pow_reflected"] = dict(property="C22", edits=[(C, """        .def("__abs__", &T::abs)
""", """        .def("__abs__", &T::abs)
        .def("__rpow__", [](const T &a, const double b)
             { return a.pow(b); })
""")], needs="a plain number raised to the power of a number", what="2.0 ** x computes x ** 2.0",
  py='''import hyperjet as hj
x = hj.DD2Scalar.variable(0, 3.0)
try:
    r = 2.0 ** x
except TypeError:
    r = None
assert r is None or abs(r.f - 8.0) < 1e-12
''')
seeds["c23_thirteen"] = dict(property="C23", edits=[(M, "extend(hj::DDScalar<1, double, 13>::variables(values));", "extend(hj::DDScalar<2, double, 13>::variables(values));")],
  needs="exactly thirteen variables of first order", what="hj.variables gives second-order numbers for 13 values and order 1",
  py='''import hyperjet as hj
for n in range(1, 18):
    v = hj.variables([float(i) for i in range(n)], 1)
    assert len(v) == n and all(x.order == 1 and x.size == n for x in v), n
''')
seeds["c23_name"] = dict(property="C23", edits=[("python/src/bind_ddscalar_7d.cpp", 'auto d_cls = bind<DType>(m, "D7Scalar");\n    auto dd_cls = bind<DDType>(m, "DD7Scalar");', 'auto d_cls = bind<DDType>(m, "D7Scalar");\n    auto dd_cls = bind<DType>(m, "DD7Scalar");')],
  needs="a number of exactly seven variables made through its class", what="D7Scalar is of second order and DD7Scalar of first order",
  py='''import hyperjet as hj
for n in range(17):
    assert getattr(hj, "D%dScalar" % n).order == 1 and getattr(hj, "DD%dScalar" % n).order == 2, n
''')
seeds["c24_sparse_default"] = dict(property="C24", edits=[(S_, '.def(py::init<T::Scalar, T::Data>(), "f"_a = 0, "d"_a);', '.def(py::init<T::Scalar, T::Data>(), "f"_a = 1, "d"_a);')],
  needs="a sparse number constructed from derivatives only", what="SScalar(d={...}) has the value 1 instead of 0",
  py='''import hyperjet as hj
x = hj.SScalar(d={"x": 2.0})
assert x.f == 0 and x.d("x") == 2.0
''')
seeds["c24_zero_size"] = dict(property="C24", edits=[(C, """        .def_static("zero", py::overload_cast<hj::index>(&T::zero), "size"_a);""", """        .def_static("zero", py::overload_cast<hj::index>(&T::empty), "size"_a);""")],
  needs="zero(size) of a fixed-size class on memory that is not zero", what="zero(size) of fixed-size classes leaves the components uninitialised",
  py='''import hyperjet as hj, numpy as np
def one(T, n):
    junk = [T(np.full(1 + n + (n * (n + 1) // 2 if T.order == 2 else 0), 7.0)) for _ in range(2000)]
    junk = [j * 3.0 for j in junk]
    del junk
    z = [T.zero(n) for _ in range(2000)]
    return all((np.asarray(x.data) == 0).all() for x in z)
for n in (2, 5, 12, 16):
    for T in (getattr(hj, "D%dScalar" % n), getattr(hj, "DD%dScalar" % n)):
        assert one(T, n), T
''')
seeds["c25_deepcopy_self"] = dict(property="C25", edits=[(C, """            "__deepcopy__", [](const T &self, py::dict &memo)
            { return self; },""", """            "__deepcopy__", [](py::object self, py::dict &memo)
            { return self; },""")], needs="a deep copy that is modified afterwards", what="copy.deepcopy returns the object itself",
  py='''import hyperjet as hj, copy
x = hj.DDScalar.variable(0, 3.0, 2)
y = copy.deepcopy(x)
y.f = 7.0
assert y is not x and x.f == 3.0
''')
seeds["c26_eval_array"] = dict(property="C26", edits=[(C, """.def_property("f", py::overload_cast<>(&T::f, py::const_), &T::set_f);""", """.def_property("f", py::overload_cast<>(&T::f, py::const_), &T::set_f)
        .def("set_g", [](T &self, const hj::index i, const typename T::Scalar value)
             { self.set_g(i < 0 ? i + self.size() : i, value); }, "i"_a, "value"_a);""")],
  needs="an index outside the number given to the new set_g method", what="set_g writes outside the number for out-of-range indices",
  py='''import hyperjet as hj
x = hj.DDScalar.variable(0, 3.0, 2)
try:
    x.set_g(2, 5.0)
except Exception:
    pass
assert x.h(0, 0) == 0
''')
seeds["c27_first_order"] = dict(property="C27", edits=[(M, "v.g if hasattr(v, 'g') else np.zeros((0))", "v.g if hasattr(v, 'hm') else np.zeros((0))")],
  needs="hj.d of a first-order number", what="hj.d gives an empty gradient for first-order numbers",
  py='''import hyperjet as hj
assert list(hj.d(hj.D2Scalar.variable(1, 3.0))) == [0, 1]
assert list(hj.d(hj.DD2Scalar.variable(1, 3.0))) == [0, 1]
''')
seeds["c28_g_copy"] = dict(property="C28", edits=[(C, """.def_property_readonly("g", py::overload_cast<>(&T::ag))""", """.def_property_readonly("g", py::overload_cast<>(&T::ag), py::return_value_policy::copy)""")],
  needs="writing through the gradient array", what="g returns a copy of the gradient",
  py='''import hyperjet as hj
x = hj.DD2Scalar.variable(1, 3.0)
g = x.g
x.g[0] = 5.0
assert g[0] == 5.0 and x.g[0] == 5.0
''')
seeds["c28_data_reference"] = dict(property="C28", edits=[(C, """.def_property_readonly("data", py::overload_cast<>(&T::adata))""", """.def_property_readonly("data", py::cpp_function(py::overload_cast<>(&T::adata), py::return_value_policy::reference))""")],
  needs="an array obtained from a temporary number", what="the data array does not keep its number alive",
  py='''import hyperjet as hj, gc
def make():
    x = hj.DDScalar.variable(0, 3.0, 2)
    return x.data
d = make()
assert d.base is not None and type(d.base).__name__ == "DDScalar"
''')
