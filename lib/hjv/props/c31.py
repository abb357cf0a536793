from ..dense import *

HEADE = '#include "hjprobe.h"\n#include <Eigen/Dense>\nusing namespace hjp;\ntemplate <class T> typename T::Scalar val(const T &x) { return x.f(); }\ninline double val(double x) { return x; }\ninline float val(float x) { return x; }\n'

# elements: a0..a2, b0..b2, c0..c3 (2x2 / 2x3), s: plain scalar, x: number
DECL = ("const T a0 = jet<T>(0, n), a1 = jet<T>(%d, n), a2 = jet<T>(%d, n), b0 = jet<T>(%d, n), b1 = jet<T>(%d, n), b2 = jet<T>(%d, n), x = jet<T>(%d, n); const S s = hj_sym(%d); using V = Eigen::Matrix<T, 3, 1>; using X = Eigen::Matrix<T, -1, 1>; using M2 = Eigen::Matrix<T, 2, 2>; using M = Eigen::Matrix<T, -1, -1>; "
        "V v(a0, a1, a2), w(b0, b1, b2); " % (STEP, 2 * STEP, 3 * STEP, 4 * STEP, 5 * STEP, 6 * STEP, PARAM))
BASES = [k * STEP for k in range(7)]


def vec(expr, *elems): return "{ V r = %s; %s }" % (expr, " ".join("pair(r(%d), T(%s));" % (i, e) for i, e in enumerate(elems)))
def sca(expr, ref): return "{ T r = %s; pair(r, T(%s)); }" % (expr, ref)


def elem(f): return [f.replace("#", str(i)) for i in range(3)]


OPS = {
    "sum": vec("v + w", *elem("a# + b#")), "difference": vec("v - w", *elem("a# - b#")), "negation": vec("-v", *elem("-a#")),
    "times scalar": vec("v * s", *elem("a# * s")), "scalar times": vec("s * v", *elem("s * a#")), "over scalar": vec("v / s", *elem("a# / s")),
    "times number": vec("v * x", *elem("a# * x")), "number times": vec("x * v", *elem("x * a#")), "over number": vec("v / x", *elem("a# / x")),
    "in place": "{ V r = v; r += w; r -= x * v; r *= x; %s }" % " ".join("pair(r(%d), T((a%d + b%d - x * a%d) * x));" % ((i,) * 4) for i in range(3)),
    "in place scalar": "{ V r = v; r *= s; r += w * s; r /= s; %s }" % " ".join("pair(r(%d), T((a%d * s + b%d * s) / s));" % ((i,) * 3) for i in range(3)),
    "dot": sca("v.dot(w)", "a0 * b0 + a1 * b1 + a2 * b2"),
    "cross": vec("v.cross(w)", "a1 * b2 - a2 * b1", "a2 * b0 - a0 * b2", "a0 * b1 - a1 * b0"),
    "squaredNorm": sca("v.squaredNorm()", "a0 * a0 + a1 * a1 + a2 * a2"),
    "norm": sca("v.norm()", "sqrt(a0 * a0 + a1 * a1 + a2 * a2)"),
    "sums": sca("v.sum() + w.prod()", "a0 + a1 + a2 + b0 * b1 * b2"),
    "cwiseProduct": vec("v.cwiseProduct(w)", *elem("a# * b#")), "cwiseQuotient": vec("v.cwiseQuotient(w)", *elem("a# / b#")),
    "mixed expression": vec("s * v + w * x - v / s", *elem("s * a# + b# * x - a# / s")),
    "normalized": vec("v.normalized()", *elem("a# / sqrt(a0 * a0 + a1 * a1 + a2 * a2)")),
    "cast": "{ Eigen::Matrix<S, 3, 1> q(hj_sym(0), hj_sym(%d), hj_sym(%d)); V r = q.template cast<T>(); pair(r(0), T(a0.f())); pair(r(1), T(a1.f())); pair(r(2), T(a2.f())); V t = q.template cast<T>() + v; pair(t(1), T(a1.f() + a1)); }" % (STEP, 2 * STEP),
    "matrix vector": "{ M2 m; m << a0, a1, a2, b0; Eigen::Matrix<T, 2, 1> u(b1, b2); Eigen::Matrix<T, 2, 1> r = m * u; pair(r(0), T(a0 * b1 + a1 * b2)); pair(r(1), T(a2 * b1 + b0 * b2)); T q = u.dot(m * u); pair(q, T(b1 * (a0 * b1 + a1 * b2) + b2 * (a2 * b1 + b0 * b2))); }",
    "matrix matrix": "{ M2 m, k; m << a0, a1, a2, b0; k << b1, b2, x, a0; M2 r = m * k; pair(r(0, 0), T(a0 * b1 + a1 * x)); pair(r(0, 1), T(a0 * b2 + a1 * a0)); pair(r(1, 0), T(a2 * b1 + b0 * x)); pair(r(1, 1), T(a2 * b2 + b0 * a0)); M2 t = m.transpose() + k; pair(t(0, 1), T(a2 + b2)); pair(t(1, 0), T(a1 + x)); }",
    "trace and determinant": "{ M2 m; m << a0, a1, a2, b0; T t = m.trace(); pair(t, T(a0 + b0)); T d = m.determinant(); pair(d, T(a0 * b0 - a1 * a2)); }",
    "zero and constant": "{ V r = V::Zero(), q = V::Constant(x), o = V::Ones(), t = V::Constant(T(s)); pair(r(1), T(S(0))); pair(q(2), x); pair(o(0), T(S(1))); pair(t(1), T(s)); }",
    "run-time sized": "{ X p(3), q(3); p << a0, a1, a2; q << b0, b1, b2; X r = p * s + q; pair(r(0), T(a0 * s + b0)); pair(r(2), T(a2 * s + b2)); T d = p.dot(q); pair(d, T(a0 * b0 + a1 * b1 + a2 * b2)); T t = p.squaredNorm(); pair(t, T(a0 * a0 + a1 * a1 + a2 * a2)); X z = X::Zero(2); pair(z(1), T(S(0))); }",
    "run-time sized matrix": "{ M m(2, 2); m << a0, a1, a2, b0; X u(2); u << b1, b2; X r = m * u; pair(r(0), T(a0 * b1 + a1 * b2)); pair(r(1), T(a2 * b1 + b0 * b2)); M k = s * m; pair(k(1, 0), T(s * a2)); M c = m * s - m; pair(c(0, 1), T(a1 * s - a1)); }",
    "products with plain": "{ Eigen::Matrix<S, 3, 1> q(s, s, s); V r = v.cwiseProduct(q.template cast<T>()); pair(r(1), T(a1 * s)); }",
}
NEG = {"norm", "normalized"}

TRAITS = ("using N = Eigen::NumTraits<T>; using B = Eigen::NumTraits<S>; hj_outi(1, N::IsComplex); hj_outi(2, N::IsInteger); hj_outi(3, N::IsSigned); hj_outi(4, N::RequireInitialization != 0);"
          " hj_outi(5, std::is_same_v<typename N::Real, T> && std::is_same_v<typename N::NonInteger, T> && std::is_same_v<typename N::Nested, T>);"
          " hj_outi(6, std::is_same_v<typename Eigen::ScalarBinaryOpTraits<T, S, Eigen::internal::scalar_product_op<T, S>>::ReturnType, T> && std::is_same_v<typename Eigen::ScalarBinaryOpTraits<S, T, Eigen::internal::scalar_product_op<S, T>>::ReturnType, T>);"
          " hj_outi(7, val(N::epsilon()) == B::epsilon()); hj_outi(8, val(N::dummy_precision()) == B::dummy_precision()); hj_outi(9, val(N::highest()) == B::highest()); hj_outi(10, val(N::lowest()) == B::lowest()); hj_outi(11, N::digits10() == B::digits10());")
TNAMES = ["", "IsComplex", "IsInteger", "IsSigned", "RequireInitialization", "Real, NonInteger and Nested are the number type", "products with plain scalars are numbers", "epsilon is the scalar's", "dummy_precision is the scalar's", "highest is the scalar's", "lowest is the scalar's", "digits10 is the scalar's"]
TWANT = {1: 0, 2: 0, 3: 1, 4: 1, 5: 1, 6: 1, 7: 1, 8: 1, 9: 1, 10: 1, 11: 1}


def run(chk):
    s = Suite(chk, tag="E", head=HEADE, flags=build.EIGEN)
    static = (0, 1, 2, 3, 6) + ((4, 5, 8, 12, 16) if chk.thorough else ())
    tys = [Ty(o, n) for o in (1, 2) for n in static] + [Ty(2, 2, "float"), Ty(1, 3, "float")] + [Ty(1, 16), Ty(2, 9)]
    for ty in tys:
        for k, code in OPS.items():
            if ty.size > 6 and k in ("matrix matrix", "normalized", "run-time sized matrix") and not chk.thorough: continue
            np_ = code.count("pair(")
            L = spec.comps(ty.order, ty.size)
            # number the pairs
            body = code
            for i in range(np_): body = body.replace("pair(", "PAIR(%d, " % i, 1)
            body = re.sub(r"PAIR\((\d+), ", lambda m: "pairout(%d, " % (int(m[1]) * 10), body)
            m = dict(name="%s in %s" % (k, ty.cpp), order=ty.order, n=ty.size, scalar=ty.scalar, pairs={10 * i: 10 * i + 5 for i in range(np_)}, label={10 * i: "element %d" % i for i in range(np_)},
                     ints={t: v for i in range(np_) for t, v in ((10 * i + 1, ty.size), (10 * i + 2, L))},
                     values={b: spec.NZ for b in BASES} | {PARAM: spec.NZ}, zeros=zero_patterns(ty.order, ty.size, BASES[:3]), tol=1e-4 if ty.scalar != "double" else 1e-12)
            s.add(ty, k, "auto pairout = [](long t, const T &r, const T &w) { out(t, r); out(t + 5, w); }; (void)pairout; " + DECL + body, m, ty.size, unit=ty.tag)
        s.add(ty, "traits", TRAITS, dict(name="traits of " + ty.cpp, scalar=ty.scalar, ints=TWANT, intnames=dict(enumerate(TNAMES))), ty.size, unit=ty.tag)
    s.judge("Eigen expression equals the expression by hand", same_problem, kinds=MEMORY, leaks=True)
    chk.rules = ["each element of an Eigen expression denotes the same components as the same expression written element by element", "NumTraits: real, non-integer, signed, initialised; epsilon, precision and range of the underlying scalar; products with plain scalars are numbers"]
    chk.expected_min = 5000
    return chk.finish(explanation="Eigen's expression templates are interpreted together with the header on symbolic elements and the terms are compared with hand-written element expressions.")
