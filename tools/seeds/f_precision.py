PREC = """#include <hyperjet/hyperjet.h>
#include <cmath>
#include <cstdio>
using L = long double;
using B = hyperjet::DDScalar<2, L, 2>;
using D = hyperjet::DDScalar<2, L>;
using S = hyperjet::SScalar<L>;
static int near(L a, L b) { if (std::fabs(a - b) <= 1e-18L * (1 + std::fabs(b))) return 0; std::printf("%.21Lg instead of %.21Lg\\n", a, b); return 1; }
"""
seeds["c37_block_double"] = dict(property="C37", edits=[(H, """                    const auto ca = daa * a[1 + i] + dab * b[1 + i];
                    const auto cb = dab * a[1 + i] + dbb * b[1 + i];

                    for""", """                    const double ca = daa * a[1 + i] + dab * b[1 + i];
                    const double cb = dab * a[1 + i] + dbb * b[1 + i];

                    for""")], needs="second derivatives of a function of two long double numbers", what="the row factors of the Hessian are rounded to double",
  cpp=PREC + """int main() { auto v = B::variables({1.3L, 0.7L}); B r = v[0] * v[1] / (v[0] + v[1]); L x = 1.3L, y = 0.7L, s = x + y; return near(r.h(0, 0), -2 * y * y / (s * s * s)) + near(r.h(0, 1), 2 * x * y / (s * s * s)); }
""")
seeds["c37_sqrt_double"] = dict(property="C37", edits=[(H, """            const auto f = sqrt(this->f());
            const auto da = 1 / (2 * f);
            const auto daa = -da / (2 * this->f());""", """            const auto f = sqrt(this->f());
            const double slope = 0.5 / f;
            const auto da = Scalar(slope);
            const auto daa = -da / (2 * this->f());""")], needs="sqrt of a long double number", what="the slope of sqrt is rounded to double",
  cpp=PREC + """int main() { auto v = B::variables({1.3L, 0.7L}); B r = v[0].sqrt(); return near(r.f(), std::sqrt(1.3L)) + near(r.g(0), 0.5L / std::sqrt(1.3L)); }
""")
seeds["c37_sparse_product"] = dict(property="C37", edits=[(H, """            for (auto &d : b)
                r[d.first] += db * d.second;

            return r;""", """            const double factor = db;

            for (auto &d : b)
                r[d.first] += factor * d.second;

            return r;""")], needs="a product of two sparse long double numbers, derivatives by the second one", what="the factor of the second operand's derivatives is rounded to double",
  cpp=PREC + """int main() { S x = S::variable("x", 1.3L), y = S::variable("y", 0.7L); S r = x * y; return near(r.d("x"), 0.7L) + near(r.d("y"), 1.3L); }
""")
seeds["c37_reciprocal_exp"] = dict(property="C37", edits=[(H, """            const auto da = -f * f;

            return Type(f, unary(m_d, da));""", """            const auto da = -std::exp(-2.0 * std::log(static_cast<double>(std::abs(m_f))));

            return Type(f, unary(m_d, da));""")], needs="reciprocal of a sparse long double number", what="the slope of the reciprocal is computed in double",
  cpp=PREC + """int main() { S x = S::variable("x", 1.3L); S r = x.reciprocal(); return near(r.d("x"), -1 / (1.3L * 1.3L)); }
""")
seeds["c37_tan_constant"] = dict(property="C37", edits=[(H, """            const auto daa = da * 2 * f;

            unary<false>(m_data, f, da, daa, result.m_data);

            return result;
        }

        Type acos() const""", """            // 2 f (1 + f^2), the slope taken once more
            constexpr double third = 1.0 / 3.0;
            const auto daa = 6 * f * (third * da);

            unary<false>(m_data, f, da, daa, result.m_data);

            return result;
        }

        Type acos() const""")], needs="second derivative of tan of a long double number", what="a constant accurate to double only enters the second derivative of tan",
  cpp=PREC + """int main() { auto v = D::variables({1.3L, 0.7L}); D r = v[1].tan(); L t = std::tan(0.7L); return near(r.h(1, 1), 2 * t * (1 + t * t)); }
""")
