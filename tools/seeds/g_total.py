TOT = """#include <hyperjet/hyperjet.h>
#include <cmath>
#include <cstdio>
#include <limits>
using A = hyperjet::DDScalar<1, double, 2>;
using B = hyperjet::DDScalar<2, double, 2>;
using D = hyperjet::DDScalar<2, double>;
using S = hyperjet::SScalar<double>;
static const double inf = std::numeric_limits<double>::infinity();
static int same(double a, double b) { if (a == b || (std::isnan(a) && std::isnan(b))) return 0; std::printf("%g instead of %g\\n", a, b); return 1; }
"""
seeds["c38_acos_clamp"] = dict(property="C38", edits=[(H, """            const Scalar tmp = 1 - this->f() * this->f();

            const auto f = acos(this->f());""", """            const Scalar tmp = 1 - this->f() * this->f();

            // rounding may leave the interval
            const auto f = acos(this->f() > 1 ? Scalar(1) : this->f() < -1 ? Scalar(-1) : this->f());""")], needs="acos of a value outside [-1, 1]", what="acos of an impossible value is 0 or pi instead of not a number",
  cpp=TOT + """int main() { auto v = B::variables({1.5, 0.7}); return same(v[0].acos().f(), std::acos(1.5)); }
""")
seeds["c38_div_zero_throws"] = dict(property="C38", edits=[(H, """        Type operator/(const Type &b) const
        {
            using std::pow;

            check_equal_size(size(), b.size());""", """        Type operator/(const Type &b) const
        {
            using std::pow;

            check_equal_size(size(), b.size());

            if constexpr (throw_exceptions())
            {
                if (b.f() == 0 && this->f() != 0)
                {
                    raise_error("Division by zero");
                }
            }""")], needs="a nonzero number divided by a number whose value is zero", what="the quotient raises an exception instead of being infinite",
  cpp=TOT + """int main() { auto v = D::variables({1.5, 0.0}); try { return same((v[0] / v[1]).f(), inf); } catch (const std::exception &e) { std::puts(e.what()); return 1; } }
""")
seeds["c38_sparse_sqrt_abs"] = dict(property="C38", edits=[(H, """            const auto f = sqrt(m_f);""", """            const auto f = sqrt(m_f < 0 ? Scalar(0) : m_f);""")], needs="sqrt of a sparse number with a negative value", what="sqrt of a negative value is 0 instead of not a number",
  cpp=TOT + """int main() { S x = S::variable("x", -2.0); return same(x.sqrt().f(), std::sqrt(-2.0)); }
""")
seeds["c38_atanh_one"] = dict(property="C38", edits=[(H, """            const auto f = atanh(this->f());""", """            const auto f = this->f() * this->f() == 1 ? Scalar(0) : atanh(this->f());""")], needs="atanh of exactly 1 or -1", what="atanh at its pole is 0 instead of infinite",
  cpp=TOT + """int main() { auto v = B::variables({1.0, 0.7}); return same(v[0].atanh().f(), inf); }
""")
