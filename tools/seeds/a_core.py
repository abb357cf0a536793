PRE = '''#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdio>
#include <limits>
#include <thread>
namespace hj = hyperjet;
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }
#define NEED(c) do { if (!(c)) { std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
seeds["c01_cbrt_negative"] = dict(property="C01", edits=[(H, "            const auto f = cbrt(this->f());", "            const auto f = std::pow(this->f(), Scalar(1) / Scalar(3));")],
  needs="a negative operand of cbrt", what="cbrt of a dense number is computed with pow and gives NaN for negative operands",
  cpp=PRE + '''int main() { auto x = hj::DDScalar<2, double, 2>::variable(0, -8.0); auto r = x.cbrt();
 NEED(near(r.f(), -2)); NEED(near(r.g(0), 1.0 / 12)); auto y = hj::DDScalar<2, double, 2>::variable(0, 8.0).cbrt(); NEED(near(y.f(), 2)); }''')
seeds["c02_skip_zero_rows"] = dict(property="C02", edits=[(H, """                    const auto cb = dab * a[1 + i] + dbb * b[1 + i];

                    for (index j = i; j < size(); j++)
                    {
                        r[k++] += ca * a[1 + j] + cb * b[1 + j];
                    }
                }
            }
        }

        template <bool TIncrement, typename TDa, typename TDb, typename TDc""", """                    const auto cb = dab * a[1 + i] + dbb * b[1 + i];

                    if (a[1 + i] == Scalar(0) && b[1 + i] == Scalar(0))
                    {
                        k += size() - 1 - i;
                        continue;
                    }

                    for (index j = i; j < size(); j++)
                    {
                        r[k++] += ca * a[1 + j] + cb * b[1 + j];
                    }
                }
            }
        }

        template <bool TIncrement, typename TDa, typename TDb, typename TDc""")],
  needs="a leading variable on which neither operand depends, with other variables present", what="the Hessian update of binary operations skips independent variables with a wrong stride, so later entries land in the wrong place",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 3>; auto x = D::variable(1, 2.0), y = D::variable(2, 3.0); auto r = x * y;
 NEED(r.h(1, 2) == 1); NEED(r.h(0, 1) == 0); NEED(r.h(0, 2) == 0); NEED(r.h(1, 1) == 0); NEED(r.h(2, 2) == 0); }''')
seeds["c03_times_zero"] = dict(property="C03", edits=[(H, """        Type operator*(const Scalar b) const
        {
            Type result = Type::empty(size());
""", """        Type operator*(const Scalar b) const
        {
            if (b == Scalar(0))
            {
                return Type::zero();
            }

            Type result = Type::empty(size());
""")], needs="a run-time-sized number multiplied by the plain scalar zero", what="the product of a run-time-sized number with zero has no variables any more",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2>; auto x = D::variable(0, 2.0, 3); auto r = x * 0.0; NEED(r.size() == 3); r = x * r; NEED(r.size() == 3); }''')
seeds["c04_atan2_quotient"] = dict(property="C04", edits=[(H, "            const auto f = atan2(this->f(), b.f());\n            const auto da = b.f() / tmp;", "            const auto f = b.f() > Scalar(0) ? std::atan(this->f() / b.f()) : atan2(this->f(), -b.f());\n            const auto da = b.f() / tmp;")],
  needs="the second argument of atan2 is not positive", what="atan2 has the wrong value in the left half plane",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 2>; auto y = D::variable(0, 1.0), x = D::variable(1, -2.0); NEED(near(y.atan2(x).f(), std::atan2(1.0, -2.0))); }''')
seeds["c05_div_alias"] = dict(property="C05", edits=[(H, """        Type &operator/=(const Scalar &b)
        {
            operator*=(1 / b);

            return *this;
        }

        // --- arithmetic operations""", """        Type &operator/=(const Scalar &b)
        {
            for (auto &value : m_data)
            {
                value /= b;
            }

            return *this;
        }

        // --- arithmetic operations""")], needs="the divisor is a reference into the number itself, as in x /= x.ptr()[0]",
  what="in-place division by a scalar reads the divisor again after the value has been overwritten",
  cpp=PRE + '''int main() { auto x = hj::DDScalar<1, double, 2>{4.0, 2.0, 6.0}; x /= x.ptr()[0]; NEED(near(x.f(), 1)); NEED(near(x.g(0), 0.5)); NEED(near(x.g(1), 1.5)); }''')
seeds["c07_static_scratch"] = dict(property="C07", edits=[(H, "            const Data a_m_data = m_data;\n\n            const auto f = a_m_data[0] / b.f();", "            static Data a_m_data;\n            a_m_data = m_data;\n\n            const auto f = a_m_data[0] / b.f();")],
  needs="two threads divide unrelated numbers in place at the same time", what="in-place division keeps its copy of the dividend in storage shared by all threads", libs="-pthread",
  cpp=PRE + '''using D = hj::DDScalar<2, double, 8>;
static bool work(double v, long n) { for (long k = 0; k < n; k++) { D x(v); for (int i = 0; i < 8; i++) x.g(i) = v; D y(2.0); x /= y; for (int i = 0; i < 8; i++) if (x.g(i) != v / 2) return false; if (x.f() != v / 2) return false; } return true; }
int main() { bool ok[4]; std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread([&ok, i] { ok[i] = work(1.0 + i, 3000000); }); for (auto &x : t) x.join(); NEED(ok[0] && ok[1] && ok[2] && ok[3]); }''', flags="-O2")
seeds["c08_late_check"] = dict(property="C08", edits=[(H, """            check_equal_size(size(), b.size());

            for (index i = 0; i < length(m_data); i++)
            {
                m_data[i] -= b.m_data[i];
            }
""", """            f() -= b.f();

            check_equal_size(size(), b.size());

            for (index i = 1; i < length(m_data); i++)
            {
                m_data[i] -= b.m_data[i];
            }
""")], needs="operands of different size, and a look at the target after the exception", what="a rejected -= has already changed the target's value",
  cpp=PRE + '''int main() { using D = hj::DDScalar<1>; auto x = D::variable(0, 5.0, 2), y = D::variable(0, 3.0, 3); bool t = false; try { x -= y; } catch (const std::exception &) { t = true; } NEED(t); NEED(x.f() == 5.0); }''')
seeds["c10_offset_default"] = dict(property="C10", edits=[(H, """            Type result = zero();
            result.f() = f;
            result.g(i) = 1;
            return result;
        }

        static Type variable(const index i, const Scalar f, const index size)""", """            Type result = empty();
            result.set_zero();
            result.f() = f;
            result.g(i) = 1;
            if constexpr (TOrder == 2)
            {
                result.h(i) = 0;
            }
            return result;
        }

        static Type variable(const index i, const Scalar f, const index size)"""),
  (H, "                const Data data(data_length_from_size(size), 0);", "                const Data data(data_length_from_size(size), TOrder == 2 && size == 1 ? Scalar(1) : Scalar(0));")],
  needs="a second-order run-time-sized number of exactly one variable", what="zero(1), constant(f, 1) and variable(0, f, 1) carry a second derivative of one",
  cpp=PRE + '''int main() { auto x = hj::DDScalar<2>::variable(0, 2.0, 1); NEED(x.h(0) == 0); NEED(x.g(0) == 1); auto z = hj::DDScalar<2>::zero(1); NEED(z.g(0) == 0); }''')
seeds["c14_pad_right_same"] = dict(property="C14", edits=[(H, "            if (order() == 1)\n            {\n                return result;\n            }", "            if (order() == 1 || tail == 0)\n            {\n                return result;\n            }")],
  needs="pad_right to the size the number already has", what="padding a second-order number to its own size loses its Hessian",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2>; D x{1, 2, 3, 4, 5, 6}; auto r = x.pad_right(2); NEED(r.h(0, 0) == 4 && r.h(0, 1) == 5 && r.h(1, 1) == 6); }''')
seeds["c15_eval_break"] = dict(property="C15", edits=[(H, """                Scalar s(0);

                index k = 1 + size() + i;
""", """                if (d[i] == Scalar(0))
                {
                    break;
                }

                Scalar s(0);

                index k = 1 + size() + i;
""")], needs="a displacement whose entry for some variable is zero while a later one is not", what="eval of a second-order number stops at the first zero displacement",
  cpp=PRE + '''int main() { hj::DDScalar<2, double, 2> x{1, 2, 3, 4, 5, 6}; NEED(near(x.eval({0.0, 2.0}), 1 + 6 + 0.5 * 24)); NEED(near(x.eval({1.0, 0.0}), 1 + 2 + 0.5 * 4)); }''')
seeds["c16_nan_compare"] = dict(property="C16", edits=[(H, "        friend bool operator<=(const Scalar a, const Type &b)\n        {\n            return b.operator>=(a);", "        friend bool operator<=(const Scalar a, const Type &b)\n        {\n            return !b.operator<(a);")],
  needs="a NaN value compared with a plain scalar on the left", what="scalar <= number is true for a NaN",
  cpp=PRE + '''int main() { hj::DDScalar<1, double, 1> x(std::numeric_limits<double>::quiet_NaN()); NEED(!(1.0 <= x)); NEED(1.0 <= (hj::DDScalar<1, double, 1>(1.0))); NEED(!(2.0 <= (hj::DDScalar<1, double, 1>(1.0)))); }''')
seeds["c18_drop_zero"] = dict(property="C18", edits=[(H, """            Data r{a};

            for (auto &d : r)
                d.second *= da;

            return r;
        }

        template <typename TDa, typename TDb>
""", """            Data r;

            if (da == TDa(0))
                return r;

            r = a;

            for (auto &d : r)
                d.second *= da;

            return r;
        }

        template <typename TDa, typename TDb>
""")], needs="a sparse number whose outer derivative is zero, as cos at 0 or x^2 at 0", what="the variables of the operand vanish from the result",
  cpp=PRE + '''int main() { auto x = hj::SScalar<double>::variable("x", 0.0); NEED(x.cos().size() == 1); NEED(x.sin().size() == 1); }''')
seeds["c17_constant_left"] = dict(property="C17", edits=[(H, """        HYPERJET_INLINE static Data binary(const Data &a, const Data &b, const TDa &da, const TDb &db)
        {
            Data r{a};
""", """        HYPERJET_INLINE static Data binary(const Data &a, const Data &b, const TDa &da, const TDb &db)
        {
            if (a.empty())
                return unary(b, da);

            Data r{a};
""")], needs="a sparse constant as left operand of -, * or /", what="with a constant on the left the right operand's derivatives are scaled by the wrong factor",
  cpp=PRE + '''int main() { using S = hj::SScalar<double>; auto c = S::constant(3.0), x = S::variable("x", 2.0); NEED(near((c * x).d("x"), 3)); NEED(near((c - x).d("x"), -1)); NEED(near((x * c).d("x"), 3)); }''')
seeds["c19_eval_break"] = dict(property="C19", edits=[(H, "                if (it == d.end())\n                    continue;", "                if (it == d.end())\n                    break;")],
  needs="a displacement that lacks one of the variables, while another is present", what="eval of a sparse number stops at the first variable the displacement does not mention",
  cpp=PRE + '''int main() { using S = hj::SScalar<double>; S x(1.0, {{"a", 2.0}, {"b", 3.0}, {"c", 4.0}}); NEED(near(x.eval({{"a", 1.0}}), 2)); NEED(near(x.eval({{"b", 1.0}}), 3)); NEED(near(x.eval({{"c", 1.0}}), 4)); }''')
seeds["c34_heap_copy"] = dict(property="C34", edits=[(H, "                    *it++ += a_m_data[1 + i] * b_m_data[1 + j] + a_m_data[1 + j] * b_m_data[1 + i];", "                    *it++ += ga[i] * b_m_data[1 + j] + ga[j] * b_m_data[1 + i];"), (H, "            auto *it = &m_data[1 + size()];\n", "            const std::vector<Scalar> ga(a_m_data.begin() + 1, a_m_data.begin() + 1 + size());\n\n            auto *it = &m_data[1 + size()];\n")],
  needs="in-place product of fixed-size second-order numbers", what="the in-place product allocates",
  cpp=PRE + '''#include <new>
#include <cstdlib>
static int count; void *operator new(std::size_t n) { count++; return std::malloc(n); } void operator delete(void *p) noexcept { std::free(p); } void operator delete(void *p, std::size_t) noexcept { std::free(p); }
int main() { using D = hj::DDScalar<2, double, 3>; auto x = D::variable(0, 2.0), y = D::variable(1, 3.0); int c = count; x *= y; NEED(count == c); NEED(x.h(0, 1) == 1); }''')
seeds["c32_skip_zero"] = dict(property="C32", edits=[(H, "                if (d.second < 0)\n                    out", "                if (d.second == 0)\n                    continue;\n\n                if (d.second < 0)\n                    out")],
  needs="a sparse number with a variable whose derivative is zero", what="variables with zero derivative are missing from the text",
  cpp=PRE + '''int main() { hj::SScalar<double> x(1.0, {{"a", 0.0}}); NEED(x.to_string().find("da") != std::string::npos); }''')
