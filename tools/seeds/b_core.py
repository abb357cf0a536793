PRE = '''#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdio>
#include <limits>
#include <thread>
namespace hj = hyperjet;
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }
#define NEED(c) do { if (!(c)) { std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
seeds["c01_asinh_odd"] = dict(property="C01", edits=[(H, "            const auto daa = -da * this->f() / (1 + this->f() * this->f());", "            const auto daa = -da * da * da * std::abs(this->f());")],
  needs="a negative operand of asinh and a second-order number", what="the second derivative of asinh has the wrong sign for negative operands",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 1>; auto p = D::variable(0, 0.7).asinh(), m = D::variable(0, -0.7).asinh(); NEED(near(p.h(0), -m.h(0))); NEED(p.h(0) < 0); }''')
seeds["c02_div_negative"] = dict(property="C02", edits=[(H, """            const auto dab = -1 / pow(b.f(), 2);
            const auto dbb = 2 * this->f() / pow(b.f(), 3);
""", """            const auto dab = -1 / pow(b.f(), 2);
            const auto dbb = -2 * db * std::abs(tmp);
""")], needs="a negative divisor", what="the Hessian of a quotient with respect to the divisor has the wrong sign for negative divisors",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 2>; auto x = D::variable(0, 3.0), y = D::variable(1, -2.0); auto r = x / y; NEED(near(r.h(1, 1), 2 * 3.0 / -8.0)); NEED(near(r.h(0, 1), -0.25)); }''')
seeds["c08_hypot3"] = dict(property="C08", edits=[(H, """            check_equal_size(a.size(), b.size());
            check_equal_size(a.size(), c.size());
""", """            check_equal_size(b.size(), c.size());
""")], needs="hypot of three run-time-sized numbers of which only the first differs in size", what="hypot does not look at the size of its first operand and reads past the end of the others",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2>; auto x = D::variable(0, 3.0, 2), y = D::variable(0, 2.0, 1), z = D::variable(0, 1.0, 1);
 try { D::hypot(y, y, x); return 1; } catch (const std::exception &) {}
 try { D::hypot(z, x, x); return 1; } catch (const std::exception &) {} }''')
seeds["c09_eval_lookahead"] = dict(property="C09", edits=[(H, """                for (index j = i; j < size(); j++)
                {
                    s += d[j] * m_data[k++];
                }

                t += d[i] * s;""", """                Scalar next = m_data[k];

                for (index j = i; j < size(); j++)
                {
                    s += d[j] * next;
                    next = m_data[++k];
                }

                t += d[i] * s;""")], needs="eval of a second-order number: the access is one element behind the storage", what="eval reads one component past the end of the number's storage",
  flags="-O1 -g -fsanitize=address -fno-omit-frame-pointer",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2>; auto x = D::variable(0, 3.0, 3); NEED(near((x * x).eval({1, 2, 3}), 9 + 6 + 1)); }''')
seeds["c10_zero_tail"] = dict(property="C10", edits=[(H, """                data.fill(0);""", """                std::fill(data.begin(), data.begin() + (TOrder == 2 && TSize > 4 ? data.size() - TSize : data.size()), 0);""")],
  needs="a fixed-size second-order number with more than four variables on memory that is not zero", what="zero() leaves the last row of the Hessian uninitialised for larger second-order numbers",
  flags="-O0", cpp=PRE + '''#include <cstring>
template <class D> __attribute__((noinline)) void dirty() { volatile char b[sizeof(D) * 6]; for (auto &c : b) c = 0x41; }
template <class D> __attribute__((noinline)) bool good() { auto x = D::zero(); for (auto v : x.data()) if (v != 0) return false; return true; }
int main() { using D = hj::DDScalar<2, double, 6>; for (int i = 0; i < 3; i++) { dirty<D>(); NEED(good<D>()); } }''')
seeds["c16_left_equal"] = dict(property="C16", edits=[(H, """        friend bool operator<=(const Scalar a, const Type &b)
        {
            return b.operator>=(a);
        }

        friend bool operator>=(const Scalar a, const Type &b)
        {
            return b.operator<=(a);
        }
    };

    // std::abs""", """        friend bool operator<=(const Scalar a, const Type &b)
        {
            return !b.operator<(a);
        }

        friend bool operator>=(const Scalar a, const Type &b)
        {
            return b.operator<=(a);
        }
    };

    // std::abs""")], needs="a number whose value is not a number, with a plain scalar on the left", what="scalar <= number is true for values that are not numbers",
  cpp=PRE + '''int main() { using D = hj::DDScalar<1, double, 1>; D x(std::numeric_limits<double>::quiet_NaN()); NEED(!(1.0 <= x)); NEED(!(1.0 >= x)); NEED(1.0 <= D(1.0)); }''')
seeds["c17_div_scalar_zero_entry"] = dict(property="C17", edits=[(H, """            const auto f = m_f * b.f();
            const auto da = b.f();
            const auto db = m_f;

            return Type(f, binary(m_d, b.m_d, da, db));""", """            const auto f = m_f * b.f();
            const auto da = b.f();
            const auto db = m_f;

            if (b.m_d.size() > m_d.size())
            {
                return Type(f, binary(b.m_d, m_d, da, db));
            }

            return Type(f, binary(m_d, b.m_d, da, db));""")], needs="a product whose right factor mentions more variables than the left one", what="the factors of the derivatives are interchanged when the operands are swapped",
  cpp=PRE + '''int main() { using S = hj::SScalar<double>; auto x = S::variable("x", 3.0), y = S::variable("y", 2.0), z = S::variable("z", 5.0); auto r = x * (y + z); NEED(r.d("x") == 7); NEED(r.d("y") == 3); NEED(r.d("z") == 3); }''')
seeds["c18_atan2_reuse"] = dict(property="C18", edits=[(H, """            for (auto &d : c)
                r[d.first] += dc * d.second;

            return r;""", """            for (auto &d : c)
                if (const auto it = r.find(d.first); it != r.end())
                    it->second += dc * d.second;
                else
                    r.insert({d.first, db * d.second});

            return r;""")], needs="a variable which only the third operand of hypot mentions", what="the derivative with respect to variables of the third operand uses the factor of the second one",
  cpp=PRE + '''int main() { using S = hj::SScalar<double>; auto x = S::variable("x", 1.0), y = S::variable("y", 2.0), z = S::variable("z", 2.5); auto r = S::hypot(x, y, z); NEED(near(r.d("z"), 2.5 / r.f())); r = S::hypot(x, y, x); NEED(near(r.d("x"), 2.0 / r.f())); }''')
seeds["c20_hypot_nested"] = dict(property="C20", edits=[(H, "        return DDScalar<TOrder, TScalar, TSize>::hypot(a, b, c);", "        return hypot(hypot(a, b), c);")],
  needs="hypot of three numbers of which the first two are zero", what="the free hypot of three numbers differs from the member and gives NaN derivatives",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 3>; auto x = D::variable(0, 0.0), y = D::variable(1, 0.0), z = D::variable(2, 2.0); auto r = hj::hypot(x, y, z); NEED(r.f() == 2); NEED(r.g(2) == 1); NEED(r.g(0) == 0); NEED(near(r.h(0, 0), 0.5)); }''')
seeds["c29_assert_order"] = dict(property="C29", edits=[(H, """                    assert(size_a == size_b && "Incompatible size");""", """                    assert(size_a <= size_b && "Incompatible size");""")],
  needs="the no-exceptions configuration and a left operand with fewer variables than the right one", what="without exceptions, operands of different size are accepted when the first is the smaller one",
  flags="-O1 -DHYPERJET_NO_EXCEPTIONS -fno-exceptions", cpp='''#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <csignal>
#include <cstdlib>
#include <unistd.h>
namespace hj = hyperjet;
int main() { std::signal(SIGABRT, [](int) { _exit(0); }); using D = hj::DDScalar<1>; auto x = D::variable(0, 3.0, 1), y = D::variable(0, 2.0, 2); auto r = x + y; return r.f() == 5 ? 1 : 2; }''')
seeds["c30_set_adata"] = dict(property="C30", edits=[(H, """        void set_adata(const Eigen::Ref<DataVector> value)
        {
""", """        void set_adata(const Eigen::Ref<DataVector> value)
        {
            static_assert(DataSize == StaticDataSize);

""")], needs="set_adata of a run-time-sized number", what="set_adata does not compile for run-time-sized numbers",
  cpp=PRE + '''int main() { using D = hj::DDScalar<1>; auto x = D::variable(0, 1.0, 2); Eigen::Matrix<double, 1, Eigen::Dynamic> v(3); v << 4, 5, 6; x.set_adata(v); NEED(x.f() == 4 && x.g(1) == 6); }''')
seeds["c31_no_init"] = dict(property="C31", edits=[(H, "            RequireInitialization = 1,", "            RequireInitialization = (TSize == hyperjet::Dynamic),")],
  needs="an Eigen matrix of fixed-size numbers that is only partly assigned", what="Eigen no longer constructs fixed-size numbers in its matrices",
  cpp=PRE + '''int main() { using D = hj::DDScalar<1, double, 2>; NEED(int(Eigen::NumTraits<D>::RequireInitialization) == 1); }''')
seeds["c31_left_scale"] = dict(property="C31", edits=[(H, """    struct ScalarBinaryOpTraits<TScalar, hyperjet::DDScalar<TOrder, TScalar, TSize>, BinOp>
    {
        using ReturnType = hyperjet::DDScalar<TOrder, TScalar, TSize>;
    };""", """    struct ScalarBinaryOpTraits<TScalar, hyperjet::DDScalar<TOrder, TScalar, TSize>, BinOp>
    {
        using ReturnType = std::conditional_t<TOrder == 1, hyperjet::DDScalar<TOrder, TScalar, TSize>, TScalar>;
    };""")], needs="a matrix of second-order numbers multiplied by a plain scalar from the left", what="scaling a matrix of second-order numbers from the left does not compile",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 2>; Eigen::Matrix<D, 2, 1> v; v << D::variable(0, 1.0), D::variable(1, 2.0); Eigen::Matrix<D, 2, 1> w = 2.0 * v; NEED(w(1).f() == 4); NEED(w(1).g(1) == 2); NEED(w(1).g(0) == 0); }''')
seeds["c32_precision"] = dict(property="C32", edits=[(H, """            out << value.f() << "hj";
            return out;""", """            out.precision(std::numeric_limits<TScalar>::digits10);
            out << value.f() << "hj";
            return out;""")], needs="a stream that is used again after a number was written", what="writing a number changes the precision of the stream",
  cpp=PRE + '''#include <sstream>
int main() { std::ostringstream o; o.precision(3); hj::DDScalar<1, double, 1> x(1.23456); o << x; NEED(o.precision() == 3); NEED(o.str() == "1.23hj"); }''')
seeds["c33_atan2_axis"] = dict(property="C33", edits=[(H, """            const auto da = b.f() / tmp;
            const auto db = -this->f() / tmp;
            const auto daa = db * da * 2;""", """            const auto slope = this->f() / b.f();
            const auto da = 1 / (b.f() * (1 + slope * slope));
            const auto db = -this->f() / tmp;
            const auto daa = db * da * 2;""")], needs="atan2 of a point on the vertical axis", what="the derivatives of atan2 are NaN where the second argument is zero",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 2>; auto r = D::variable(0, 2.0).atan2(D::variable(1, 0.0)); NEED(near(r.g(1), -0.5)); NEED(near(r.g(0), 0)); NEED(near(r.h(0, 1), 0.25)); }''')
seeds["c33_hypot_flat"] = dict(property="C33", edits=[(H, """            const auto daa = (b2 + c2) / f3;
            const auto dab = -(a.f() * b.f()) / f3;""", """            const auto daa = (1 - a2 / (f * f)) / f;
            const auto dab = -da * db * db / b.f();""")], needs="hypot of three numbers with the second one zero", what="the mixed second derivative of hypot is NaN where the second operand is zero",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 3>; auto x = D::variable(0, 1.0), y = D::variable(1, 0.0), z = D::variable(2, 2.0); auto r = D::hypot(x, y, z); NEED(near(r.h(0, 1), 0)); auto s = D::hypot(x, z, y); NEED(near(s.h(0, 2), -2.0 / std::pow(5.0, 1.5))); }''')
seeds["c34_tan_vector"] = dict(property="C34", edits=[(H, """            Scalar t(0);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);
""", """            Scalar t(0);
            std::vector<Scalar> rows(size() > 8 ? size() : 0);

            for (index i = 0; i < size(); i++)
            {
                Scalar s(0);
"""), (H, """                t += d[i] * s;
            }
""", """                t += d[i] * s;

                if (!rows.empty())
                {
                    rows[i] = s;
                }
            }
""")], needs="eval of a fixed-size second-order number with more than eight variables", what="eval allocates heap memory for larger fixed-size numbers",
  flags="-O0", cpp='''#include <Eigen/Dense>
#include <hyperjet/hyperjet.h>
#include <cstdlib>
#include <new>
static int n = 0;
void *operator new(std::size_t s) { n++; return std::malloc(s); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
int main() { using D = hyperjet::DDScalar<2, double, 9>; auto x = D::variable(3, 2.0); std::array<double, 9> d{}; n = 0; double r = (x * x).eval(d); return n == 0 && r == 4 ? 0 : 1; }''')
seeds["c01_static_log"] = dict(property="C01", edits=[(H, """            const auto f = log(this->f()) / log(base);
            const auto da = 1 / (this->f() * log(base));
            const auto daa = -da / this->f();

            unary<false>""", """            static const auto scale = log(base);

            const auto f = log(this->f()) / scale;
            const auto da = 1 / (this->f() * scale);
            const auto daa = -da / this->f();

            unary<false>""")], needs="two logarithms with different bases in one program", what="log with a base always uses the base of the first call",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2, double, 1>; auto x = D::variable(0, 8.0); NEED(near(x.log(2.0).f(), 3)); NEED(near(x.log(8.0).f(), 1)); }''')
seeds["c02_large_block"] = dict(property="C02", edits=[(H, """                    const auto ca = daa * a[1 + i] + dab * b[1 + i];
                    const auto cb = dab * a[1 + i] + dbb * b[1 + i];

                    for (index j = i; j < size(); j++)
                    {
                        r[k++] += ca * a[1 + j] + cb * b[1 + j];
                    }
                }
            }
        }

        template <bool TIncrement, typename TDa, typename TDb, typename TDc""", """                    const auto ca = daa * a[1 + i] + dab * b[1 + i];
                    const auto cb = dab * a[1 + i] + dbb * b[1 + i];

                    for (index jj = i; jj < size(); jj += 48)
                    {
                        const index end = jj + 48 < size() ? jj + 48 : size() - (jj > i);

                        for (index j = jj; j < end; j++)
                        {
                            r[k++] += ca * a[1 + j] + cb * b[1 + j];
                        }
                    }
                }
            }
        }

        template <bool TIncrement, typename TDa, typename TDb, typename TDc""")],
  needs="more than 48 variables", what="the blocked Hessian update loses the last column of rows longer than one block",
  cpp=PRE + '''int main() { using D = hj::DDScalar<2>; for (hj::index n : {2, 40, 48, 49, 60}) { auto x = D::variable(0, 3.0, n), y = D::variable(n - 1, 2.0, n); auto r = x * y; NEED(r.h(0, n - 1) == 1); NEED(r.h(n - 1, n - 1) == 0); } }''')
