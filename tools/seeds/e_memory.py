OOM = """#include <hyperjet/hyperjet.h>
#include <cstdlib>
#include <new>
static long left = -1, live = 0;
void *operator new(std::size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) left--; void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete(void *p) noexcept { if (p) live--; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) live--; std::free(p); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
template <class F> int failing(F f)
{
    for (long k = 0; k < 50; k++)
    {
        left = k;
        try { f(); left = -1; return 0; }
        catch (const std::bad_alloc &) { left = -1; }
    }
    return 1;
}
using A = hyperjet::DDScalar<1, double>;
using B = hyperjet::DDScalar<2, double>;
using S = hyperjet::SScalar<double>;
"""
seeds["c35_resize_first"] = dict(property="C35", edits=[(H, """            const index n = data_length_from_size(size);

            if constexpr (order() == 2)
            {
                const Data source = m_data;
                const index source_size = m_size;""", """            const index n = data_length_from_size(size);
            const index source_size = m_size;

            m_size = size;

            if constexpr (order() == 2)
            {
                const Data source = m_data;"""), (H, """                m_data.resize(n);
            }

            m_size = size;
        }""", """                m_data.resize(n);
            }
        }""")], needs="the allocation of resize fails", what="a failed resize leaves the new size with the old components",
  cpp=OOM + """int main() { A x = A::variable(0, 3.0, 2); B y = B::variable(1, 2.0, 2); int r = 0;
r |= failing([&] { if (x.size() != (long)x.data().size() - 1) std::exit(1); x.resize(50); });
r |= failing([&] { if (y.size() == 40 && y.data().size() != 861) std::exit(1); y.resize(40); }); return r; }
""")
seeds["c35_scratch_leak"] = dict(property="C35", edits=[(H, """            Type result = empty(new_size);

            const index tail = new_size - size();

            auto source = m_data.cbegin();
            auto target = result.m_data.begin();

            for (index i = 0; i < size() + 1; i++)
            {
                *target++ = *source++;
            }
""", """            Scalar *const copy = new Scalar[m_data.size()];

            std::copy(m_data.begin(), m_data.end(), copy);

            Type result = empty(new_size);

            const index tail = new_size - size();

            std::copy(copy, copy + size() + 1, result.m_data.begin());

            delete[] copy;

            auto source = m_data.cbegin() + size() + 1;
            auto target = result.m_data.begin() + size() + 1;
""")], needs="the second allocation of pad_right fails", what="pad_right leaks a scratch copy when memory runs out",
  cpp=OOM + """int main() { B y = B::variable(1, 2.0, 2); const long before = live; int r = failing([&] { B z = y.pad_right(5); }); return r || live != before; }
""")
seeds["c35_noexcept"] = dict(property="C35", edits=[(H, """        Type operator*(const Type &b) const
        {
            const auto f = m_f * b.f();""", """        Type operator*(const Type &b) const noexcept
        {
            const auto f = m_f * b.f();""")], needs="an allocation of the product of two sparse numbers fails", what="the program terminates instead of receiving std::bad_alloc",
  cpp=OOM + """int main() { S a = S::variable("a", 2.0), b = S::variable("b", 3.0); return failing([&] { S c = a * b; }); }
""")
seeds["c35_assign_clear"] = dict(property="C35", edits=[(H, """        constexpr index size() const
        {
            if constexpr (is_dynamic())""", """        DDScalar(const DDScalar &) = default;
        DDScalar(DDScalar &&) = default;
        DDScalar &operator=(DDScalar &&) = default;

        DDScalar &operator=(const DDScalar &other)
        {
            if constexpr (is_dynamic())
            {
                // reuses the storage where it is large enough
                if (this != &other)
                {
                    m_data.clear();
                    m_data.insert(m_data.end(), other.m_data.begin(), other.m_data.end());
                }
            }
            else
            {
                m_data = other.m_data;
            }

            m_size = other.m_size;

            return *this;
        }

        constexpr index size() const
        {
            if constexpr (is_dynamic())""")], needs="the allocation of a copy assignment fails", what="the target of a failed assignment has lost its components but not its size",
  cpp=OOM + """int main() { B x = B::variable(1, 2.0, 2), y = B::variable(0, 1.0, 30); return failing([&] { if (x.data().size() != 6 || x.f() != 2) std::exit(1); x = y; }); }
""")
seeds["c35_sparse_swap_out"] = dict(property="C35", edits=[(H, """            for (auto &d : b)
                r[d.first] += db * d.second;

            return r;
        }

        template <typename TDa, typename TDb, typename TDc>""", """            try
            {
                for (auto &d : b)
                    r[d.first] += db * d.second;
            }
            catch (const std::exception &)
            {
                r.clear();
            }

            return r;
        }

        template <typename TDa, typename TDb, typename TDc>""")], needs="an insertion into the result fails", what="running out of memory silently yields a number without derivatives",
  cpp=OOM.replace("if (left == 0) throw std::bad_alloc();", "if (left == 0) { left = -1; throw std::bad_alloc(); }") + """int main() { S a = S::variable("a", 2.0), b = S::variable("b", 3.0); return failing([&] { S c = a * b; left = -1; if (c.size() != 2) std::exit(1); }); }
""")
