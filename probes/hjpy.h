// Probes of the Python module: the module is initialised as the interpreter
// would on import, then looked at through the names it exports only.
#pragma once
#include <pybind11/pybind11.h>
#include "hjsparse.h"

void hj_module_init(pybind11::module_ &);

namespace hjy
{
using namespace hjp;
namespace pv = pybind11::pv;
using pv::Box;

inline Box *module = nullptr;
inline void prelude()
{
    pybind11::module_ m("hyperjet");
    module = m.b;
    hj_module_init(m);
}

// how a call ended
enum { Returned = 0, TypeError = 1, IndexError = 2, ValueError = 3, AttributeError = 4, RuntimeError = 5, OtherError = 6 };
inline long ended = 0;
template <class F> Box *run(F f)
{
    ended = Returned;
    try { return f(); }
    catch (const pybind11::type_error &) { ended = TypeError; }
    catch (const pybind11::index_error &) { ended = IndexError; }
    catch (const pybind11::value_error &) { ended = ValueError; }
    catch (const pybind11::attribute_error &) { ended = AttributeError; }
    catch (const std::runtime_error &) { ended = RuntimeError; }
    catch (...) { ended = OtherError; }
    return nullptr;
}

struct Missing {};
inline Box *global(const char *name)
{
    Box *b = pv::get(module->attrs, name);
    if (!b && pv::executed) hj_undecided("names defined by py::exec");
    if (!b) throw pybind11::attribute_error(name);
    return b;
}
inline Box *attr(Box *o, const char *name)
{
    Box *b = pv::getattr(o, name);
    if (!b) throw pybind11::attribute_error(name);
    return b;
}
inline void setattr(Box *o, const char *name, Box *v)
{
    if (o->k != pv::Obj) throw pybind11::attribute_error(name);
    pv::Rec *r = pv::attribute(o->c, name);
    if (!r || r->kind != pv::Property || !r->set) throw pybind11::attribute_error(name);
    Box *a[2] = {o, v};
    bool cv[2] = {true, true};
    if (!r->set->call(a, cv, r->policy, o)) throw pybind11::type_error("incompatible function arguments");
}
struct Kw { const char *name; Box *v; };
template <class... A> Box *call(Box *f, A... a)
{
    Box *pos[pv::MaxArgs];
    long n = 0;
    Box *kw = nullptr;
    auto one = [&](auto x) {
        if constexpr (std::is_same_v<decltype(x), Kw>)
        {
            if (!kw) kw = pv::seq(pv::Dict, 2);
            pv::put(kw, x.name, x.v);
        }
        else pos[n++] = x;
    };
    (one(a), ...);
    return pv::invoke(f, pos, n, kw);
}
template <class... A> Box *method(Box *o, const char *name, A... a) { return call(attr(o, name), a...); }

// special methods are looked up on the type
inline Box *special(Box *o, const char *name, Box *b = nullptr)
{
    if (o->k != pv::Obj) return nullptr;
    pv::Rec *r = pv::attribute(o->c, name);
    if (!r) return nullptr;
    Box *a[2] = {o, b};
    Box *x = pv::dispatch(r, a, b ? 2 : 1, nullptr, o);
    return x->k == pv::NotImpl ? nullptr : x;
}
inline Box *unary(Box *a, const char *name)
{
    Box *x = special(a, name);
    if (!x) throw pybind11::type_error(name);
    return x;
}
inline Box *binary(Box *a, Box *b, const char *name, const char *rname)
{
    bool same_type = a->k == pv::Obj && b->k == pv::Obj && a->c == b->c;
    if (Box *x = special(a, name, b)) return x;
    if (!same_type)
        if (Box *x = special(b, rname, a)) return x;
    throw pybind11::type_error(name);
}
inline Box *inplace(Box *a, Box *b, const char *iname, const char *name, const char *rname)
{
    if (Box *x = special(a, iname, b)) return x;
    return binary(a, b, name, rname);
}
inline Box *compare(Box *a, Box *b, const char *name, const char *rname)
{
    if (Box *x = special(a, name, b)) return x;
    if (Box *x = special(b, rname, a)) return x;
    if (pv::same(name, "__eq__")) return pv::of(a == b);
    if (pv::same(name, "__ne__")) return pv::of(a != b);
    throw pybind11::type_error(name);
}
inline Box *num(double v) { return pv::of(v); }
inline Box *num(long v) { return pv::of(v); }
inline Box *text(const char *s) { return pv::of(s); }
template <class... A> Box *list(A... a)
{
    Box *l = pv::seq(pv::List, sizeof...(A));
    (pv::push(l, a), ...);
    return l;
}
inline Box *symbols(pv::Kind k, long base, long n)
{
    Box *l = pv::seq(k, n);
    for (long i = 0; i < n; i++) pv::push(l, pv::of(hj_sym(base + i)));
    return l;
}
inline Box *asarray(long base, long n)
{
    double *p = new double[n ? n : 1];
    for (long i = 0; i < n; i++) p[i] = hj_sym(base + i);
    return pv::mkarr(p, n, nullptr, true);
}
// a symmetric n x n matrix, its upper triangle in packed order: as an array or
// as nested lists
inline double symcell(long base, long n, long i, long j)
{
    if (i > j) { long t = i; i = j; j = t; }
    return hj_sym(base + i * n - i * (i - 1) / 2 + (j - i));
}
inline Box *symarray(long base, long n)
{
    double *p = new double[n * n ? n * n : 1];
    for (long i = 0; i < n; i++)
        for (long j = 0; j < n; j++) p[i * n + j] = symcell(base, n, i, j);
    return pv::mkarr(p, n, n, n, 1, nullptr, true);
}
inline Box *symlists(long base, long n)
{
    Box *l = pv::seq(pv::List, n);
    for (long i = 0; i < n; i++)
    {
        Box *r = pv::seq(pv::List, n);
        for (long j = 0; j < n; j++) pv::push(r, pv::of(symcell(base, n, i, j)));
        pv::push(l, r);
    }
    return l;
}
inline Box *names(long base, long mask, long extra = -1)
{
    Box *d = pv::seq(pv::Dict, 4);
    for (long k = 0; k < 7; k++)
        if (mask >> k & 1) pv::put(d, name(k), pv::of(hj_sym(base + k)));
    if (extra >= 0) pv::put(d, "unrelated", pv::of(hj_sym(extra)));
    return d;
}
inline Box *asmatrix(long base, long r, long c)
{
    double *p = new double[r * c ? r * c : 1];
    for (long i = 0; i < r * c; i++) p[i] = hj_sym(base + i);
    return pv::mkarr(p, r, c, c, 1, nullptr, true);
}

// an instance of the exported class: a number of type T
template <class T> Box *instance(const char *cls, T v)
{
    Box *c = global(cls);
    if (c->k != pv::Type || c->c->id != pv::tid<T>()) throw pybind11::attribute_error(cls);
    return pv::mkobj(new T(std::move(v)), c->c);
}
template <class T> T *number(Box *b) { return b && b->k == pv::Obj && b->c && b->c->id == pv::tid<T>() ? static_cast<T *>(b->ptr) : nullptr; }

template <class T> struct is_sparse : std::false_type {};
template <class S> struct is_sparse<SScalar<S>> : std::true_type {};

// components of a number
template <class T> void content(long tag, Box *b)
{
    if (!number<T>(b)) { hj_outi(tag + 1, -1); return; }
    if constexpr (is_sparse<T>::value) sout(tag, *number<T>(b), 7);
    else out(tag, *number<T>(b));
}
// what a box is: kind (-1: no result), then its content
template <class T> void show(long tag, Box *b)
{
    if (!b) { hj_outi(tag, -1); return; }
    if (b->k == pv::Obj && !number<T>(b)) { hj_outi(tag, 100); return; } // of another class
    hj_outi(tag, b->k);
    switch (b->k)
    {
    case pv::Obj:
        if constexpr (is_sparse<T>::value) sout(tag + 1, *number<T>(b), 7);
        else out(tag + 1, *number<T>(b));
        break;
    case pv::Float: hj_out(tag + 1, b->f); break;
    case pv::Bool: hj_outb(tag + 1, b->i); break;
    case pv::Int: hj_outi(tag + 1, b->i); break;
    case pv::Str: hj_outs(tag + 1, b->s); break;
    case pv::List: case pv::Tuple: hj_outi(tag + 1, b->i); break;
    case pv::Array:
        hj_outi(tag + 2, b->nd);
        hj_outi(tag + 3, b->sh[0]);
        if (b->nd == 1)
            for (long i = 0; i < b->sh[0]; i++) hj_out(tag + 1, b->p[i * b->st[0]]);
        else
        {
            hj_outi(tag + 4, b->sh[1]);
            for (long i = 0; i < b->sh[0]; i++)
                for (long j = 0; j < b->sh[1]; j++) hj_out(tag + 1, b->p[i * b->st[0] + j * b->st[1]]);
        }
        break;
    default: break;
    }
}
} // namespace hjy
