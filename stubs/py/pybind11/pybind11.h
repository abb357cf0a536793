// Stand-in for pybind11: the binding code of the repository is compiled
// against these declarations and interpreted by the analysis engine.  They
// model what the real library does with each registration (overload order,
// conversion passes, keywords and defaults, return value policies, operator
// dispatch) on a small model of Python objects; nothing of Python is linked.
#pragma once
#include <array>
#include <cstddef>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <Eigen/Core>

#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 11
#define PYBIND11_NAMESPACE pybind11

extern "C" void hj_undecided(const char *why);

namespace pybind11
{
using ssize_t = std::ptrdiff_t;
using size_t = std::size_t;

// ------------------------------------------------------------ objects
namespace pv
{
enum Kind : long { None, Bool, Int, Float, Str, List, Tuple, Dict, Array, Obj, Func, Type, Module, NotImpl, Other };
struct Class;
struct Rec;
struct Box
{
    Kind k = None;
    long i = 0;               // Bool, Int; length of Str, List, Tuple, Dict
    double f = 0;             // Float
    char *s = nullptr;        // Str
    Box **e = nullptr;        // elements (Dict: key, value, key, ...)
    long cap = 0;
    double *p = nullptr;      // Array
    long nd = 0, sh[2] = {0, 0}, st[2] = {0, 0};
    bool writable = true;
    Box *base = nullptr;      // what keeps the memory alive
    void *ptr = nullptr;      // Obj
    Class *c = nullptr;       // Obj, Type
    Rec *fn = nullptr;        // Func
    Box *self = nullptr;      // bound method
    Box *attrs = nullptr;     // Module, Other: Dict
};
inline bool same(const char *a, const char *b)
{
    while (*a && *a == *b) { a++; b++; }
    return *a == *b;
}
inline long clen(const char *s)
{
    long n = 0;
    while (s[n]) n++;
    return n;
}
inline Box *make(Kind k)
{
    Box *b = new Box;
    b->k = k;
    return b;
}
inline Box *mknone() { return make(None); }
inline Box *of(bool v) { Box *b = make(Bool); b->i = v; return b; }
inline Box *of(long v) { Box *b = make(Int); b->i = v; return b; }
inline Box *of(double v) { Box *b = make(Float); b->f = v; return b; }
inline Box *of(const char *v, long n)
{
    Box *b = make(Str);
    b->i = n;
    b->s = new char[n + 1];
    for (long k = 0; k < n; k++) b->s[k] = v[k];
    b->s[n] = 0;
    return b;
}
inline Box *of(const char *v) { return of(v, clen(v)); }
inline Box *seq(Kind k, long n)
{
    Box *b = make(k);
    b->cap = n;
    b->e = new Box *[n ? n : 1];
    return b;
}
inline void push(Box *b, Box *v)
{
    if (b->i == b->cap)
    {
        Box **e = new Box *[2 * b->cap + 8];
        for (long k = 0; k < b->i; k++) e[k] = b->e[k];
        delete[] b->e;
        b->e = e;
        b->cap = 2 * b->cap + 8;
    }
    b->e[b->i++] = v;
}
inline void put(Box *d, const char *key, Box *v)
{
    for (long k = 0; k < d->i; k += 2)
        if (same(d->e[k]->s, key)) { d->e[k + 1] = v; return; }
    push(d, of(key));
    push(d, v);
}
inline Box *get(Box *d, const char *key)
{
    for (long k = 0; k < d->i; k += 2)
        if (same(d->e[k]->s, key)) return d->e[k + 1];
    return nullptr;
}
inline Box *mkarr(double *p, long n, Box *base, bool writable)
{
    Box *b = make(Array);
    b->p = p; b->nd = 1; b->sh[0] = n; b->st[0] = 1; b->base = base; b->writable = writable;
    return b;
}
inline Box *mkarr(double *p, long r, long c, long rs, long cs, Box *base, bool writable)
{
    Box *b = make(Array);
    b->p = p; b->nd = 2; b->sh[0] = r; b->sh[1] = c; b->st[0] = rs; b->st[1] = cs; b->base = base; b->writable = writable;
    return b;
}
inline bool issequence(Box *b) { return b->k == List || b->k == Tuple || (b->k == Array && b->nd > 0); }
inline long len(Box *b) { return b->k == Array ? b->sh[0] : b->k == Dict ? b->i / 2 : b->i; }
inline Box *item(Box *b, long k)
{
    if (b->k != Array) return b->e[k];
    if (b->nd == 1) return of(b->p[k * b->st[0]]);
    Box *r = mkarr(b->p + k * b->st[0], b->sh[1], b, b->writable);
    r->st[0] = b->st[1];
    return r;
}

template <class T> struct Tid { static inline char id = 0; };
template <class T> const char *tid() { return &Tid<std::remove_cv_t<T>>::id; }

struct Class
{
    const char *name = nullptr;
    const char *id = nullptr;
    Box *type = nullptr;
    Rec *first = nullptr, *last = nullptr; // attributes in order of definition
    Class *next = nullptr;
    bool dynamic_attr = false;
    void (*destroy)(void *) = nullptr;
    Box *(*implicit[8])(Box *) = {};
    int nimplicit = 0;
};
inline Class *classes = nullptr;
inline Class *find(const char *id)
{
    for (Class *c = classes; c; c = c->next)
        if (c->id == id) return c;
    return nullptr;
}
// live instances, for identity of returned references
struct Live { Box *b; Live *next; };
inline Live *live = nullptr;
inline Box *instance(void *p, Class *c)
{
    for (Live *l = live; l; l = l->next)
        if (l->b->ptr == p && l->b->c == c) return l->b;
    return nullptr;
}
inline Box *mkobj(void *p, Class *c)
{
    Box *b = make(Obj);
    b->ptr = p;
    b->c = c;
    live = new Live{b, live};
    return b;
}
template <class T> Box *mkobj(T &&v)
{
    using U = std::decay_t<T>;
    return mkobj(new U(std::forward<T>(v)), find(tid<U>()));
}
}

// ------------------------------------------------------------ exceptions
class builtin_exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
#define HJ_EXC(name) class name : public builtin_exception { public: explicit name(const std::string &w = "") : builtin_exception(w) {} explicit name(const char *w) : builtin_exception(w) {} };
HJ_EXC(type_error) HJ_EXC(index_error) HJ_EXC(value_error) HJ_EXC(key_error) HJ_EXC(stop_iteration) HJ_EXC(attribute_error) HJ_EXC(import_error) HJ_EXC(buffer_error) HJ_EXC(cast_error) HJ_EXC(reference_cast_error) HJ_EXC(error_already_set)
#undef HJ_EXC
[[noreturn]] inline void pybind11_fail(const char *why) { throw std::runtime_error(why); }
[[noreturn]] inline void pybind11_fail(const std::string &why) { throw std::runtime_error(why); }

enum class return_value_policy : unsigned char { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// ------------------------------------------------------------ wrappers
class object;
class str;
class attr_accessor;
template <class K> class item_accessor;
template <class T> pv::Box *out_box(T &&v, return_value_policy p = return_value_policy::automatic_reference, pv::Box *parent = nullptr);
template <class A> struct arg_in;
struct arg;
struct arg_v;

class handle
{
public:
    pv::Box *b = nullptr;
    handle() = default;
    handle(pv::Box *x) : b(x) {}
    pv::Box *ptr() const { return b; }
    bool is_none() const { return !b || b->k == pv::None; }
    bool is(handle o) const { return b == o.b; }
    explicit operator bool() const { return b != nullptr; }
    handle inc_ref() const { return *this; }
    handle dec_ref() const { return *this; }
    template <class T> T cast() const;
    inline attr_accessor attr(const char *name) const;
    template <class K> item_accessor<K> operator[](K key) const;
    template <class... A> object operator()(A &&...a) const;
    inline handle get_type() const;
};
class object : public handle
{
public:
    using handle::handle;
    object() = default;
    object(handle h) : handle(h) {}
    handle release() { handle r(b); b = nullptr; return r; }
};
class none : public object { public: none() : object(pv::mknone()) {} };
#define HJ_WRAP(name, cond) \
    name(handle h) : object(h) {} \
    name(pv::Box *x) : object(x) {} \
    static bool check_(handle h) { pv::Box *x = h.b; return x && (cond); }
class str : public object { public: HJ_WRAP(str, x->k == pv::Str) str() : object(pv::of("")) {} str(const char *s) : object(pv::of(s)) {} str(const std::string &s) : object(pv::of(s.data(), s.size())) {} operator std::string() const { return std::string(b->s, b->i); } };
class bool_ : public object { public: HJ_WRAP(bool_, x->k == pv::Bool) bool_(bool v) : object(pv::of(v)) {} operator bool() const { return b->i; } };
class int_ : public object { public: HJ_WRAP(int_, x->k == pv::Int) template <class I, class = std::enable_if_t<std::is_integral_v<I>>> int_(I v) : object(pv::of(long(v))) {} template <class I, class = std::enable_if_t<std::is_integral_v<I>>> operator I() const { return I(b->i); } };
class float_ : public object { public: HJ_WRAP(float_, x->k == pv::Float) float_(double v) : object(pv::of(v)) {} operator double() const { return b->f; } };
class sequence : public object { public: HJ_WRAP(sequence, pv::issequence(x)) size_t size() const { return pv::len(b); } };
struct box_iterator { pv::Box *b; long k; handle operator*() const { return pv::item(b, k); } box_iterator &operator++() { k++; return *this; } bool operator!=(const box_iterator &o) const { return k != o.k; } bool operator==(const box_iterator &o) const { return k == o.k; } };
class tuple : public object { public: HJ_WRAP(tuple, x->k == pv::Tuple) tuple() : object(pv::seq(pv::Tuple, 0)) {} explicit tuple(size_t n) : object(pv::seq(pv::Tuple, n)) { b->i = n; for (size_t k = 0; k < n; k++) b->e[k] = pv::mknone(); } size_t size() const { return b->i; } bool empty() const { return !b->i; } box_iterator begin() const { return {b, 0}; } box_iterator end() const { return {b, b->i}; } };
class list : public object { public: HJ_WRAP(list, x->k == pv::List) list() : object(pv::seq(pv::List, 0)) {} explicit list(size_t n) : object(pv::seq(pv::List, n)) { b->i = n; for (size_t k = 0; k < n; k++) b->e[k] = pv::mknone(); } size_t size() const { return b->i; } bool empty() const { return !b->i; } template <class T> void append(T &&v) const { pv::push(b, out_box(std::forward<T>(v))); } box_iterator begin() const { return {b, 0}; } box_iterator end() const { return {b, b->i}; } };
class dict : public object { public: HJ_WRAP(dict, x->k == pv::Dict) dict() : object(pv::seq(pv::Dict, 0)) {} size_t size() const { return b->i / 2; } bool contains(const char *k) const { return pv::get(b, k); } };
class args : public tuple { public: using tuple::tuple; };
class kwargs : public dict { public: using dict::dict; };
class function : public object { public: HJ_WRAP(function, x->k == pv::Func) };
class type : public object { public: HJ_WRAP(type, x->k == pv::Type) template <class T> static handle of() { auto *c = pv::find(pv::tid<T>()); return c ? c->type : nullptr; } static handle of(handle h) { return h.b->c ? h.b->c->type : nullptr; } };
class array : public object { public: HJ_WRAP(array, x->k == pv::Array) array() : object(pv::mkarr(nullptr, 0, nullptr, true)) {} ssize_t ndim() const { return b->nd; } ssize_t shape(ssize_t k) const { return b->sh[k]; } ssize_t size() const { return b->nd == 2 ? b->sh[0] * b->sh[1] : b->sh[0]; } };
template <class T, int F = 0> class array_t : public array
{
public:
    array_t(handle h) : array(h) {}
    array_t(pv::Box *x) : array(x) {}
    static bool check_(handle h) { return h.b && h.b->k == pv::Array; }
    array_t() = default;
    explicit array_t(ssize_t n) : array(pv::mkarr(new double[n ? n : 1], n, nullptr, true)) {}
    array_t(ssize_t n, const T *p, handle base = handle()) : array(pv::mkarr(base.b ? const_cast<T *>(p) : new double[n ? n : 1], n, base.b, true)) { if (!base.b) for (ssize_t k = 0; k < n; k++) b->p[k] = p[k]; }
    array_t(const std::vector<ssize_t> &s) : array(s.size() == 1 ? pv::mkarr(new double[s[0] ? s[0] : 1], s[0], nullptr, true) : pv::mkarr(new double[s[0] * s[1] ? s[0] * s[1] : 1], s[0], s[1], s[1], 1, nullptr, true)) {}
    T *mutable_data() { return b->p; }
    const T *data() const { return b->p; }
    T &mutable_at(ssize_t i) { return b->p[i * b->st[0]]; }
    T &mutable_at(ssize_t i, ssize_t j) { return b->p[i * b->st[0] + j * b->st[1]]; }
    const T &at(ssize_t i) const { return b->p[i * b->st[0]]; }
    const T &at(ssize_t i, ssize_t j) const { return b->p[i * b->st[0] + j * b->st[1]]; }
};
class capsule : public object { public: using object::object; };

template <class T> bool isinstance(handle h)
{
    if constexpr (std::is_base_of_v<object, T>) return T::check_(h);
    else return h.b->k == pv::Obj && h.b->c && h.b->c->id == pv::tid<T>();
}

class attr_accessor : public object
{
public:
    pv::Box *owner;
    const char *name;
    attr_accessor(pv::Box *o, const char *n, pv::Box *v) : object(v), owner(o), name(n) {}
    template <class T> void operator=(T &&v)
    {
        b = out_box(std::forward<T>(v));
        set();
    }
    void operator=(const attr_accessor &o) { b = o.b; set(); }
    void operator=(const char *v) { b = pv::of(v); set(); }
    void set()
    {
        if (!owner->attrs) owner->attrs = pv::seq(pv::Dict, 0);
        pv::put(owner->attrs, name, b);
    }
};
template <class K> class item_accessor : public object
{
public:
    pv::Box *owner;
    K key;
    item_accessor(pv::Box *o, K k, pv::Box *v) : object(v), owner(o), key(k) {}
    template <class T> void operator=(T &&v)
    {
        b = out_box(std::forward<T>(v));
        if constexpr (std::is_integral_v<K>) owner->e[key] = b;
        else pv::put(owner, key, b);
    }
};
template <class K> item_accessor<K> handle::operator[](K key) const
{
    if constexpr (std::is_integral_v<K>)
    {
        if (key < 0 || long(key) >= pv::len(b)) throw index_error("index out of range");
        return {b, key, pv::item(b, key)};
    }
    else return {b, key, pv::get(b, key)};
}
inline handle handle::get_type() const { return b->c ? b->c->type : nullptr; }

// ------------------------------------------------------------ attributes of registrations
struct arg
{
    const char *name;
    long flag_noconvert = false, flag_none = true; // no padding: passed in registers
    constexpr explicit arg(const char *n = nullptr) : name(n) {}
    template <class T> arg_v operator=(T &&v) const;
    arg &noconvert(bool f = true) { flag_noconvert = f; return *this; }
    arg &none(bool f = true) { flag_none = f; return *this; }
};
struct arg_v : arg
{
    pv::Box *value;
    const char *descr = nullptr;
    arg_v(arg a, pv::Box *v) : arg(a), value(v) {}
    template <class T> arg_v(const char *n, T &&v) : arg(n), value(out_box(std::forward<T>(v))) {}
};
template <class T> arg_v arg::operator=(T &&v) const { return arg_v(*this, out_box(std::forward<T>(v), return_value_policy::automatic)); }
inline namespace literals
{
constexpr arg operator""_a(const char *n, size_t) { return arg(n); }
}
struct is_operator {};
struct is_method { handle c; explicit is_method(handle h) : c(h) {} };
struct kw_only {};
struct pos_only {};
struct prepend {};
struct dynamic_attr {};
struct module_local { explicit constexpr module_local(bool = true) {} };
struct buffer_protocol {};
struct doc { const char *v; explicit doc(const char *s) : v(s) {} };
struct name { const char *v; explicit name(const char *s) : v(s) {} };
template <int N, int P> struct keep_alive {};
template <class... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};

namespace pv
{
constexpr int MaxArgs = 8;
struct Thunk
{
    virtual Box *call(Box **a, const bool *convert, return_value_policy p, Box *parent) = 0;
};
struct ArgRec { const char *name = nullptr; Box *value = nullptr; bool convert = true, none = true; };
enum RK : long { Method, Static, Property, StaticProperty, Plain };
struct Rec
{
    RK kind = Plain;
    const char *name = nullptr;
    Thunk *fn = nullptr;
    Thunk *set = nullptr;
    int nparams = 0, nargs = 0;
    ArgRec a[MaxArgs];
    bool op = false, init = false, has_self = false;
    return_value_policy policy = return_value_policy::automatic;
    int keep[2] = {-1, -1};
    Class *cls = nullptr;
    Rec *next = nullptr;    // overload
    Rec *sibling = nullptr; // next attribute
};
inline void set(Rec *r, const arg &x)
{
    if (r->has_self && r->nargs == 0) r->a[r->nargs++].name = "self";
    r->a[r->nargs].name = x.name;
    r->a[r->nargs].convert = !x.flag_noconvert;
    r->a[r->nargs++].none = x.flag_none;
}
inline void set(Rec *r, const arg_v &x)
{
    set(r, static_cast<const arg &>(x));
    r->a[r->nargs - 1].value = x.value;
}
inline void set(Rec *r, const is_operator &) { r->op = true; }
inline void set(Rec *r, const return_value_policy &p) { r->policy = p; }
inline void set(Rec *, const char *) {}
inline void set(Rec *, const doc &) {}
inline void set(Rec *, const prepend &) { hj_undecided("py::prepend"); }
inline void set(Rec *, const kw_only &) { hj_undecided("py::kw_only"); }
inline void set(Rec *, const pos_only &) { hj_undecided("py::pos_only"); }
template <int N, int P> void set(Rec *r, const keep_alive<N, P> &) { r->keep[0] = N; r->keep[1] = P; }
template <class... T> void set(Rec *, const call_guard<T...> &) {}
}

// ------------------------------------------------------------ Python -> C++
namespace pv
{
template <class T, class = void> struct is_eigen : std::false_type {};
template <class T> struct is_eigen<T, std::enable_if_t<std::is_base_of_v<Eigen::EigenBase<T>, T>>> : std::true_type {};

template <class T, class = void> struct In; // value casters

// a bound class
template <class T, class> struct In
{
    T *p = nullptr;
    bool load(Box *b, bool convert)
    {
        if (b->k == None) { p = nullptr; return false; }
        if (b->k == Obj && b->c && b->c->id == tid<T>())
        {
            p = static_cast<T *>(b->ptr);
            return true;
        }
        Class *c = convert ? find(tid<T>()) : nullptr;
        for (int i = 0; c && i < c->nimplicit; i++)
        {
            Box *x = c->implicit[i](b);
            if (x && x->k == Obj && x->c && x->c->id == tid<T>())
            {
                p = static_cast<T *>(x->ptr);
                return true;
            }
        }
        return false;
    }
    template <class A> A pass()
    {
        if constexpr (std::is_pointer_v<A>) return p;
        else return static_cast<A>(*p);
    }
};
template <class V> struct Val
{
    V v{};
    template <class A> A pass()
    {
        if constexpr (std::is_lvalue_reference_v<A>) return v;
        else if constexpr (std::is_pointer_v<A>) return &v;
        else return std::move(v);
    }
};
template <> struct In<bool> : Val<bool> { bool load(Box *b, bool) { if (b->k != Bool) return false; v = b->i; return true; } };
template <class T> struct In<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> : Val<T>
{
    bool load(Box *b, bool)
    {
        if (b->k != Int && b->k != Bool) return false;
        this->v = T(b->i);
        return true;
    }
};
template <class T> struct In<T, std::enable_if_t<std::is_floating_point_v<T>>> : Val<T>
{
    bool load(Box *b, bool convert)
    {
        if (b->k == Float) { this->v = T(b->f); return true; }
        if (!convert || (b->k != Int && b->k != Bool)) return false;
        this->v = T(b->i);
        return true;
    }
};
template <> struct In<std::string> : Val<std::string> { bool load(Box *b, bool) { if (b->k != Str) return false; v = std::string(b->s, b->i); return true; } };
template <> struct In<char> { const char *s = nullptr; bool load(Box *b, bool) { if (b->k != Str) return false; s = b->s; return true; } template <class A> A pass() { return s; } };
template <class T, class A> struct In<std::vector<T, A>> : Val<std::vector<T, A>>
{
    bool load(Box *b, bool convert)
    {
        if (!issequence(b)) return false;
        this->v.clear();
        long n = len(b);
        this->v.reserve(n);
        for (long k = 0; k < n; k++)
        {
            In<T> x;
            if (!x.load(item(b, k), convert)) return false;
            this->v.push_back(x.template pass<T>());
        }
        return true;
    }
};
template <class T, std::size_t N> struct In<std::array<T, N>> : Val<std::array<T, N>>
{
    bool load(Box *b, bool convert)
    {
        if (!issequence(b) || len(b) != long(N)) return false;
        for (long k = 0; k < long(N); k++)
        {
            In<T> x;
            if (!x.load(item(b, k), convert)) return false;
            this->v[k] = x.template pass<T>();
        }
        return true;
    }
};
template <class M> bool load_map(M &v, Box *b, bool convert)
{
    if (b->k != Dict) return false;
    v.clear();
    for (long k = 0; k < b->i; k += 2)
    {
        In<typename M::key_type> key;
        In<typename M::mapped_type> val;
        if (!key.load(b->e[k], convert) || !val.load(b->e[k + 1], convert)) return false;
        v.emplace(key.template pass<typename M::key_type>(), val.template pass<typename M::mapped_type>());
    }
    return true;
}
template <class K, class V> struct In<std::unordered_map<K, V>> : Val<std::unordered_map<K, V>> { bool load(Box *b, bool c) { return load_map(this->v, b, c); } };
template <class K, class V> struct In<std::map<K, V>> : Val<std::map<K, V>> { bool load(Box *b, bool c) { return load_map(this->v, b, c); } };
template <class A, class B> struct In<std::pair<A, B>> : Val<std::pair<A, B>>
{
    bool load(Box *b, bool c)
    {
        if (!issequence(b) || len(b) != 2) return false;
        In<A> x;
        In<B> y;
        if (!x.load(item(b, 0), c) || !y.load(item(b, 1), c)) return false;
        this->v = {x.template pass<A>(), y.template pass<B>()};
        return true;
    }
};
template <class T> struct In<T, std::enable_if_t<std::is_base_of_v<handle, T>>>
{
    Box *b = nullptr;
    bool load(Box *x, bool)
    {
        b = x;
        if constexpr (std::is_same_v<T, handle> || std::is_same_v<T, object>) return true;
        else return T::check_(handle(x));
    }
    template <class A> A pass()
    {
        T *t = new T(handle(b));
        return static_cast<A>(*t);
    }
};
// shape of an argument as a matrix of type M (rows, cols); false: not conformable
template <class M> bool conform(Box *b, long &r, long &c)
{
    constexpr long R = M::RowsAtCompileTime, C = M::ColsAtCompileTime;
    long nd = 0, s0 = 0, s1 = 0;
    if (b->k == Array) { nd = b->nd; s0 = b->sh[0]; s1 = b->sh[1]; }
    else if (b->k == Float || b->k == Int) nd = 0;
    else if (issequence(b))
    {
        s0 = len(b);
        nd = 1;
        if (s0 && issequence(b->e[0]))
        {
            nd = 2;
            s1 = len(b->e[0]);
            for (long k = 1; k < s0; k++)
                if (!issequence(b->e[k]) || len(b->e[k]) != s1) return false;
        }
    }
    else return false;
    if (nd < 1 || nd > 2) return false;
    if (nd == 2)
    {
        r = s0; c = s1;
        return (R < 0 || R == r) && (C < 0 || C == c);
    }
    if constexpr (R == 1 || C == 1)
    {
        constexpr long N = R == 1 ? C : R;
        if (N >= 0 && N != s0) return false;
        r = R == 1 ? 1 : s0;
        c = R == 1 ? s0 : 1;
        if (C == 1) { r = s0; c = 1; }
        if (R == 1) { r = 1; c = s0; }
        return true;
    }
    else if constexpr (R >= 0 && C >= 0) return false;
    else if constexpr (C >= 0) { r = 1; c = s0; return C == s0; }
    else { r = s0; c = 1; return R < 0 || R == s0; }
}
template <class M> bool fill(M &m, Box *b, bool convert)
{
    if (!convert && b->k != Array) return false;
    long r, c;
    if (!conform<M>(b, r, c)) return false;
    m.resize(r, c);
    for (long i = 0; i < r; i++)
        for (long j = 0; j < c; j++)
        {
            typename M::Scalar v;
            if (b->k == Array) v = b->nd == 2 ? b->p[i * b->st[0] + j * b->st[1]] : b->p[(r == 1 ? j : i) * b->st[0]];
            else
            {
                Box *e = b->e[0] && issequence(b->e[0]) ? item(b->e[i], j) : item(b, r == 1 ? j : i);
                In<double> x;
                if (!x.load(e, true)) return false;
                v = x.v;
            }
            m(i, j) = v;
        }
    return true;
}
template <class S, int R, int C, int O, int MR, int MC> struct In<Eigen::Matrix<S, R, C, O, MR, MC>> : Val<Eigen::Matrix<S, R, C, O, MR, MC>>
{
    bool load(Box *b, bool convert) { return fill(this->v, b, convert); }
};
template <class M, int O, class St> struct In<Eigen::Ref<const M, O, St>>
{
    M m;
    Eigen::Ref<const M, O, St> *r = nullptr;
    bool load(Box *b, bool convert)
    {
        if (!fill(m, b, convert)) return false;
        r = new Eigen::Ref<const M, O, St>(m);
        return true;
    }
    template <class A> A pass() { return *r; }
};
template <class M, int O, class St> struct In<Eigen::Ref<M, O, St>, std::enable_if_t<!std::is_const_v<M>>>
{
    Eigen::Ref<M, O, St> *r = nullptr;
    bool load(Box *b, bool)
    {
        long n, c;
        if (b->k != Array || !b->writable || !conform<M>(b, n, c)) return false;
        // the memory of the array itself
        bool dense = b->nd == 1 ? b->st[0] == 1 : M::IsRowMajor ? b->st[1] == 1 && (b->st[0] == c || n < 2) : b->st[0] == 1 && (b->st[1] == n || c < 2);
        if (!dense) return false;
        r = new Eigen::Ref<M, O, St>(Eigen::Map<M>(b->p, n, c));
        return true;
    }
    template <class A> A pass() { return *r; }
};
template <class A> using intrinsic = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<A>>>;

// ------------------------------------------------------------ C++ -> Python
template <class T> struct is_std_seq : std::false_type {};
template <class T, class A> struct is_std_seq<std::vector<T, A>> : std::true_type {};
template <class T, std::size_t N> struct is_std_seq<std::array<T, N>> : std::true_type {};
template <class T> struct is_std_map : std::false_type {};
template <class K, class V> struct is_std_map<std::unordered_map<K, V>> : std::true_type {};
template <class K, class V> struct is_std_map<std::map<K, V>> : std::true_type {};
template <class T> struct is_ref : std::false_type {};
template <class M, int O, class St> struct is_ref<Eigen::Ref<M, O, St>> : std::bool_constant<true> { static constexpr bool mut = !std::is_const_v<M>; };
template <class M, int O, class St> struct is_ref<Eigen::Map<M, O, St>> : std::bool_constant<true> { static constexpr bool mut = !std::is_const_v<M>; };
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};

template <class M> Box *view(const M &m, Box *base, bool writable)
{
    double *p = const_cast<double *>(m.data());
    if constexpr (M::IsVectorAtCompileTime) { Box *b = mkarr(p, m.size(), base, writable); b->st[0] = m.innerStride(); return b; }
    else if (M::IsRowMajor) return mkarr(p, m.rows(), m.cols(), m.outerStride(), m.innerStride(), base, writable);
    else return mkarr(p, m.rows(), m.cols(), m.innerStride(), m.outerStride(), base, writable);
}
template <class M> Box *copy_of(const M &m)
{
    long r = m.rows(), c = m.cols();
    double *p = new double[r * c ? r * c : 1];
    for (long i = 0; i < r; i++)
        for (long j = 0; j < c; j++) p[i * c + j] = m(i, j);
    Box *base = make(Other);
    if constexpr (M::IsVectorAtCompileTime) return mkarr(p, r * c, base, true);
    else return mkarr(p, r, c, c, 1, base, true);
}
}

template <class T> pv::Box *out_box(T &&v, return_value_policy p, pv::Box *parent)
{
    using namespace pv;
    using R = std::remove_reference_t<T>;
    using U = std::remove_cv_t<R>;
    using rp = return_value_policy;
    if constexpr (std::is_base_of_v<handle, U>) return v.b ? v.b : pv::mknone();
    else if constexpr (std::is_same_v<U, Box *>) return v;
    else if constexpr (std::is_same_v<U, std::nullptr_t>) return pv::mknone();
    else if constexpr (std::is_same_v<U, bool>) return of(bool(v));
    else if constexpr (std::is_integral_v<U>) return of(long(v));
    else if constexpr (std::is_enum_v<U>) return of(long(v));
    else if constexpr (std::is_floating_point_v<U>) return of(double(v));
    else if constexpr (std::is_array_v<U> || std::is_same_v<U, const char *> || std::is_same_v<U, char *>) return of(static_cast<const char *>(v));
    else if constexpr (std::is_same_v<U, std::string>) return of(v.data(), v.size());
    else if constexpr (is_std_seq<U>::value)
    {
        Box *b = seq(List, v.size());
        for (auto &x : v)
            if constexpr (std::is_lvalue_reference_v<T>) push(b, out_box(x, p == rp::reference_internal ? p : rp::copy, parent));
            else push(b, out_box(std::move(x), p, parent));
        return b;
    }
    else if constexpr (is_std_map<U>::value)
    {
        Box *b = seq(Dict, 2 * v.size());
        for (auto &x : v) { push(b, out_box(x.first)); push(b, out_box(x.second)); }
        return b;
    }
    else if constexpr (is_pair<U>::value)
    {
        Box *b = seq(Tuple, 2);
        push(b, out_box(v.first));
        push(b, out_box(v.second));
        return b;
    }
    else if constexpr (is_ref<U>::value)
    {
        switch (p)
        {
        case rp::copy: return copy_of(v);
        case rp::reference_internal: return view(v, parent, is_ref<U>::mut);
        case rp::reference: case rp::automatic: case rp::automatic_reference: return view(v, nullptr, is_ref<U>::mut);
        default: pybind11_fail("Invalid return_value_policy for Eigen Map/Ref/Block type");
        }
    }
    else if constexpr (is_eigen<U>::value)
    {
        if constexpr (std::is_lvalue_reference_v<T> && std::is_base_of_v<Eigen::PlainObjectBase<U>, U>)
        {
            if (p == rp::reference_internal) return view(v, parent, !std::is_const_v<R>);
            if (p == rp::reference || p == rp::automatic_reference) return view(v, nullptr, !std::is_const_v<R>);
        }
        return copy_of(v.eval());
    }
    else if constexpr (std::is_pointer_v<U>)
    {
        using O = std::remove_cv_t<std::remove_pointer_t<U>>;
        if (!v) return pv::mknone();
        Class *c = find(tid<O>());
        if (!c) throw cast_error("unregistered type");
        if (Box *b = instance(const_cast<O *>(v), c)) return b;
        if (p == rp::automatic || p == rp::take_ownership) return mkobj(const_cast<O *>(v), c);
        if (p == rp::copy) return mkobj(new O(*v), c);
        if (p == rp::move) return mkobj(new O(std::move(*const_cast<O *>(v))), c);
        Box *b = mkobj(const_cast<O *>(v), c);
        if (p == rp::reference_internal) b->base = parent;
        return b;
    }
    else
    {
        Class *c = find(tid<U>());
        if (!c) throw type_error("Unable to convert function return value to a Python type");
        if constexpr (std::is_lvalue_reference_v<T>)
        {
            if (Box *b = instance(const_cast<U *>(&v), c)) return b;
            if (p == rp::reference || p == rp::reference_internal)
            {
                Box *b = mkobj(const_cast<U *>(&v), c);
                if (p == rp::reference_internal) b->base = parent;
                return b;
            }
            if (p == rp::move) return mkobj(new U(std::move(const_cast<U &>(v))), c);
            return mkobj(new U(v), c);
        }
        else return mkobj(new U(std::move(const_cast<U &>(v))), c);
    }
}

template <class T> T handle::cast() const
{
    pv::In<pv::intrinsic<T>> x;
    if (!x.load(b, true)) throw cast_error("Unable to cast Python instance");
    return x.template pass<T>();
}
template <class T> T cast(const handle &h) { return h.template cast<T>(); }
template <class T, class = std::enable_if_t<!std::is_base_of_v<handle, std::decay_t<T>>>> object cast(T &&v, return_value_policy p = return_value_policy::automatic_reference, handle parent = handle())
{
    if (p == return_value_policy::automatic) p = std::is_lvalue_reference_v<T> ? return_value_policy::copy : return_value_policy::move;
    else if (p == return_value_policy::automatic_reference) p = std::is_lvalue_reference_v<T> ? return_value_policy::copy : return_value_policy::move;
    if (p == return_value_policy::move && !std::is_lvalue_reference_v<T>) p = return_value_policy::automatic;
    return object(handle(out_box(std::forward<T>(v), p, parent.b)));
}
template <class... A> tuple make_tuple(A &&...a)
{
    pv::Box *b = pv::seq(pv::Tuple, sizeof...(A));
    (pv::push(b, out_box(std::forward<A>(a), return_value_policy::copy)), ...);
    return tuple(handle(b));
}
inline size_t len(handle h) { return pv::len(h.b); }
inline str repr(handle) { hj_undecided("py::repr"); return str(); }
inline void print() {}

// ------------------------------------------------------------ functions
namespace pv
{
template <class F, class R, class... A> struct Impl : Thunk
{
    F f;
    template <class G> explicit Impl(G &&g) : f(std::forward<G>(g)) {}
    Box *call(Box **a, const bool *convert, return_value_policy p, Box *parent) override { return go(a, convert, p, parent, std::index_sequence_for<A...>{}); }
    template <std::size_t... I> Box *go(Box **a, const bool *convert, return_value_policy p, Box *parent, std::index_sequence<I...>)
    {
        std::tuple<In<intrinsic<A>>...> in;
        (void)a; (void)convert;
        if (!(std::get<I>(in).load(a[I], convert[I]) && ... && true)) return nullptr;
        if constexpr (std::is_void_v<R>)
        {
            f(std::get<I>(in).template pass<A>()...);
            return mknone();
        }
        else return out_box(static_cast<R &&>(f(std::get<I>(in).template pass<A>()...)), p, parent);
    }
};
template <class T> struct sig : sig<decltype(&T::operator())> {};
template <class C, class R, class... A> struct sig<R (C::*)(A...)> { using type = R(A...); };
template <class C, class R, class... A> struct sig<R (C::*)(A...) const> { using type = R(A...); };
template <class C, class R, class... A> struct sig<R (C::*)(A...) noexcept> { using type = R(A...); };
template <class C, class R, class... A> struct sig<R (C::*)(A...) const noexcept> { using type = R(A...); };
template <class F, class R, class... A> Thunk *build(F &&f, R (*)(A...), int &n)
{
    n = sizeof...(A);
    return new Impl<std::decay_t<F>, R, A...>(std::forward<F>(f));
}
template <class R, class... A> Thunk *thunk(R (*f)(A...), int &n) { return build(f, (R(*)(A...)) nullptr, n); }
template <class C, class R, class... A> Thunk *thunk(R (C::*f)(A...), int &n) { return build([f](C *c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, (R(*)(C *, A...)) nullptr, n); }
template <class C, class R, class... A> Thunk *thunk(R (C::*f)(A...) const, int &n) { return build([f](const C *c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, (R(*)(const C *, A...)) nullptr, n); }
template <class F, class = std::enable_if_t<std::is_class_v<std::decay_t<F>>>> Thunk *thunk(F &&f, int &n) { return build(std::forward<F>(f), (typename sig<std::decay_t<F>>::type *)nullptr, n); }
// a member function of a base used through T
template <class T, class F> decltype(auto) adapt(F &&f) { return std::forward<F>(f); }
template <class T, class C, class R, class... A> auto adapt(R (C::*f)(A...)) -> R (T::*)(A...) { return f; }
template <class T, class C, class R, class... A> auto adapt(R (C::*f)(A...) const) -> R (T::*)(A...) const { return f; }

inline Rec *attribute(Class *c, const char *name)
{
    for (Rec *r = c->first; r; r = r->sibling)
        if (same(r->name, name)) return r;
    return nullptr;
}
inline void attach(Class *c, Rec *r)
{
    Rec *o = attribute(c, r->name);
    bool fn = r->kind == Method || r->kind == Static;
    if (o && fn && (o->kind == Method || o->kind == Static))
    {
        if (o->kind != r->kind) pybind11_fail("overloading a method with both static and instance methods is not supported");
        while (o->next) o = o->next;
        o->next = r;
        return;
    }
    if (o)
    {
        // replaces the attribute
        Rec *s = o->sibling;
        if (c->first == o) c->first = r;
        else
        {
            Rec *q = c->first;
            while (q->sibling != o) q = q->sibling;
            q->sibling = r;
        }
        r->sibling = s;
        if (c->last == o) c->last = r;
        return;
    }
    if (c->last) c->last->sibling = r;
    else c->first = r;
    c->last = r;
}
template <class... X> Rec *record(RK kind, const char *name, Thunk *fn, int nparams, Class *cls, const X &...x)
{
    Rec *r = new Rec;
    r->kind = kind;
    r->name = name;
    r->fn = fn;
    r->nparams = nparams;
    r->cls = cls;
    r->has_self = kind == Method;
    (set(r, x), ...);
    return r;
}

// one overload: how many arguments fit; nullptr: next overload
inline Box *attempt(Rec *r, Box **pos, long npos, Box *kw, bool convert, Box *self, bool &fits)
{
    fits = false;
    long extra = r->init ? 0 : 0;
    (void)extra;
    if (npos > r->nparams) return nullptr;
    if (npos < r->nparams && r->nargs < r->nparams) return nullptr;
    Box *a[MaxArgs];
    bool cv[MaxArgs];
    long used = 0, n = 0;
    for (; n < npos; n++)
    {
        if (n < r->nargs && kw && r->a[n].name && get(kw, r->a[n].name)) return nullptr; // given twice
        if (n < r->nargs && !r->a[n].none && pos[n]->k == None) return nullptr;
        a[n] = pos[n];
        cv[n] = n < r->nargs ? r->a[n].convert : true;
    }
    for (; n < r->nparams; n++)
    {
        Box *v = kw && r->a[n].name ? get(kw, r->a[n].name) : nullptr;
        if (v) used++;
        else v = r->a[n].value;
        if (!v) return nullptr;
        a[n] = v;
        cv[n] = r->a[n].convert;
    }
    if (kw && used < kw->i / 2) return nullptr; // unknown keyword
    fits = true;
    if (!convert)
        for (long k = 0; k < n; k++) cv[k] = false;
    Box *res = r->fn->call(a, cv, r->policy, self);
    if (res && r->keep[0] >= 0)
    {
        Box *nurse = r->keep[0] == 0 ? res : a[r->keep[0] - 1];
        Box *patient = r->keep[1] == 0 ? res : a[r->keep[1] - 1];
        nurse->base = patient;
    }
    return res;
}
// the dispatcher: first without, then with implicit conversions
inline Box *dispatch(Rec *first, Box **pos, long npos, Box *kw, Box *self)
{
    bool overloaded = first->next != nullptr;
    bool fits;
    if (overloaded)
        for (Rec *r = first; r; r = r->next)
            if (Box *b = attempt(r, pos, npos, kw, false, self, fits)) return b;
    for (Rec *r = first; r; r = r->next)
        if (Box *b = attempt(r, pos, npos, kw, true, self, fits)) return b;
    if (first->op) return make(NotImpl);
    throw type_error("incompatible function arguments");
}
}

template <class... A> struct overload_cast_impl
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const noexcept { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const noexcept { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const noexcept { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};

// a callable as an object
class cpp_function : public function
{
public:
    template <class F, class... X> cpp_function(F &&f, const X &...x) : function(pv::make(pv::Func))
    {
        int n;
        pv::Thunk *t = pv::thunk(std::forward<F>(f), n);
        b->fn = pv::record(pv::Plain, "", t, n, nullptr, x...);
    }
};

// ------------------------------------------------------------ constructors
namespace pv
{
template <class T, class... A> struct InitImpl : Thunk
{
    Box *call(Box **a, const bool *convert, return_value_policy, Box *) override { return go(a, convert, std::index_sequence_for<A...>{}); }
    template <std::size_t... I> Box *go(Box **a, const bool *convert, std::index_sequence<I...>)
    {
        std::tuple<In<intrinsic<A>>...> in;
        (void)a; (void)convert;
        if (!(std::get<I>(in).load(a[I], convert[I]) && ... && true)) return nullptr;
        T *p;
        if constexpr (std::is_constructible_v<T, A...>) p = new T(std::get<I>(in).template pass<A>()...);
        else p = new T{std::get<I>(in).template pass<A>()...};
        return mkobj(p, find(tid<T>()));
    }
};
template <class T, class F, class R, class... A> struct FactoryImpl : Thunk
{
    F f;
    template <class G> explicit FactoryImpl(G &&g) : f(std::forward<G>(g)) {}
    Box *call(Box **a, const bool *convert, return_value_policy, Box *) override { return go(a, convert, std::index_sequence_for<A...>{}); }
    template <std::size_t... I> Box *go(Box **a, const bool *convert, std::index_sequence<I...>)
    {
        std::tuple<In<intrinsic<A>>...> in;
        (void)a; (void)convert;
        if (!(std::get<I>(in).load(a[I], convert[I]) && ... && true)) return nullptr;
        if constexpr (std::is_pointer_v<R>) return mkobj(f(std::get<I>(in).template pass<A>()...), find(tid<T>()));
        else if constexpr (std::is_same_v<std::decay_t<R>, T>) return mkobj(new T(f(std::get<I>(in).template pass<A>()...)), find(tid<T>()));
        else return mkobj(f(std::get<I>(in).template pass<A>()...).release(), find(tid<T>()));
    }
};
template <class T, class F, class R, class... A> Thunk *factory(F &&f, R (*)(A...), int &n)
{
    n = sizeof...(A);
    return new FactoryImpl<T, std::decay_t<F>, R, A...>(std::forward<F>(f));
}
}
template <class... A> struct init_t
{
    template <class T> pv::Thunk *make(int &n) const { n = sizeof...(A); return new pv::InitImpl<T, A...>; }
};
template <class F> struct init_f
{
    F f;
    template <class T> pv::Thunk *make(int &n) const
    {
        if constexpr (std::is_class_v<F>) return pv::factory<T>(f, (typename pv::sig<F>::type *)nullptr, n);
        else return pv::factory<T>(f, f, n);
    }
};
template <class... A> init_t<A...> init() { return {}; }
template <class F> init_f<std::decay_t<F>> init(F &&f) { return {std::forward<F>(f)}; }
template <class G, class S> struct pickle_t { G get; S set; };
template <class G, class S> pickle_t<std::decay_t<G>, std::decay_t<S>> pickle(G &&g, S &&s) { return {std::forward<G>(g), std::forward<S>(s)}; }

// ------------------------------------------------------------ operators
namespace detail
{
struct self_t {};
template <class L, class R> struct op_ { const char *fwd, *rev; int code; };
struct undefined_t {};
}
static const detail::self_t self = detail::self_t{};
enum : int { HJ_FWD, HJ_REV, HJ_UN, HJ_IP };
template <class E> struct op_reg { const char *n; int mode; };
#define HJ_BIN(id, rid, op) \
    namespace detail { \
    struct e_##id##_ss { template <class T> static auto thunk(int &n) { return pv::thunk([](const T &l, const T &r) { return l op r; }, n); } }; \
    template <class R> struct e_##id##_sr { template <class T> static auto thunk(int &n) { return pv::thunk([](const T &l, const R &r) { return l op r; }, n); } }; \
    template <class L> struct e_##id##_ls { template <class T> static auto thunk(int &n) { return pv::thunk([](const T &r, const L &l) { return l op r; }, n); } }; \
    inline op_reg<e_##id##_ss> operator op(const self_t &, const self_t &) { return {"__" #id "__", 0}; } \
    template <class R> op_reg<e_##id##_sr<R>> operator op(const self_t &, const R &) { return {"__" #id "__", 0}; } \
    template <class L> op_reg<e_##id##_ls<L>> operator op(const L &, const self_t &) { return {"__" #rid "__", 0}; } \
    }
#define HJ_INP(id, op) \
    namespace detail { \
    struct e_##id##_ss { template <class T> static auto thunk(int &n) { return pv::thunk([](T &l, const T &r) -> decltype(l op r) { return l op r; }, n); } }; \
    template <class R> struct e_##id##_sr { template <class T> static auto thunk(int &n) { return pv::thunk([](T &l, const R &r) -> decltype(l op r) { return l op r; }, n); } }; \
    inline op_reg<e_##id##_ss> operator op(const self_t &, const self_t &) { return {"__" #id "__", 0}; } \
    template <class R> op_reg<e_##id##_sr<R>> operator op(const self_t &, const R &) { return {"__" #id "__", 0}; } \
    }
#define HJ_UNA(id, op) \
    namespace detail { \
    struct e_##id { template <class T> static auto thunk(int &n) { return pv::thunk([](const T &l) { return op l; }, n); } }; \
    inline op_reg<e_##id> operator op(const self_t &) { return {"__" #id "__", 0}; } \
    }
HJ_BIN(sub, rsub, -) HJ_BIN(add, radd, +) HJ_BIN(mul, rmul, *) HJ_BIN(truediv, rtruediv, /) HJ_BIN(mod, rmod, %)
HJ_BIN(gt, lt, >) HJ_BIN(ge, le, >=) HJ_BIN(lt, gt, <) HJ_BIN(le, ge, <=) HJ_BIN(eq, eq, ==) HJ_BIN(ne, ne, !=)
HJ_INP(iadd, +=) HJ_INP(isub, -=) HJ_INP(imul, *=) HJ_INP(itruediv, /=)
HJ_UNA(neg, -) HJ_UNA(pos, +)

// ------------------------------------------------------------ modules and classes
namespace pv
{
struct Extend : Thunk
{
    Box *l;
    Box *call(Box **a, const bool *, return_value_policy, Box *) override
    {
        for (long k = 0; k < len(a[0]); k++) push(l, item(a[0], k));
        return mknone();
    }
};
struct Append : Thunk
{
    Box *l;
    Box *call(Box **a, const bool *, return_value_policy, Box *) override { push(l, a[0]); return mknone(); }
};
template <class M> Box *list_method(Box *l, const char *name)
{
    M *m = new M;
    m->l = l;
    Box *f = make(Func);
    f->fn = record(Plain, name, m, 1, nullptr);
    return f;
}
// expressions over imported modules and evaluated code, kept as text
struct Text
{
    char *s = new char[256];
    long n = 0, cap = 256;
    void put(const char *t) { put(t, clen(t)); }
    void put(const char *t, long m)
    {
        if (n + m + 1 > cap)
        {
            cap = 2 * (n + m + 1);
            char *q = new char[cap];
            for (long k = 0; k < n; k++) q[k] = s[k];
            s = q;
        }
        for (long k = 0; k < m; k++) s[n + k] = t[k];
        n += m;
    }
};
inline Box *expression(Text &t)
{
    Box *b = of(t.s, t.n);
    b->k = Other;
    return b;
}
inline void text(Text &t, Box *b)
{
    switch (b->k)
    {
    case None: t.put("None"); break;
    case Bool: t.put(b->i ? "True" : "False"); break;
    case Int:
    {
        long v = b->i;
        if (v < 0) { t.put("-"); v = -v; }
        char d[24];
        long k = 24;
        do { d[--k] = char('0' + v % 10); v /= 10; } while (v);
        t.put(d + k, 24 - k);
        break;
    }
    case Str: t.put("'"); t.put(b->s, b->i); t.put("'"); break;
    case List: case Tuple:
        t.put(b->k == List ? "[" : "(");
        for (long k = 0; k < b->i; k++) { text(t, b->e[k]); t.put(","); }
        t.put(b->k == List ? "]" : ")");
        break;
    case Other: t.put("("); t.put(b->s, b->i); t.put(")"); break;
    case Module: t.put(b->s ? b->s : "module"); break;
    default: t.put("unknown()"); break;
    }
}
inline Box *getattr(Box *o, const char *name)
{
    if (o->attrs)
        if (Box *b = get(o->attrs, name)) return b;
    if ((o->k == Module && o->s) || o->k == Other)
    {
        // a name of an imported module: kept as text for the analysis
        Text t;
        text(t, o);
        t.put(".");
        t.put(name);
        return expression(t);
    }
    if (o->k == List && same(name, "extend")) return list_method<Extend>(o, name);
    if (o->k == List && same(name, "append")) return list_method<Append>(o, name);
    if ((o->k == Obj || o->k == Type) && o->c)
        if (Rec *r = attribute(o->c, name))
        {
            if (r->kind == StaticProperty) { Box *t = o->c->type; return dispatch(r, &t, 1, nullptr, t); }
            if (o->k == Obj && r->kind == Property) return dispatch(r, &o, 1, nullptr, o);
            Box *f = make(Func);
            f->fn = r;
            if (o->k == Obj && r->kind == Method) f->self = o;
            return f;
        }
    return nullptr;
}
inline Box *invoke(Box *f, Box **a, long n, Box *kw)
{
    if (f->k == Type)
    {
        Rec *r = attribute(f->c, "__init__");
        if (!r) throw type_error("No constructor defined!");
        return dispatch(r, a, n, kw, nullptr);
    }
    if (f->k == Other)
    {
        Text t;
        text(t, f);
        t.put("(");
        for (long k = 0; k < n; k++) { text(t, a[k]); t.put(","); }
        if (kw)
            for (long k = 0; k < kw->i; k += 2)
            {
                t.put(kw->e[k]->s);
                t.put("=");
                text(t, kw->e[k + 1]);
                t.put(",");
            }
        t.put(")");
        return expression(t);
    }
    if (f->k != Func) { hj_undecided("call of a modelled object"); return mknone(); }
    if (f->self)
    {
        Box *x[MaxArgs];
        x[0] = f->self;
        for (long k = 0; k < n; k++) x[k + 1] = a[k];
        return dispatch(f->fn, x, n + 1, kw, f->self);
    }
    return dispatch(f->fn, a, n, kw, n ? a[0] : nullptr);
}
}
inline attr_accessor handle::attr(const char *name) const { return {b, name, pv::getattr(b, name)}; }
template <class... A> object handle::operator()(A &&...a) const
{
    pv::Box *x[sizeof...(A) + 1];
    long n = 0;
    pv::Box *kw = nullptr;
    auto one = [&](auto &&y) {
        if constexpr (std::is_same_v<std::decay_t<decltype(y)>, arg_v>)
        {
            if (!kw) kw = pv::seq(pv::Dict, 4);
            pv::put(kw, y.name, y.value);
        }
        else x[n++] = out_box(std::forward<decltype(y)>(y));
    };
    (one(std::forward<A>(a)), ...);
    return object(handle(pv::invoke(b, x, n, kw)));
}
inline bool hasattr(handle h, const char *name) { return pv::getattr(h.b, name); }
inline object getattr(handle h, const char *name) { return object(handle(pv::getattr(h.b, name))); }

class module_ : public object
{
public:
    using object::object;
    str hj_doc;
    explicit module_(const char *, const char * = nullptr) : object(pv::make(pv::Module)) { b->attrs = pv::seq(pv::Dict, 0); }
    module_() : module_("") {}
    static module_ import(const char *n)
    {
        module_ m;
        pv::put(m.b->attrs, "__name__", pv::of(n));
        m.b->s = pv::of(n)->s;
        return m;
    }
    str &doc() { return hj_doc; }
    template <class F, class... X> module_ &def(const char *name, F &&f, const X &...x)
    {
        int n;
        pv::Thunk *t = pv::thunk(std::forward<F>(f), n);
        pv::Rec *r = pv::record(pv::Plain, name, t, n, nullptr, x...);
        pv::Box *o = pv::get(b->attrs, name);
        if (o && o->k == pv::Func)
        {
            pv::Rec *l = o->fn;
            while (l->next) l = l->next;
            l->next = r;
        }
        else
        {
            pv::Box *fb = pv::make(pv::Func);
            fb->fn = r;
            pv::put(b->attrs, name, fb);
        }
        return *this;
    }
    module_ def_submodule(const char *name, const char * = nullptr)
    {
        module_ m;
        pv::put(b->attrs, name, m.b);
        return m;
    }
    void add_object(const char *name, handle o, bool = false) { pv::put(b->attrs, name, o.b); }
};
using module = module_;

template <class T, class... O> class class_ : public object
{
    pv::Class *c;

public:
    template <class... X> class_(handle scope, const char *name, const X &...) : object(pv::make(pv::Type))
    {
        if (pv::find(pv::tid<T>())) pybind11_fail("generic_type: type is already registered");
        if (pv::get(scope.b->attrs, name)) pybind11_fail("generic_type: an object with that name is already defined");
        c = new pv::Class;
        pv::Box *s = pv::of(name);
        c->name = s->s;
        c->id = pv::tid<T>();
        c->type = b;
        c->destroy = [](void *p) { delete static_cast<T *>(p); };
        b->c = c;
        c->next = pv::classes;
        pv::classes = c;
        pv::put(scope.b->attrs, name, b);
    }
    template <class F, class... X> class_ &def(const char *name, F &&f, const X &...x)
    {
        int n;
        pv::Thunk *t = pv::thunk(pv::adapt<T>(std::forward<F>(f)), n);
        pv::attach(c, pv::record(pv::Method, name, t, n, c, x...));
        return *this;
    }
    template <class F, class... X> class_ &def_static(const char *name, F &&f, const X &...x)
    {
        int n;
        pv::Thunk *t = pv::thunk(std::forward<F>(f), n);
        pv::attach(c, pv::record(pv::Static, name, t, n, c, x...));
        return *this;
    }
    template <class E, class... X> class_ &def(const op_reg<E> &o, const X &...x)
    {
        int n;
        pv::Thunk *t = E::template thunk<T>(n);
        pv::attach(c, pv::record(pv::Method, o.n, t, n, c, is_operator(), x...));
        return *this;
    }
    template <class E, class... X> class_ &def_cast(const op_reg<E> &o, const X &...x) { return def(o, x...); }
    template <class... A, class... X> class_ &def(const init_t<A...> &i, const X &...x) { return constructor(i, x...); }
    template <class F, class... X> class_ &def(init_f<F> &&i, const X &...x) { return constructor(i, x...); }
    template <class F, class... X> class_ &def(const init_f<F> &i, const X &...x) { return constructor(i, x...); }
    template <class I, class... X> class_ &constructor(const I &i, const X &...x)
    {
        int n;
        pv::Thunk *t = i.template make<T>(n);
        // the arguments do not count self here
        pv::Rec *r = pv::record(pv::Static, "__init__", t, n, c, x...);
        r->init = true;
        pv::attach(c, r);
        return *this;
    }
    template <class G, class S, class... X> class_ &def(pickle_t<G, S> &&p, const X &...x)
    {
        def("__getstate__", std::move(p.get));
        int n;
        pv::Thunk *t = pv::factory<T>(p.set, (typename pv::sig<S>::type *)nullptr, n);
        pv::Rec *r = pv::record(pv::Static, "__setstate__", t, n, c, x...);
        r->init = true;
        pv::attach(c, r);
        return *this;
    }
    template <class G, class... X> class_ &property(pv::RK k, const char *name, G &&g, const X &...x)
    {
        int n;
        pv::Thunk *t = pv::thunk(pv::adapt<T>(std::forward<G>(g)), n);
        pv::attach(c, pv::record(k, name, t, n, c, x...));
        return *this;
    }
    template <class G, class... X> class_ &def_property_readonly(const char *name, const G &g, const X &...x)
    {
        if constexpr (std::is_base_of_v<cpp_function, G>) return property_f(pv::Property, name, g, x...);
        else return property(pv::Property, name, g, return_value_policy::reference_internal, x...);
    }
    template <class... X> class_ &property_f(pv::RK k, const char *name, const cpp_function &g, const X &...x)
    {
        pv::Rec *r = pv::record(k, name, g.b->fn->fn, g.b->fn->nparams, c, x...);
        r->policy = g.b->fn->policy;
        r->keep[0] = g.b->fn->keep[0];
        r->keep[1] = g.b->fn->keep[1];
        pv::attach(c, r);
        return *this;
    }
    template <class G, class... X> class_ &def_property_readonly_static(const char *name, const G &g, const X &...x)
    {
        if constexpr (std::is_base_of_v<cpp_function, G>) return property_f(pv::StaticProperty, name, g, x...);
        else return property(pv::StaticProperty, name, g, return_value_policy::reference, x...);
    }
    template <class G, class S, class... X> class_ &def_property(const char *name, const G &g, const S &s, const X &...x)
    {
        def_property_readonly(name, g, x...);
        if constexpr (!std::is_same_v<S, std::nullptr_t>)
        {
            int n;
            pv::attribute(c, name)->set = pv::thunk(pv::adapt<T>(s), n);
        }
        return *this;
    }
    template <class C, class D, class... X> class_ &def_readonly(const char *name, const D C::*pm, const X &...x)
    {
        return def_property_readonly(name, [pm](const T &t) -> const D & { return t.*pm; }, x...);
    }
    template <class C, class D, class... X> class_ &def_readwrite(const char *name, D C::*pm, const X &...x)
    {
        return def_property(name, [pm](const T &t) -> const D & { return t.*pm; }, [pm](T &t, const D &v) { t.*pm = v; }, x...);
    }
};
template <class A, class B> void implicitly_convertible()
{
    pv::Class *c = pv::find(pv::tid<B>());
    if (!c) pybind11_fail("implicitly_convertible: Unable to find type");
    if (c->nimplicit == 8) { hj_undecided("many implicit conversions"); return; }
    c->implicit[c->nimplicit++] = [](pv::Box *b) -> pv::Box * {
        static bool used = false; // non-reentrant
        if (used) return nullptr;
        pv::In<A> in;
        if (!in.load(b, false)) return nullptr;
        used = true;
        pv::Box *r = nullptr;
        try { r = pv::invoke(pv::find(pv::tid<B>())->type, &b, 1, nullptr); }
        catch (...) {}
        used = false;
        return r;
    };
}

// text of evaluated Python code, kept for the analysis
inline object eval(const str &e, object global = object())
{
    pv::Box *b = pv::make(pv::Other);
    b->s = e.b->s;
    b->i = e.b->i;
    b->base = global.b;
    return object(handle(b));
}
inline object eval(const str &e, object global, object) { return eval(e, global); }
namespace pv { inline bool executed = false; }
inline void exec(const str &, object = object(), object = object()) { pv::executed = true; }
inline dict globals() { return dict(); }
} // namespace pybind11
namespace py = pybind11;

#define PYBIND11_MODULE(name, variable, ...) void hj_module_init(::pybind11::module_ &variable)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_OVERRIDE(...)
