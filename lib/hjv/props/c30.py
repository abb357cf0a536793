"""Compile and compile-fail witnesses, and the linkage of what the header emits."""
from ..check import *
from .. import build, spec
from concurrent.futures import ThreadPoolExecutor
import subprocess

UN = ["sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log", "log2", "log10", "abs"]


def members(kind, order, size, eigen):
    """(name, statements) of the public interface; a, b, c: const T&, x: T&,
    s: S.  kind: 'd' dense, 's' sparse; size None: run-time sized."""
    r = []
    def m(name, code): r.append((name, code))
    def ty(name, e, t="T"): r.append((name, "static_assert(std::is_same_v<std::decay_t<decltype(%s)>, %s>); (void)(%s);" % (e, t, e)))
    for f in UN:
        ty("member " + f, "a.%s()" % f)
        ty("function " + f, "%s(a)" % f)
        ty("qualified " + f, "hyperjet::%s(a)" % f)
        r.append(("beside std::" + f, "using std::%s; T r = %s(a); S q = %s(s); (void)r; (void)q;" % (f, f, f)))
    ty("reciprocal", "a.reciprocal()")
    ty("log to a base", "a.log(s)")
    for e in ("s", "2", "2L", "0.5", "3u", "-1", "1.5f"):
        ty("a.pow(%s)" % e, "a.pow(%s)" % e)
        ty("pow(a, %s)" % e, "pow(a, %s)" % e)
        ty("hyperjet::pow(a, %s)" % e, "hyperjet::pow(a, %s)" % e)
        m("pow(a, %s) beside std::pow" % e, "using std::pow; T r = pow(a, %s); auto q = pow(s, 2); (void)r; (void)q;" % e)
    for f in ("a.atan2(b)", "atan2(a, b)", "hyperjet::atan2(a, b)", "T::hypot(a, b)", "hypot(a, b)", "hyperjet::hypot(a, b)", "T::hypot(a, b, c)", "hypot(a, b, c)", "hyperjet::hypot(a, b, c)"): ty(f, f)
    m("hypot beside std::hypot", "using std::hypot; using std::atan2; T r = hypot(a, b); r = hypot(a, b, c); r = atan2(a, b); S q = hypot(s, s); (void)q;")
    for o in "+-*/":
        for e in ("a %s b", "a %s s", "s %s a", "a %s 2", "2 %s a", "a %s 0.5", "0.5 %s a", "T(a) %s T(b)", "(a %s b).f()"):
            ty(e % o, e % o, "S" if ".f" in e else "T")
        for e in ("b", "s", "2", "0.5", "x", "x.f()"):
            m("x %s= %s" % (o, e), "T &y = (x %s= %s); (void)y;" % (o, e))
    ty("-a", "-a")
    for o in ("==", "!=", "<", ">", "<=", ">="):
        for e in ("a %s b", "a %s s", "s %s a", "a %s 1", "0 %s a", "a %s 0.5"):
            ty(e % o, e % o, "bool")
    ty("f()", "a.f()", "S")
    ty("size()", "a.size()", "hyperjet::index")
    m("copy", "T q(a); T p = q; T w(std::move(q)); p = w; q = std::move(w); std::swap(p, q); static_assert(std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T> && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>);")
    m("containers", "std::vector<T> v; v.push_back(a); v.insert(v.begin(), b); v.pop_back(); std::vector<T> w = v; v = w;")
    m("stream", "std::ostringstream o; o << a << \" \" << x; std::ostream &q = (o << b); (void)q;")
    m("to_string", "std::string t = x.to_string(); T q(a); (void)q.to_string();")
    m("default constructor", "T q; (void)q;")
    m("from a value", "T q(s); (void)q;")
    ty("constant(s)", "T::constant(s)")
    m("nested types", "static_assert(std::is_same_v<typename T::Scalar, S>); typename T::Data d{}; (void)d; static_assert(std::is_same_v<typename T::Type, T>);" if kind == "d" else "static_assert(std::is_same_v<typename T::Scalar, S>); typename T::Data d{}; (void)d;")
    if kind == "s":
        ty("variable", "T::variable(\"x\", s)")
        m("constructor with derivatives", "typename T::Data d; d[\"x\"] = s; T q(s, d); (void)q;")
        ty("d(name)", "a.d(\"x\")", "S")
        m("eval", "typename T::Data d; d[\"x\"] = s; S q = a.eval(d); (void)q; (void)a.eval({{\"x\", s}});")
        return r
    dyn = size is None
    n = "3" if dyn else str(size)
    L = spec.comps(order, 3 if dyn else size)
    m("order()", "static_assert(T::order() == %d);" % order)
    m("is_dynamic()", "static_assert(T::is_dynamic() == %s);" % str(dyn).lower())
    m("static_size()", "static_assert(T::static_size() == %d);" % (-1 if dyn else size))
    ty("data_length()", "a.data_length()", "hyperjet::index")
    m("conversions of counts", "hyperjet::index i = T::data_length_from_size(%s), j = T::size_from_data_length(%d); (void)i; (void)j;" % (n, L))
    m("data()", "const typename T::Data &d = a.data(); typename T::Data &e = x.data(); e = d; static_assert(std::is_same_v<typename T::Data, %s>);" % ("std::vector<S>" if dyn else "std::array<S, %d>" % L))
    m("ptr()", "const S *p = a.ptr(); S *q = x.ptr(); *q = *p;")
    m("public storage", "static_assert(std::is_same_v<decltype(x.m_size), hyperjet::index>); x.m_data[0] = a.m_data[0];")
    m("set_f", "x.f() = s; x.set_f(s);")
    m("g", "S v = a.g(0); x.g(0) = v; x.set_g(0, v);")
    if order == 2:
        m("h(i)", "S v = a.h(0); x.h(0) = v; x.set_h(0, v);")
        m("h(i, j)", "S v = a.h(0, 0); x.h(0, 0) = v; x.set_h(0, 0, v);")
    m("set_zero", "x.set_zero();")
    ty("create", "T::create(a.data())")
    ty("empty()", "T::empty()")
    ty("empty(n)", "T::empty(%s)" % n)
    ty("zero()", "T::zero()")
    ty("zero(n)", "T::zero(%s)" % n)
    ty("constant(s, n)", "T::constant(s, %s)" % n)
    ty("variable(i, s, n)", "T::variable(0, s, %s)" % n)
    if not dyn: ty("variable(i, s)", "T::variable(0, s)")
    m("variables(vector)", "std::vector<S> w(%s); std::vector<T> v = T::variables(w);" % n)
    if dyn: m("variables(array)", "std::array<S, 3> w{}; std::vector<T> v = T::template variables<3>(w);")
    else: m("variables(array)", "std::array<S, %s> w{}; auto v = T::template variables<%s>(w); static_assert(std::is_same_v<decltype(v), std::array<T, %s>>);" % (n, n, n))
    if not dyn: m("from components", "T q(a.data()); (void)q;")
    if L > 1: m("from a list", "T q{%s}; (void)q;" % ", ".join(["s"] * L))
    if dyn:
        m("resize", "x.resize(4);")
        ty("pad_left", "a.pad_left(4)")
        ty("pad_right", "a.pad_right(4)")
        m("components and size", "T q(a.data(), 3); (void)q;")
    if eigen:
        m("Eigen types", "static_assert(T::Vector::RowsAtCompileTime == 1 && T::Vector::ColsAtCompileTime == %d && T::Matrix::RowsAtCompileTime == %d && T::Matrix::ColsAtCompileTime == %d);" % ((-1,) * 3 if dyn else (size,) * 3))
        m("ag", "auto g = a.ag(); auto h = x.ag(); h = g; x.ag().setConstant(s);")
        m("adata", "auto d = x.adata(); d(0) = s; x.set_adata(d); x.adata().setConstant(s);")
        m("eval", "%s S v = a.eval(d); (void)v;" % ("std::vector<S> d(3);" if dyn else "std::array<S, %s> d{};" % n))
        if order == 1: m("from_gradient", "T q = T::from_gradient(s, a.ag());")
        else:
            m("hm", "typename T::Matrix h = a.hm(\"full\"); h = x.hm(\"zeros\"); a.hm(\"full\", h); x.set_hm(h);")
            m("from_arrays", "T q = T::from_arrays(s, a.ag(), a.hm(\"full\"));")
        m("Eigen scalar", "using V = Eigen::Matrix<T, 3, 1>; using X = Eigen::Matrix<T, -1, -1>; V v = V::Constant(a), w = v + v; w = v - w; w = v * s; w = s * v; w = v * a; w = a * v; w /= a; w = v / s; T d = v.dot(w); d = v.norm(); d = v.squaredNorm(); w = v.cross(w); X m = v * v.transpose(); m = m * m; w = v.cwiseProduct(w); d = m.sum(); d = m.trace(); V z = Eigen::Matrix<S, 3, 1>(s, s, s).template cast<T>(); z = -z;")
        m("Eigen traits", "using N = Eigen::NumTraits<T>; static_assert(!N::IsComplex && !N::IsInteger && N::IsSigned && N::RequireInitialization); static_assert(std::is_same_v<typename N::Real, T> && std::is_same_v<typename N::NonInteger, T> && std::is_same_v<typename N::Nested, T>); static_assert(int(N::ReadCost) >= 1 && int(N::AddCost) >= 1 && int(N::MulCost) >= 1); auto e = N::epsilon(); auto p = N::dummy_precision(); (void)e; (void)p;")
    return r


# what must not compile: the Hessian of a first-order number
MISUSE = [("h(i)", "S v = x.h(0); (void)v;"), ("h(i) const", "S v = a.h(0); (void)v;"), ("h(i, j)", "S v = x.h(0, 0); (void)v;"), ("h(i, j) const", "S v = a.h(0, 0); (void)v;"), ("set_h(i)", "x.set_h(0, s);"), ("set_h(i, j)", "x.set_h(0, 0, s);"),
          ("hm", "auto m = a.hm(\"full\"); (void)m;"), ("hm(out)", "typename T::Matrix m; a.hm(\"full\", m);"), ("set_hm", "typename T::Matrix m; x.set_hm(m);"), ("from_arrays", "T q = T::from_arrays(s, a.ag(), typename T::Matrix()); (void)q;")]

STDHEAD = "#include <array>\n#include <cmath>\n#include <sstream>\n#include <string>\n#include <type_traits>\n#include <utility>\n#include <vector>\n"
EIG = ("-isystem", "/usr/include/eigen3")


def head(eigen):
    # the header comes first: it must not rely on what the user included
    return ("#include <Eigen/Dense>\n" if eigen else "") + "#include <hyperjet/hyperjet.h>\n" + STDHEAD


class Wt:
    def __init__(self, kind, order, size, scalar):
        self.kind, self.order, self.size, self.scalar = kind, order, size, scalar
        self.cpp = "hyperjet::SScalar<%s>" % scalar if kind == "s" else "hyperjet::DDScalar<%d, %s, %s>" % (order, scalar, "hyperjet::Dynamic" if size is None else size)

    def item(self, i, code, tag="w"):
        return "void %s%d(const %s &a, const %s &b, const %s &c, %s &x, const %s s) { using T = %s; using S = %s; (void)a; (void)b; (void)c; (void)x; (void)s; %s }" % (tag, i, self.cpp, self.cpp, self.cpp, self.cpp, self.scalar, self.cpp, self.scalar, code)


def run(chk):
    jobs = []
    few = [Wt("d", o, n, sc) for o in (1, 2) for n in (0, 1, 3, None) for sc in ("double", "float")] + [Wt("s", 1, 0, sc) for sc in ("double", "float")]
    many = [Wt("d", o, n, "double") for o in (1, 2) for n in [*range(0, 17), 20, None]] + [Wt("d", o, n, "float") for o in (1, 2) for n in (0, 2, 3, 7, None)] + [Wt("d", o, n, "long double") for o in (1, 2) for n in (2, None)] + [Wt("s", 1, 0, sc) for sc in ("double", "float", "long double")]
    jobs += [(t, "clang++", "-std=c++17", True) for t in many]
    cfgs = [("g++", "-std=c++17", True), ("g++", "-std=c++20", False), ("clang++", "-std=c++20", True), ("clang++", "-std=c++17", False)]
    if chk.thorough: cfgs = [(c, s, e) for c in ("clang++", "g++") for s in ("-std=c++17", "-std=c++20", "-std=c++2b") for e in (False, True) if (c, s, e) != ("clang++", "-std=c++17", True)]
    jobs += [(t,) + c for t in (many if chk.thorough else few) for c in cfgs]

    def one(j):
        ix, (t, cxx, std, eig) = j
        ms = members(t.kind, t.order, t.size, eig)
        items = [("%s|%d" % (n, i), t.item(i, c)) for i, (n, c) in enumerate(ms)]
        try: return j, items, build.witnesses(head(eig), items, "c30_%d" % ix, EIG if eig else (), cxx, std), None
        except build.CompileError as e: return j, items, {}, e.text
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    for (ix, (t, cxx, std, eig)), items, bad, err in res:
        cfg = "%s %s%s" % (cxx, std, " with Eigen" if eig else "")
        if err:
            e = next((l for l in err.splitlines() if "error:" in l), err[:300])
            chk.fail("public members compile", "%s: the whole interface of %s" % (cfg, t.cpp), e.split(": ")[0], e)
        for k, c in items:
            if err: break
            if k not in bad: chk.ok()
            else: chk.fail("public members compile", "%s of %s (%s)" % (k.split("|")[0], t.cpp, cfg), bad[k].split(": ")[0], "the witness '%s' is rejected: %s" % (c.split("(void)s; ", 1)[-1][:-2], bad[k]))
    chk.extra["witness_units"] = len(jobs)
    misuse(chk)
    contexts(chk)
    linkage(chk)
    chk.rules = ["each public member of each type is accepted and has the documented type", "each use of a first-order Hessian is rejected", "the header compiles first, alone, twice, and before Eigen", "everything the header emits has a linkage that may occur in several units; no other definition collides"]
    chk.entries = len(res)
    chk.expected_min = 5000
    return chk.finish(explanation="One witness function per public member and number type, type-checked by clang++ and g++ in C++17 and C++20 with and without Eigen; compile-fail witnesses (with second-order controls) for first-order Hessians; linkage of all definitions in the emitted IR and object code.")


def misuse(chk):
    ts = [Wt("d", 1, n, sc) for n, sc in ((0, "double"), (1, "double"), (3, "double"), (None, "double"), (3, "float"), (16, "double"))]
    jobs = [(t, n, c, cxx) for t in ts for n, c in MISUSE for cxx in ("clang++", "g++") if cxx == "clang++" or (t.size in (3, None) and t.scalar == "double")]
    controls = [(Wt("d", 2, t.size, t.scalar), n, c, "clang++") for t in ts for n, c in MISUSE]

    def one(j):
        ix, (t, n, c, cxx) = j
        e = "hm" in n or "arrays" in n
        return j, build.compiles(head(e) + t.item(0, c), "c30m_%d" % ix, EIG if e else (), cxx)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(jobs + controls)))
    for (ix, (t, n, c, cxx)), (ok, text) in res:
        if t.order == 1:
            if ok: chk.fail("misuse is rejected at compile time", "%s of %s (%s)" % (n, t.cpp, cxx), "include/hyperjet/hyperjet.h", "the program '%s' compiles" % c)
            else: chk.ok()
        elif ok: chk.ok()
        else:
            e = next((l for l in text.splitlines() if "error:" in l), text[:300])
            chk.fail("second-order control of the misuse witnesses compiles", "%s of %s (%s)" % (n, t.cpp, cxx), e.split(": ")[0], e)


CONTEXTS = [("alone", "#include <hyperjet/hyperjet.h>\n", ()), ("twice", "#include <hyperjet/hyperjet.h>\n#include <hyperjet/hyperjet.h>\n", ()), ("after Eigen/Core", "#include <Eigen/Core>\n#include <hyperjet/hyperjet.h>\n", EIG),
            ("after Eigen/Geometry", "#include <Eigen/Geometry>\n#include <hyperjet/hyperjet.h>\n", EIG), ("before Eigen", "#include <hyperjet/hyperjet.h>\n#include <Eigen/Dense>\nhyperjet::DDScalar<2, double, 3> f(hyperjet::DDScalar<2, double, 3> a) { return a * a; }\n", EIG),
            ("beside using namespace std", "#include <cmath>\n#include <vector>\nusing namespace std;\n#include <hyperjet/hyperjet.h>\nhyperjet::DDScalar<2, double, 3> f(hyperjet::DDScalar<2, double, 3> a) { return sin(a) * pow(a, 2) + hypot(a, a); }\n", ()),
            ("beside using namespace hyperjet", "#include <hyperjet/hyperjet.h>\nusing namespace hyperjet;\nDDScalar<1, double, 2> f(DDScalar<1, double, 2> a) { return sin(a) * pow(a, 2) + hypot(a, a); }\n", ()),
            ("after windows-like min/max free code", "#include <algorithm>\n#include <hyperjet/hyperjet.h>\n", ())]


def contexts(chk):
    jobs = [(nm, src, fl, cxx, std, x) for nm, src, fl in CONTEXTS for cxx in ("clang++", "g++") for std in ("-std=c++17", "-std=c++20", "-std=c++2b") for x in ((), ("-DNDEBUG",), ("-O2", "-fno-rtti"))]

    def one(j):
        ix, (nm, src, fl, cxx, std, x) = j
        return j, build.compiles(src, "c30c_%d" % ix, [*fl, *x], cxx, std)
    with ThreadPoolExecutor(8) as ex:
        for (ix, (nm, src, fl, cxx, std, x)), (ok, text) in ex.map(one, enumerate(jobs)):
            if ok: chk.ok()
            else:
                e = next((l for l in text.splitlines() if "error:" in l), text[:300])
                chk.fail("the header compiles in every context", "%s (%s %s %s)" % (nm, cxx, std, " ".join(x)), e.split(": ")[0], e)


def linkage(chk):
    """A unit that uses everything: each definition it emits besides the
    witnesses themselves must be mergeable or local."""
    ts = [Wt("d", 1, 3, "double"), Wt("d", 2, 3, "double"), Wt("d", 1, None, "double"), Wt("d", 2, None, "double"), Wt("d", 2, 0, "float"), Wt("s", 1, 0, "double")]
    jobs = []
    for eig in (False, True):
        # without any use: definitions that are emitted in every unit
        jobs.append((eig, "unused", "#include <%s>\n#include <hyperjet/hyperjet.h>\n" % ("Eigen/Core" if eig else "cstddef")))
        for t in ts: jobs.append((eig, "used", head(eig) + "\n".join(t.item(i, c, "wt_") for i, (n, c) in enumerate(members(t.kind, t.order, t.size, eig))) + "\n"))
    with ThreadPoolExecutor(8) as ex:
        for good, bad in ex.map(one_linkage, enumerate(jobs)):
            chk.ok(good)
            for b in bad: chk.fail("definitions may occur in several units", *b)


MERGEABLE = ("linkonce_odr", "internal", "private", "linkonce", "weak_odr", "available_externally", "appending")


def one_linkage(j):
    ix, (eig, nm, text) = j
    good, bad = 0, []
    cpp = os.path.join(build.work(), "c30l_%d.cpp" % ix)
    with open(cpp, "w") as f: f.write(text)
    fl = ["-std=c++17", "-O0", "-w", *build.INC, *(EIG if eig else ()), cpp, "-o"]
    # a unit that does not compile is reported by the witnesses
    if subprocess.run(["clang++", "-S", "-emit-llvm", *fl, cpp + ".ll"], capture_output=True).returncode == 0:
        for line in open(cpp + ".ll"):
            d = re.match(r"define (?P<q>[^@]*)@\"?(?P<n>[^\s(\"]+)", line) or re.match(r"@\"?(?P<n>[^\s\"]+)\"? = (?P<q>.*)", line)
            if not d: continue
            n, q = d["n"], d["q"].split()
            if n.startswith("llvm.") or q[:1] == ["external"] or re.match(r"_Z\d+wt?_\d", n): continue
            if q and q[0] in MERGEABLE: good += 1
            elif "hyperjet" in n or nm == "unused":
                dm = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
                bad.append(("%s%s" % (dm, " with Eigen" if eig else ""), "include/hyperjet/hyperjet.h", "the header defines %s with external linkage (%s): two units including it do not link" % (dm, " ".join(q[:2]))))
    if subprocess.run(["g++", "-c", *fl, cpp + ".o"], capture_output=True).returncode == 0:
        for line in subprocess.run(["nm", "-C", cpp + ".o"], capture_output=True, text=True).stdout.splitlines():
            m = re.match(r"[0-9a-f]* *(\w) (.*)", line)
            if m and m[1] in "TDBR" and not re.match(r"wt?_\d+\(", m[2]):
                bad.append(("%s%s (g++)" % (m[2], " with Eigen" if eig else ""), "include/hyperjet/hyperjet.h", "the object code defines %s as a strong symbol" % m[2]))
            else: good += 1
    return good, bad
