from ..python import *
from .c16 import ALL
from concurrent.futures import ThreadPoolExecutor

WHEAD = """#include <hyperjet/hyperjet.h>
#include <cmath>
#include <cstdlib>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace w { template <class...> using void_t = void; }
"""
# expression in a value a of type A and b of type B
MIX = [("a + b", "std::declval<A &>() + std::declval<const B &>()"), ("a - b", "std::declval<A &>() - std::declval<const B &>()"), ("a * b", "std::declval<A &>() * std::declval<const B &>()"), ("a / b", "std::declval<A &>() / std::declval<const B &>()"),
       ("a * B(b)", "std::declval<const A &>() * std::declval<B>()"),
       ("a += b", "std::declval<A &>() += std::declval<const B &>()"), ("a -= b", "std::declval<A &>() -= std::declval<const B &>()"), ("a *= b", "std::declval<A &>() *= std::declval<const B &>()"), ("a /= b", "std::declval<A &>() /= std::declval<const B &>()"),
       ("a = b", "std::declval<A &>() = std::declval<const B &>()"), ("a = B(b)", "std::declval<A &>() = std::declval<B>()"),
       ("a == b", "std::declval<const A &>() == std::declval<const B &>()"), ("a != b", "std::declval<const A &>() != std::declval<const B &>()"), ("a < b", "std::declval<const A &>() < std::declval<const B &>()"), ("a >= b", "std::declval<const A &>() >= std::declval<const B &>()"),
       ("a > b", "std::declval<const A &>() > std::declval<const B &>()"), ("a <= b", "std::declval<const A &>() <= std::declval<const B &>()"),
       ("A(b)", "A(std::declval<const B &>())"), ("A{b}", "A{std::declval<const B &>()}"),
       ("a.atan2(b)", "std::declval<const A &>().atan2(std::declval<const B &>())"), ("A::hypot(a, b)", "A::hypot(std::declval<const A &>(), std::declval<const B &>())"), ("A::hypot(a, a, b)", "A::hypot(std::declval<const A &>(), std::declval<const A &>(), std::declval<const B &>())"),
       ("A::hypot(a, b, a)", "A::hypot(std::declval<const A &>(), std::declval<const B &>(), std::declval<const A &>())"),
       ("atan2(a, b)", "atan2(std::declval<const A &>(), std::declval<const B &>())"), ("hypot(a, b)", "hypot(std::declval<const A &>(), std::declval<const B &>())"), ("hypot(a, a, b)", "hypot(std::declval<const A &>(), std::declval<const A &>(), std::declval<const B &>())"), ("hypot(a, b, b)", "hypot(std::declval<const A &>(), std::declval<const B &>(), std::declval<const B &>())"),
       ("pow(a, b)", "pow(std::declval<const A &>(), std::declval<const B &>())"), ("a.pow(b)", "std::declval<const A &>().pow(std::declval<const B &>())"), ("a.log(b)", "std::declval<const A &>().log(std::declval<const B &>())")]
ARI = ["bool", "char", "short", "int", "unsigned", "long", "unsigned long", "long long", "float", "double", "long double", "void *", "const void *"]
# plain values: type, value
PLAIN_ = [("int", "2"), ("int", "-3"), ("int", "0"), ("long", "5"), ("long long", "-1"), ("short", "3"), ("signed char", "-2"), ("unsigned char", "7"), ("unsigned", "3"), ("unsigned long", "4"), ("unsigned long long", "2"), ("unsigned short", "1"), ("float", "0.5f"), ("float", "-2.0f"), ("double", "1.5"), ("double", "-0.25"), ("bool", "true")]
USES = ["a + u", "u + a", "a - u", "u - a", "a * u", "u * a", "a / u", "u / a", "(q += u)", "(q -= u)", "(q *= u)", "(q /= u)", "a.pow(u)", "T(u)", "(q = u)"]
CMPS = ["a == u", "u == a", "a < u", "u < a", "a <= u", "u >= a", "a != u", "u > a"]


def kinds(): return [Ty(1, 2), Ty(2, 2), Ty(2, 3), Ty(1, None), Ty(2, None), Ty(2, 2, "float"), Ty(1, None, "float"), STy(), STy("float")]


def pairs():
    """Ordered pairs of different number types."""
    k = kinds()
    r = [(a, b) for a in k for b in k if a.cpp != b.cpp]
    for o in (1, 2):
        sz = [t.size for t in all_types() if not t.dyn and t.order == o]
        for n in sz:
            r += [(Ty(o, n), Ty(3 - o, n)), (Ty(o, n), Ty(o, None)), (Ty(o, None), Ty(o, n)), (Ty(o, n), Ty(3 - o, None)), (Ty(o, n), STy()), (STy(), Ty(o, n)), (Ty(o, n), Ty(o, n, "float")), (Ty(o, n, "float"), Ty(o, n))]
            if n: r += [(Ty(o, n), Ty(o, n - 1)), (Ty(o, n - 1), Ty(o, n)), (Ty(o, n), Ty(o, 0)), (Ty(o, 0), Ty(o, n))]
    seen, u = set(), []
    for a, b in r:
        if a.cpp != b.cpp and (a.cpp, b.cpp) not in seen:
            seen.add((a.cpp, b.cpp))
            u.append((a, b))
    return u


def mixing(chk):
    full = {(a.cpp, b.cpp) for a in kinds() for b in kinds()}
    head = WHEAD + "".join("template <class A, class B, class = void> struct m%d : std::false_type {}; template <class A, class B> struct m%d<A, B, w::void_t<decltype(%s)>> : std::true_type {};\n" % (i, i, e) for i, (_, e) in enumerate(MIX))
    items, code = [], {}
    for a, b in pairs():
        for i, (txt, e) in enumerate(MIX):
            if (a.cpp, b.cpp) not in full and txt in ("a > b", "a <= b", "a * B(b)", "A::hypot(a, b, a)", "a = B(b)", "a.pow(b)", "a -= b", "a /= b"): continue
            k = "%s with a: %s, b: %s" % (txt, a.cpp, b.cpp)
            A, B = "hyperjet::" + a.cpp, "hyperjet::" + b.cpp
            items.append((k, "static_assert(!m%d<%s, %s>::value);" % (i, A, B)))
            code[k] = "using A = %s; using B = %s; void f(A &a, B &b) { (void)(%s); }" % (A, B, txt)
    conv = [k for k in kinds() + [Ty(o, n) for o in (1, 2) for n in (0, 1, 16)]]
    for a in conv:
        for x in ARI:
            k = "%s x = a with a: %s" % (x, a.cpp)
            items.append((k, "static_assert(!std::is_convertible_v<hyperjet::%s, %s>); static_assert(!std::is_convertible_v<hyperjet::%s &, %s>);" % (a.cpp, x, a.cpp, x)))
            code[k] = "using A = hyperjet::%s; void f(A &a) { %s x = a; (void)x; }" % (a.cpp, x)
        for fn in ("sin", "sqrt", "exp", "fabs", "floor", "isnan"):
            k = "std::%s(a) through a plain value, with a: %s" % (fn, a.cpp)
            items.append((k, "static_assert(!std::is_invocable_v<decltype((double (*)(double))0), hyperjet::%s>);" % a.cpp))
            code[k] = "using A = hyperjet::%s; void f(A &a) { double x = ((double (*)(double))std::%s)(a); (void)x; }" % (a.cpp, fn)
    runs = (("clang++", "-std=c++17"),) + ((("g++", "-std=c++17"), ("clang++", "-std=c++20"), ("g++", "-std=c++20")) if chk.thorough else (("g++", "-std=c++20"),))
    for cc, std in runs:
        bad = {}
        for c in range(0, len(items), 400):
            bad.update(build.witnesses(head, items[c:c + 400], "w36%s%s%d" % (cc[0], std[-2:], c), compiler=cc, std=std))
        # the expression may be well formed only until its body is looked at; a
        # few dozen accepted ones say which declaration lets them in
        n = len(bad)
        few = list(bad)[::max(1, n // 32)][:48]

        def accepted(j):
            ok, text = build.compiles(WHEAD + code[j[1]] + "\n", "x36_%d" % j[0], compiler=cc, std=std)
            return (j[1], origin(code[j[1]], cc, std, j[0])) if ok else None
        with ThreadPoolExecutor(8) as ex: found = [x for x in ex.map(accepted, enumerate(few)) if x]
        if bad and not found and len(few) < n:
            with ThreadPoolExecutor(8) as ex: found = [x for x in ex.map(accepted, enumerate(list(bad)[:400])) if x]
        for k, where in found: chk.fail("numbers of different kinds do not mix", k, where, "%s %s accepts it" % (cc, std))
        chk.ok(n - len(found))
        if found and not chk.thorough:
            chk.ok(len(items) - n)
            break
        chk.ok(len(items) - n)
    chk.units.append("%d witness expressions" % len(items))


def origin(code, cc, std, n=0):
    """The declaration the accepted expression goes to."""
    src = WHEAD + code + "\n"
    f = os.path.join(build.work(), "o36_%d.cpp" % n)
    open(f, "w").write(src)
    r = subprocess.run(["clang++", std, "-w", "-fsyntax-only", *build.INC, "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=f", f], capture_output=True, text=True)
    i = r.stdout.rfind("Dumping f:")
    m = re.findall(r"'(operator\S+|hypot|atan2|pow|log)'|(?:CXXMethod|Function|CXXConversion|CXXConstructor)\w* 0x\w+ '([^']+)'", r.stdout[i:])
    names = [x or y for x, y in m if (x or y) not in ("f",)]
    return "include/hyperjet/hyperjet.h (%s)" % (", ".join(dict.fromkeys(names)) or "the conversion of the operand")


def plain(chk):
    """Plain values of any built-in arithmetic type count as their value."""
    s, q = Suite(chk), SSuite(chk)
    for ty in [Ty(o, n) for o in (1, 2) for n in ((0, 2, 3) + ((1, 4, 8, 16) if chk.thorough else ()))] + [Ty(1, None), Ty(2, None), Ty(2, 2, "float"), STy(), STy("float")]:
        for i, (u, v) in enumerate(PLAIN_):
            code, pr, lab, wb = "", {}, {}, {}
            for j, e in enumerate(USES):
                if v == "0" and "/" in e: continue
                t = 100 + 20 * j
                show = "sout(%d, r, N); sout(%d, w, N);" % (t, t + 10) if isinstance(ty, STy) else "out(%d, r); out(%d, w);" % (t, t + 10)
                f = lambda x: "T q = b; (void)q; T %s = %s;" % (x[0], re.sub(r"\bu\b", x[1], e))
                code += " { T r = [&] { %s return r_; }(); T w = [&] { %s return w_; }(); %s }" % (f(("r_", "u")), f(("w_", "S(u)")), show)
                pr[t] = t + 10
                lab[t] = "%s with u = %s(%s)" % (e.strip("()"), u, v)
            for j, e in enumerate(CMPS):
                t = 1000 + 10 * j
                code += " hj_outb(%d, %s); hj_outb(%d, %s);" % (t, e, t + 1, re.sub(r"\bu\b", "S(u)", e))
            m = dict(name="plain values of type %s with %s" % (u, ty.cpp), scalar=ty.scalar, pairs=pr, label=lab, values={0: spec.POS, STEP: spec.NZ}, bools=[(1000 + 10 * j, 1001 + 10 * j, e) for j, e in enumerate(CMPS)],
                     special=[{0: x} for x in (1, 2, 0.5, 3, 7)], tol=1e-5 if ty.scalar != "double" else 3e-14)
            if isinstance(ty, STy): q.sadd(ty, "plain%d" % i, "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); const %s u = %s;" % (STEP, u, v) + code, m, (3, 6))
            else: s.add(ty, "plain%d" % i, "const T a = jet<T>(0, n); const T b = jet<T>(%d, n); const %s u = %s;" % (STEP, u, v) + code, m, 2)
    s.judge("a plain value counts as its value", plain_problem, kinds=MEMORY)
    q.judge("a plain value counts as its value (sparse)", plain_problem, kinds=MEMORY)


def plain_problem(run, meta):
    p = dict(meta)
    wb = {}
    for t, r, e in meta["bools"]:
        outs = run.out(r)
        if any(o[2] not in "tbi" for o in outs): raise TM.Undecidable("reference comparison without a value")

        def w(P, outs=outs):
            need = TM.cone(run.terms, [o[3] for o in outs if o[2] != "i"])
            v = TM.eval_np(run.terms, P.sym, P.symi, P.shape, np.longdouble, meta["scalar"] == "double", need)
            return [v[o[3]] if o[2] != "i" else np.full(P.shape, o[3]) != 0 for o in outs]
        wb[t] = w
    p["wantb"] = wb
    p["label"] = meta["label"] | {t: e for t, r, e in meta["bools"]}
    return same_problem(run, p)


PYOPS = [("a + b", 'binary(a, b, "__add__", "__radd__")'), ("a - b", 'binary(a, b, "__sub__", "__rsub__")'), ("a * b", 'binary(a, b, "__mul__", "__rmul__")'), ("a / b", 'binary(a, b, "__truediv__", "__rtruediv__")'), ("a ** b", 'binary(a, b, "__pow__", "__rpow__")'),
         ("a += b", 'inplace(a, b, "__iadd__", "__add__", "__radd__")'), ("a -= b", 'inplace(a, b, "__isub__", "__sub__", "__rsub__")'), ("a *= b", 'inplace(a, b, "__imul__", "__mul__", "__rmul__")'), ("a /= b", 'inplace(a, b, "__itruediv__", "__truediv__", "__rtruediv__")'),
         ("a < b", 'compare(a, b, "__lt__", "__gt__")'), ("a > b", 'compare(a, b, "__gt__", "__lt__")'), ("a <= b", 'compare(a, b, "__le__", "__ge__")'), ("a >= b", 'compare(a, b, "__ge__", "__le__")'),
         ("a.arctan2(b)", 'method(a, "arctan2", b)'), ("a.atan2(b)", 'method(a, "atan2", b)'), ("a.hypot(b)", 'method(a, "hypot", b)'), ("a.hypot(a, b)", 'method(a, "hypot", a, b)'), ("a.log(b)", 'method(a, "log", b)'),
         ("A(b)", "call(global(C), b)"), ("A.constant(b)", 'call(attr(global(C), "constant"), b)'), ("a.f = b", '(setattr(a, "f", b), num(0.0))')]
NOT = ["__float__", "__int__", "__index__", "__complex__", "__trunc__"]


def python_side(chk):
    s = PySuite(chk)
    ros = roster()
    for i, ty in enumerate(ros):
        near = [t for t in ros if t.name != ty.name and not t.sparse and (t.size == ty.size or (t.order == ty.order and (t.dyn or (ty.size is not None and abs(t.size - ty.size) == 1))))]
        if ty.sparse or ty.dyn: near += [t for t in ros if t.size == 2]
        if not ty.sparse: near.append(ros[-1])
        near = list({t.name: t for t in near if t.name != ty.name}.values())
        n = 2 if ty.dyn else ty.size or 0
        for o in near:
            m = 2 if o.dyn else o.size or 0
            code = "using U = %s; const long k = %d; Box *a = %s; Box *b = %s; " % (o.cpp, m, inst(ty, 0), inst(o, 1).replace("instance<T>(C,", 'instance<U>("%s",' % o.name).replace("jet<T>", "jet<U>").replace("sj<T>", "sj<U>").replace(", n)", ", k)"))
            lab, ints = {}, {}
            for j, (txt, e) in enumerate(PYOPS):
                t = 100 + 2 * j
                code += "hj_outi(%d, run([&] { return %s; }) ? 0 : ended == %s ? 1 : ended);" % (t, e, "AttributeError" if txt == "a.f = b" and ty.sparse else "TypeError")
                ints[t] = 1
                lab[t] = "%s with b of %s (1: TypeError, 0: accepted)" % (txt, o.name)
            for j, (txt, x, y, want) in enumerate((("a == b", "__eq__", "__eq__", 0), ("a != b", "__ne__", "__ne__", 1))):
                t = 200 + 2 * j
                code += '{ Box *r = run([&] { return compare(a, b, "%s", "%s"); }); hj_outi(%d, r ? (r->k == pv::Bool ? r->i : 50) : 10 + ended); }' % (x, y, t)
                ints[t] = want
                lab[t] = "%s with b of %s" % (txt, o.name)
            code += " content<T>(30, a); content<U>(40, b);"
            N = lambda t, c: (1 if t.sparse else c)
            meta = dict(name="%s with %s" % (ty.name, o.name), scalar="double", ints=ints, intnames=lab, values={0: ALL, STEP: ALL}, label={30: "a", 40: "b"},
                        exact={30: comp(ty, n, 0), 40: comp(o, m, STEP)})
            s.padd(ty, "mix_" + o.name, code, meta, n)
        code = "Box *a = %s; " % inst(ty, 0)
        ints, lab = {}, {}
        for j, nm in enumerate(NOT):
            code += 'hj_outi(%d, pv::attribute(a->c, "%s") != nullptr);' % (100 + j, nm)
            ints[100 + j], lab[100 + j] = 0, "the class defines %s, so that a number is taken for a plain one" % nm
        # other objects are no operands
        for j, (txt, e) in enumerate((("a + 'x'", 'binary(a, text("x"), "__add__", "__radd__")'), ("a * None", 'binary(a, pv::mknone(), "__mul__", "__rmul__")'), ("a - [1]", 'binary(a, list(num(1.0)), "__sub__", "__rsub__")'), ("a < 'x'", 'compare(a, text("x"), "__lt__", "__gt__")'))):
            code += "hj_outi(%d, run([&] { return %s; }) ? 0 : ended);" % (120 + j, e)
            ints[120 + j], lab[120 + j] = 1, txt + " (1: TypeError, 0: accepted)"
        s.padd(ty, "notplain", code + " content<T>(30, a);", dict(name=ty.name, scalar="double", ints=ints, intnames=lab, values={0: ALL}, label={30: "a"}, exact={30: comp(ty, n, 0)}), n)
    s.judge("Python classes do not mix", same_problem, kinds=MEMORY)


def comp(ty, n, base):
    if ty.sparse:
        mask = SM[base // STEP]
        return lambda P: np.stack(sjet(P.sym, base, mask, NAMES, np.zeros(P.shape, np.longdouble)))
    L = spec.comps(ty.order, n)
    return lambda P: P.block(base, L)


def run(chk):
    mixing(chk)
    plain(chk)
    python_side(chk)
    chk.rules = ["every expression that combines numbers of two different types is ill formed (operators, assignment, construction, comparison, atan2, hypot, pow, log), for all pairs of the listed types; no number converts to a plain value",
                 "each operation with a plain value of any built-in arithmetic type denotes the same terms as with the scalar of that value",
                 "Python: every operator or method between instances of two classes ends in TypeError and changes neither (== is false, != true); no class offers __float__, __int__, __index__ or __complex__"]
    chk.expected_min = 5000
    return chk.finish(explanation="Type-level witnesses compiled against the current header (each must be rejected), interpretation of every mixed use of a plain value, and of every operator between instances of two Python classes through the model of pybind11's dispatch.",
                      assumptions=["the model of pybind11 in stubs/py dispatches as pybind11 does"])
