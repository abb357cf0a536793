from ..sparse import *

UN = [k for k in spec.UNARY if k not in ("pow", "logb", "reciprocal")]
# exponent expression, value of the same exponent as scalar
EXPO = [("%d" % k, "S(%d)" % k) for k in (0, 1, 2, 3, -1, -2, 5)] + [("2L", "S(2)"), ("3u", "S(3)"), ("short(2)", "S(2)"), ("(unsigned char)3", "S(3)"), ("-1LL", "S(-1)"), ("std::size_t(2)", "S(2)"),
        ("2.0", "S(2)"), ("0.5", "S(0.5)"), ("-1.5", "S(-1.5)"), ("2.5f", "S(2.5)"), ("0.0", "S(0)"), ("1.0", "S(1)"), ("s", "s"), ("true", "S(1)"), ("hyperjet::index(4)", "S(4)")]
FORMS = {"": "", "q": "hyperjet::", "u": ""}   # unqualified, qualified, after using std::f


def calls():
    """(key, form prefix, free call, member call, Fun, operands)"""
    r = []
    for k in UN: r.append((k, k, "%s(a)", "a.%s()" % k, spec.UNARY[k], "a"))
    r.append(("atan2", "atan2", "%s(a, b)", "a.atan2(b)", spec.ATAN2, "ab"))
    r.append(("hypot2", "hypot", "%s(a, b)", "T::hypot(a, b)", spec.HYPOT2, "ab"))
    r.append(("hypot3", "hypot", "%s(a, b, c)", "T::hypot(a, b, c)", spec.HYPOT3, "abc"))
    for i, (e, v) in enumerate(EXPO): r.append(("pow%d" % i, "pow", "%%s(a, %s)" % e, "a.pow(%s)" % v, spec.UNARY["pow"], "a", e))
    return r


def at(vals, vf, ids, pts):
    """Valid points: those of the domains and the listed ones."""
    def valid(P):
        m = np.ones(P.shape, bool)
        for i, d in vals.items(): m &= d.valid(P.sym(i))
        if vf is not None: m &= vf(P)
        for p in pts:
            e = np.ones(P.shape, bool)
            for i, v in zip(ids, p): e &= P.sym(i) == np.longdouble(v)
            m |= e
        return m
    return valid


def label(c): return c[2] % c[1]


def run(chk):
    dense = all_types() + [Ty(2, 3, "float"), Ty(1, None, "float"), Ty(2, None, "float"), Ty(1, 4, "float")]
    types = [(t, t.cpp) for t in dense] + [(t, t.cpp) for t in (STy(), STy("float"))]
    # every call resolves, to the same type as its operand
    items = []
    for ty, cpp in types:
        for c in calls():
            for q, pre in FORMS.items():
                u = "using std::%s; " % c[1] if q == "u" else ""
                items.append(("%s%s of %s%s" % (pre, label(c), cpp, " after using std::%s" % c[1] if u else ""), 'namespace w%d { using T = %s; using S = T::Scalar; auto f(const T &a, const T &b, const T &c, const S s) { %sreturn %s; } static_assert(std::is_same_v<decltype(f(std::declval<T>(), std::declval<T>(), std::declval<T>(), S())), T>); }' %
                              (len(items), "hyperjet::" + cpp, u, c[2] % (pre + c[1]))))
    bad = {}
    for cc, std in (("clang++", "-std=c++17"), ("g++", "-std=c++17")) + ((("clang++", "-std=c++20"), ("g++", "-std=c++20")) if chk.thorough else ()):
        r = build.witnesses("#include <hyperjet/hyperjet.h>\n#include <cmath>\n#include <cstdlib>\n#include <type_traits>\n", items, "w20" + cc[0] + std[-2:], compiler=cc, std=std)
        for k, v in r.items():
            bad[k] = 1
            chk.fail("every valid call resolves", k, "include/hyperjet/hyperjet.h (free functions)", "%s %s: %s" % (cc, std, v[-300:]))
        chk.ok(len(items) - len(r))
    # and gives the result of the member
    s = Suite(chk)
    q = SSuite(chk)
    base = {"a": 0, "b": STEP, "c": 2 * STEP}
    for ty, cpp in types:
        for c in calls():
            fun, uses = c[4], c[5]
            vals = {0: fun.dom} if not isinstance(fun.dom, list) else {base[k]: d for k, d in zip(uses, fun.dom)}
            if fun.nparam: vals[PARAM] = fun.pdom
            # also at the special values of the operands, wherever the member is finite
            ids = [base[k] for k in uses] + ([PARAM] if fun.nparam else [])
            pts = [p[:len(ids)] for p in spec.POINTS["pow" if c[0].startswith("pow") else c[0]] if ty.scalar == "double" or all(v == 0 or 1e-15 < abs(v) < 1e15 for v in p)]
            _, vf = domain(fun, [("j", base[k]) for k in uses] + ([("s", PARAM)] if fun.nparam else []))
            K = "const S s = hj_sym(%d); (void)s; " % PARAM
            for q_, pre in FORMS.items():
                if "%s%s of %s%s" % (pre, label(c), cpp, " after using std::%s" % c[1] if q_ == "u" else "") in bad: continue
                if q_ and c[0].startswith("pow") and not isinstance(ty, STy) and ty.size not in (None, 2): continue
                if q_ == "q" and not isinstance(ty, STy) and ty.size not in (None, 0, 3): continue
                u = "using std::%s; " % c[1] if q_ == "u" else ""
                call = "%sT r = %s;" % (u, c[2] % (pre + c[1]))
                nm = "%s%s" % (c[0], q_)
                meta = lambda extra: dict(name="%s%s of %s" % (pre, label(c), cpp) + extra, pairs={0: 20}, values={i: spec.Dom(d.gen, lambda v: v == v) for i, d in vals.items()}, valid=at(vals, vf, ids, pts), special=[dict(zip(ids, p)) for p in pts], scalar=ty.scalar, tol=1e-5 if ty.scalar != "double" else 3e-14, label={0: "the free function"})
                if isinstance(ty, STy):
                    D = " ".join("const T %s = sj<T>(%d, %s);" % (k, base[k], k.upper()) for k in uses)
                    for masks in ((3, 6, 5), (0, 1, 0), (7, 0, 1)):
                        q.sadd(ty, nm, D + K + call + " sout(0, r, N); T m = %s; sout(20, m, N);" % c[3], dict(meta(", variables " + ", ".join(show(m) for m in masks[:len(uses)])), ints=None or {}), masks)
                else:
                    for n in (ty.ns((0, 1, 3, 6)) if not q_ else ty.ns((2,))):
                        D = " ".join("const T %s = jet<T>(%d, n);" % (k, base[k]) for k in uses)
                        s.add(ty, nm, D + K + call + " out(0, r); T m = %s; out(20, m);" % c[3], dict(meta(" with %d variables" % n), ints={1: n, 2: spec.comps(ty.order, n)}), n)
    s.judge("free function equals member", same_problem, kinds=MEMORY | PURITY)
    q.judge("free function equals member", same_problem, kinds=MEMORY | PURITY)
    chk.rules = ["every free call with valid arguments resolves to the operand's type under both compilers: unqualified, qualified and after using std::name", "the components of the free call and of the member call denote the same terms, arguments in the same order"]
    chk.expected_min = 20000
    return chk.finish(explanation="Type-checked call witnesses for each free function, exponent type and number type, and value-number comparison of free and member calls on the same symbolic operands.")
