from ..ops import *


def run(chk):
    types = [t for t in all_types() if not t.dyn] + [Ty(2, 3, "float"), Ty(1, 4, "float")]
    for eigen in (False, True):
        s = Suite(chk, tag="e" if eigen else "", flags=build.EIGEN if eigen else ())
        for ty in types:
            for op in catalogue():
                if op.eigen != eigen or not op.fits(ty, ty.size) or "std::vector" in op.text: continue  # a vector of the caller allocates
                # the operation itself, without the surrounding probe
                code = decl(op) + " hj_watch_alloc(1); { %s } hj_watch_alloc(0); hj_outi(70, 1);" % op.text
                s.add(ty, op.name, code, dict(name="%s of %s" % (op.name, ty.cpp), op=op, scalar=ty.scalar, ints={70: 1}))
            if not eigen:
                for k, c in (("ctor", "T x; T y(hj_sym(1)); T z = T::empty(n);"),
                             ("initlist", "T x{%s};" % ", ".join("(S)hj_sym(%d)" % i for i in range(spec.comps(ty.order, ty.size)))),
                             ("variables", "std::array<S, %d> v{}; auto w = T::template variables<%d>(v);" % (ty.size, ty.size)),
                             ("expr", "T x = a; x = (x * x + 2 * x).sin() / (x + 3); x += x; x = x.hypot(x, a); bool q = x < a;"),
                             ("copyarr", "std::array<T, 2> p{a, a}; std::array<T, 2> q = p; p[0] = q[1] * p[1];")):
                    s.add(ty, k, "const T a = jet<T>(0, n); hj_watch_alloc(1); { %s } hj_watch_alloc(0); hj_outi(70, 1);" % c, dict(name="%s of %s" % (k, ty.cpp), op=None, scalar=ty.scalar, ints={70: 1}))
        s.judge("no heap allocation", mk, kinds=ALLOC)
    witnesses(chk, types)
    chk.rules = ["no allocation function is called on a returning path of the call tree of the operation", "type witnesses: trivially copyable, storage not larger than the components plus the size field, contiguous data inside the object"]
    chk.expected_min = 1000
    return chk.finish(explanation="Call-tree effect analysis of every operation on fixed-size numbers for calls of operator new/malloc, and static assertions about layout and triviality for each instantiation.")


def mk(run, meta):
    op = meta["op"]
    return Problem(run, {}, op.values() if op else {0: spec.NZ}, f32ok=meta["scalar"] != "double")


def witnesses(chk, types):
    src = ['#include <hyperjet/hyperjet.h>\n#include <type_traits>\n']
    names = []
    for ty in types:
        L = spec.comps(ty.order, ty.size)
        for cond, what in (("std::is_trivially_copyable_v<%s>" % ty.cpp, "is trivially copyable"),
                           ("std::is_trivially_destructible_v<%s>" % ty.cpp, "is trivially destructible"),
                           ("sizeof(%s) <= (sizeof(hyperjet::index) + %d * sizeof(%s) + alignof(hyperjet::index) - 1) / alignof(hyperjet::index) * alignof(hyperjet::index)" % (ty.cpp, max(L, 1), ty.scalar), "holds only its components and its size"),
                           ("std::is_nothrow_move_constructible_v<%s>" % ty.cpp, "moves without throwing"),
                           ("std::is_same_v<decltype(std::declval<%s &>().ptr()), %s *>" % (ty.cpp, ty.scalar), "gives its data as a plain array")):
            names.append("%s %s" % (ty.cpp, what))
            src.append('static_assert(%s, "W%d");\n' % (cond.replace("DDScalar", "hyperjet::DDScalar"), len(names) - 1))
    ok, text = build.compiles("".join(src), "w34")
    bad = {int(x) for x in re.findall(r'W(\d+)', " ".join(l for l in text.splitlines() if "error" in l))}
    if not ok and not bad: raise build.CompileError("w34", text)
    for i, nm in enumerate(names):
        if i in bad: chk.fail("layout witness", nm, "include/hyperjet/hyperjet.h (DDScalar)", "the static assertion fails")
        else: chk.ok()
