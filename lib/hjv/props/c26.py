from ..python import *

GS = 500000
RESTORE = 'auto restore = [&](Box *st) { pv::Rec *r = pv::attribute(a->c, "__setstate__"); if (!r) throw pybind11::attribute_error("__setstate__"); return pv::dispatch(r, &st, 1, nullptr, nullptr); }; '


# every attribute of the class, known or not, with one pattern of arguments
ROLL = """
namespace hjy {
inline Box *odd(long k, long n)
{
    switch (k)
    {
    case 0: return num(-1000L);
    case 1: return num(-n - 1);
    case 2: return num(-1L);
    case 3: return num(0L);
    case 4: return num(n - 1);
    case 5: return num(n);
    case 6: return num(n + 1);
    case 7: return num(1000L);
    case 8: return num(hj_sym(500001));
    case 9: return asarray(500100, n + 1);
    case 10: return asarray(500200, n > 0 ? n - 1 : 2);
    case 11: return symbols(pv::List, 500300, 2 * n + 5);
    case 12: return symbols(pv::List, 500400, n > 0 ? n - 1 : 3);
    case 13: return asmatrix(600000, n + 1, n);
    case 14: return asmatrix(610000, n, n + 1);
    case 15: return text("x");
    case 16: return pv::mknone();
    case 17: return pv::seq(pv::Tuple, 1);
    case 18: return symbols(pv::Tuple, 500500, n + 2);
    default: return num(1L << 40);
    }
}
template <class T, class F> void roll(const char *C, long n, F fresh, long p, long q)
{
    pv::Class *c = global(C)->c;
    for (pv::Rec *r = c->first; r; r = r->sibling)
    {
        if (r->kind == pv::StaticProperty) continue;
        for (long np = 1; np <= 3; np++)
        {
            if (q < 0 && np > 1) break;
            Box *self = fresh();
            (void)run([&]() -> Box * {
                Box *x[4];
                long m = 0;
                bool me = r->kind == pv::Method && !r->init;
                if (r->kind == pv::Property)
                {
                    if (np == 1 && r->set) setattr(self, r->name, odd(p, n));
                    return nullptr;
                }
                if (me) x[m++] = self;
                for (long k = 0; k < np; k++) x[m++] = odd(k == 0 ? p : q, n);
                if (np == 3) x[m - 1] = num(hj_sym(500002));
                return pv::dispatch(r, x, m, nullptr, me ? self : nullptr);
            });
            (void)run([&]() -> Box * { if (T *t = number<T>(self)) { T u(*t); (void)u; } return nullptr; });
        }
    }
}
}
"""
ODD = 19


def run(chk):
    s = PySuite(chk, head=PHEAD + ROLL)
    for ty in roster(False):
        for n in psizes(ty, chk, (0, 1, 3, 17), (2, 5, 16)):
            L = spec.comps(ty.order, n)
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")
            keep = lst([("s", k) for k in range(L)])
            kept = {k: lst([("s", k * STEP + i) for i in range(L)]) for k in (0, 1)}

            def add(name, what, code, args=(), uses="a", raises=True, ints=None):
                m = dict(name="%s: %s" % (w, what), scalar="double", exact={10: keep}, ints={11: n, 12: L} | ({5: 1} if raises else {5: 0}) | (ints or {}),
                         intnames={5: "the call raises" if raises else "the call raises", 11: "size of the number afterwards", 12: "number of components afterwards"}, label={10: "the number afterwards"})
                s.padd(ty, name, decl(ty, uses) + "const double s = hj_sym(%d); (void)s; (void)run([&]() -> Box * { %s return nullptr; }); hj_outi(5, ended != Returned); content<T>(10, a);" % (PARAM, code), m, n, args)

            cls = lambda f: 'attr(global(C), "%s")' % f
            seq = lambda k: ("symbols(pv::List, %d, %s)" % (GS, k), "asarray(%d, %s)" % (GS, k))
            bad = [-1, -2, -1000] if ty.dyn else [x for x in (n - 1, n + 1, 0, -1, -2, 2 * n + 3) if x != n]
            for k in bad:
                add("ctor_size", "C(f, %d)" % k, "call(global(C), num(s), num(A));", [k])
                add("ctor_sizek", "C(size=%d)" % k, 'call(global(C), Kw{"size", num(A)});', [k])
                add("constant", "constant(f, %d)" % k, "call(%s, num(s), num(A));" % cls("constant"), [k])
                add("zero", "zero(%d)" % k, "call(%s, num(A));" % cls("zero"), [k])
                add("empty", "empty(%d)" % k, "call(%s, num(A));" % cls("empty"), [k])
                add("variable_size", "variable(0, f, %d)" % k, "call(%s, num(0L), num(s), num(A));" % cls("variable"), [k])
            for k in sorted({-1, n, n + 1, -n - 1, n + 1000, -1000, 1 << 40, -(1 << 40)}):
                add("variable_index", "variable(%d, f, size)" % k, "call(%s, num(A), num(s), num(n));" % cls("variable"), [k])
                if not ty.dyn: add("variable_index2", "variable(%d, f)" % k, "call(%s, num(A), num(s));" % cls("variable"), [k])
            good = {spec.comps(ty.order, k) for k in range(400)}
            lens = sorted({0, 2, 4, 5, 7, 8, 9, 11, 14, 16, 20, 22, 152, 154} if ty.dyn else {0, 1, L - 1, L + 1, L + 2, 2 * L, spec.comps(ty.order, n + 1)})
            for k in lens:
                if k == L or (ty.dyn and k in good): continue
                for j, q in enumerate(seq("A")): add("ctor_data%d" % j, "C(data of %d entries)" % k, "call(global(C), %s);" % q, [k])
                add("setstate", "__setstate__((data of %d entries,))" % k, RESTORE + "Box *t = pv::seq(pv::Tuple, 1); pv::push(t, symbols(pv::List, %d, A)); restore(t);" % GS, [k])
                if not ty.dyn:
                    add("variables_l", "variables(%d values)" % k, "call(%s, symbols(pv::List, %d, A));" % (cls("variables"), GS), [k]) if k != n else None
            for k in (0, 2, 3):
                add("setstate_t", "__setstate__(tuple of %d)" % k, RESTORE + "Box *t = pv::seq(pv::Tuple, 3); for (long i = 0; i < A; i++) pv::push(t, symbols(pv::List, %d, comps<T>(n))); restore(t);" % GS, [k])
            add("setstate_k", "__setstate__((text,))", RESTORE + 'Box *t = pv::seq(pv::Tuple, 1); pv::push(t, text("x")); restore(t);')
            add("ctor_text", "C(text)", 'call(global(C), text("1"));')
            add("ctor_none", "C(None)", "call(global(C), pv::mknone());")
            add("set_f_text", "f = text", 'setattr(a, "f", text("1"));')
            for at in ("g", "data", "size"): add("set_" + at, "%s = ..." % at, 'setattr(a, "%s", asarray(%d, comps<T>(n)));' % (at, GS))
            # displacements
            for k in (n - 1, n + 1, 0, 2 * n + 4):
                if k == n or k < 0: continue
                for j, q in enumerate(seq("A")): add("eval%d" % j, "eval of %d entries" % k, 'method(a, "eval", %s);' % q, [k])
            add("eval_f", "eval(scalar)", 'method(a, "eval", num(s));')
            add("eval_t", "eval(texts)", 'method(a, "eval", list(text("a"), text("b")));') if n != 2 or 1 else None
            # gradients and matrices
            if ty.order == 1 and not ty.dyn:
                for k in (n - 1, n + 1, 2 * n + 2):
                    if k < 0 or k == n: continue
                    for j, q in enumerate(seq("A")): add("ctor_g%d" % j, "C(f, g of %d entries)" % k, "call(global(C), num(s), %s);" % q, [k])
            if ty.order == 1: add("ctor_gm", "C(f, matrix)", "call(global(C), num(s), asmatrix(%d, 2, 3));" % GS)
            if ty.order == 2:
                shapes = [(r, c) for r in (n - 1, n, n + 1) for c in (n - 1, n, n + 1) if (r, c) != (n, n) and r >= 0 and c >= 0] + [(2 * n + 2, n), (n, 2 * n + 2)]
                for r, c in shapes:
                    add("set_hm", "set_hm of %d x %d" % (r, c), 'method(a, "set_hm", asmatrix(%d, A, B));' % GS, (r, c))
                    add("ctor_hm", "C(f, g, hm of %d x %d)" % (r, c), "call(global(C), num(s), asarray(700000, n), asmatrix(%d, A, B));" % GS, (r, c))
                for k in (n - 1, n + 1):
                    if k < 0: continue
                    add("ctor_ghm", "C(f, g of %d, hm of %d x %d)" % (k, n, n), "call(global(C), num(s), asarray(700000, A), symarray(%d, n));" % GS, [k])
                if n not in (0, 1):
                    add("set_hm_v", "set_hm of a vector", 'method(a, "set_hm", asarray(%d, n));' % GS)
                    add("set_hm_l", "set_hm of ragged lists", 'Box *l = symlists(%d, n); l->e[1]->i--; method(a, "set_hm", l);' % GS)
                add("set_hm_s", "set_hm(scalar)", 'method(a, "set_hm", num(s));')
                cells = sorted({(i, j) for i in (-1, 0, n - 1, n, n + 1, -n - 1) for j in (-1, 0, n - 1, n, n + 1, -n - 1) if not (0 <= i < n and 0 <= j < n)} | {(1 << 40, 0), (0, 1 << 40), (-(1 << 40), -(1 << 40)), (1 << 31, 1 << 31)})
                for i, j in cells:
                    add("h", "h(%d, %d)" % (i, j), 'method(a, "h", num(A), num(B));', (i, j))
                    add("set_h", "set_h(%d, %d, s)" % (i, j), 'method(a, "set_h", num(A), num(B), num(s));', (i, j))
                for i, t in enumerate(("", "Full", "zero", "lower", "FULL", "fullx")): add("mode%d" % i, "hm('%s')" % t, 'method(a, "hm", text("%s"));' % t)
                add("h_float", "h(0.5, 0)", 'method(a, "h", num(0.5), num(0L));')
                add("h_one", "h(0)", 'method(a, "h", num(0L));')
            if ty.dyn:
                for k in (-1, -2, -1000, -(1 << 40)):
                    add("resize", "resize(%d)" % k, 'method(a, "resize", num(A));', [k])
                for k in sorted({n - 1, 0, -1, -1000}):
                    if k >= n: continue
                    for f in ("pad_left", "pad_right"): add(f, "%s(%d)" % (f, k), 'method(a, "%s", num(A));' % f, [k])
                # numbers of another size
                for k in sorted({n + 1, n + 5, max(n - 1, 0), 0}):
                    if k == n: continue
                    B = "Box *b = instance<T>(C, jet<T>(%d, A)); " % STEP
                    for f, i, r in (("add", "iadd", "radd"), ("sub", "isub", "rsub"), ("mul", "imul", "rmul"), ("truediv", "itruediv", "rtruediv")):
                        add(f, "a %s b of %d variables" % (f, k), B + 'binary(a, b, "__%s__", "__%s__");' % (f, r), [k])
                        add(f + "r", "b of %d variables %s a" % (k, f), B + 'binary(b, a, "__%s__", "__%s__");' % (f, r), [k])
                        add(i, "a %s b of %d variables" % (i, k), B + 'inplace(a, b, "__%s__", "__%s__", "__%s__");' % (i, f, r), [k])
                        # the right operand of a failed call
                        add(i + "r", "b of %d variables %s a" % (k, i), B + 'inplace(b, a, "__%s__", "__%s__", "__%s__");' % (i, f, r), [k])
                    for f in ("atan2", "arctan2", "hypot"): add(f, "%s of numbers with %d and %d variables" % (f, n, k), B + 'method(a, "%s", b);' % f, [k])
                    for o in range(3):
                        add("hypot3%d" % o, "hypot of three numbers, one with %d variables" % k, B + 'method(%s, "hypot", %s);' % (("a", "a, b"), ("a", "b, a"), ("b", "a, a"))[o], [k])
                    add("mhypot", "hyperjet.hypot of numbers with %d and %d variables" % (n, k), B + 'call(global("hypot"), a, b);', [k])
    # sparse numbers
    ty = roster()[-1]
    for i, (what, code) in enumerate((("C(text)", 'call(global(C), text("1"));'), ("d(number)", 'method(a, "d", num(1L));'), ("d()", 'method(a, "d");'), ("eval(list)", 'method(a, "eval", symbols(pv::List, 1, 2));'), ("eval({1: 2})", 'Box *d = pv::seq(pv::Dict, 2); pv::push(d, num(1L)); pv::push(d, num(1.0)); method(a, "eval", d);'),
                                      ("f = 1", 'setattr(a, "f", num(1.0));'), ("variable(1, 1)", 'call(attr(global(C), "variable"), num(1L), num(1.0));'), ("a + text", 'binary(a, text("x"), "__add__", "__radd__");'), ("log(text)", 'method(a, "log", text("x"));'), ("a += text", 'inplace(a, text("x"), "__iadd__", "__add__", "__radd__");'))):
        m = dict(name="SScalar: " + what, scalar="double", N=NAMES, exact={10: lst([("s", 0)] + [("s", 1 + k) if SM[0] >> k & 1 else 0 for k in range(NAMES)])}, ints={5: 1, 11: bits(SM[0])}, intnames={5: "the call raises"}, label={10: "the number afterwards"})
        s.padd(ty, "bad%d" % i, decl(ty, "a") + "(void)run([&]() -> Box * { %s return nullptr; }); hj_outi(5, ended != Returned); content<T>(10, a);" % code, m)
    # whatever else is registered
    for ty in roster():
        if not ty.sparse and not ty.dyn and ty.size not in (0, 1, 2, 3, 7) and not chk.thorough: continue
        for n in psizes(ty, chk, (0, 2), (1, 5)):
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")
            fresh = inst(ty, 0)
            for p in range(ODD):
                for q in (-1, 2, 5, 8) if p < 8 else (-1, 5):
                    s.padd(ty, "roll", "roll<T>(C, %s, [&] { return %s; }, A, B);" % ("2L" if ty.sparse else "n", fresh), dict(name="%s: every method with the odd arguments %d, %d" % (w, p, q), scalar="double"), n, [p, q])
    s.judge("a bad argument raises and changes nothing", same_problem, kinds=MEMORY)
    chk.rules = ["no access outside an object, to released or to uninitialised memory on any path from the call", "sizes, indices, shapes and modes that do not fit end in an exception; the number then still denotes its components"]
    chk.expected_min = 5000
    return chk.finish(explanation="Every bound callable that takes an index, a size, a sequence or an array is called with arguments that do not fit (negative, one off, far off, other ranks and kinds) on symbolic numbers of every exported class.",
                      assumptions=["the model of pybind11 in stubs/py converts arguments as pybind11 does", "requests for more memory than there is are out of scope"])
