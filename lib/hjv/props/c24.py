from ..python import *
from .c14 import moved
from . import c15, c19, c32

TEXTS = [(27, "repr()", c32.DEFAULT, "", "")]

GS, MS = 500000, 400000   # symbols of array and matrix arguments


def run(chk):
    s = PySuite(chk)
    for ty in roster(False):
        for n in psizes(ty, chk, (0, 1, 3, 17), (2, 5, 8, 33)):
            L = spec.comps(ty.order, n)
            H = L - 1 - n
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")
            sy = lambda k: ("s", k)
            packed = lambda f, g=None, h=None: [f] + [g(i) if g else 0.0 for i in range(n)] + [h(k) if h else 0.0 for k in range(H)]
            F = sy(PARAM)
            newg, newh = (lambda i: sy(GS + i)), (lambda k: sy(MS + k))
            oldf, oldg, oldh = sy(0), (lambda i: sy(1 + i)), (lambda k: sy(1 + n + k))

            def add(name, what, code, exact=None, number=None, size=None, after=None, ints=None, args=(), meta=None):
                """code returns a box; number: the components of the number it is; after: those of a afterwards."""
                ex, it = dict(exact or {}), {5: 0} | (ints or {})
                pre = ""
                if number is not None:
                    ex[0] = lst(number)
                    it |= {1: n if size is None else size, 2: len(number)}
                    pre = "if (r && ended == 0 && !number<T>(r)) hj_outi(1, -2); else content<T>(0, r);"
                if after is not None:
                    ex[13] = lst(after)
                    it |= {14: n if size is None else size, 15: len(after)}
                    pre += " content<T>(13, a);"
                d = decl(ty, "a") if after is not None or "a," in code or "(a" in code else ""
                m = dict(name="%s: %s" % (w, what), scalar="double", exact=ex, ints=it, order=ty.order, n=n,
                         intnames={5: "exception raised", 1: "size of the number returned", 2: "number of components", 14: "size of the number afterwards", 15: "number of components afterwards", 20: "shape", 21: "shape", 22: "shape"},
                         label={0: "the number returned", 13: "the number afterwards", 10: "the result"})
                m.update(meta or {})
                s.padd(ty, name, d + "const double s = hj_sym(%d); (void)s; Box *r = run([&]() -> Box * { %s }); hj_outi(5, ended); (void)r; %s" % (PARAM, code, pre), m, n, args)

            cls = 'return call(global(C), %s);'
            cls0 = 'return call(global(C));'
            st = lambda f, a="": 'return call(attr(global(C), "%s")%s);' % (f, ", " + a if a else "")
            kw = lambda k, v: 'Kw{"%s", %s}' % (k, v)
            N = "num(n)"
            # constructors
            forms = [("f, size", "num(s), " + N), ("f, size=", "num(s), " + kw("size", N)), ("f=, size=", kw("f", "num(s)") + ", " + kw("size", N)), ("size=, f=", kw("size", N) + ", " + kw("f", "num(s)"))]
            for i, (t, a) in enumerate(forms): add("ctor_fs%d" % i, "C(%s)" % t, cls % a, number=packed(F))
            add("ctor_s", "C(size=)", cls % kw("size", N), number=packed(0.0))
            add("ctor_is", "C(2, size)", cls % ("num(2L), " + N), number=packed(2.0))
            one = (lambda f: [f]) if ty.dyn else packed
            zs = 0 if ty.dyn else n
            add("ctor_f", "C(f)", cls % "num(s)", number=one(F), size=zs)
            add("ctor_fk", "C(f=)", cls % kw("f", "num(s)"), number=one(F), size=zs)
            add("ctor_i", "C(3)", cls % "num(3L)", number=one(3.0), size=zs)
            add("ctor_0", "C()", cls0, number=one(0.0), size=zs)
            data = [sy(GS + k) for k in range(L)]
            for i, (t, a) in enumerate((("list", "symbols(pv::List, %d, %d)" % (GS, L)), ("tuple", "symbols(pv::Tuple, %d, %d)" % (GS, L)), ("array", "asarray(%d, %d)" % (GS, L)))):
                add("ctor_d%d" % i, "C(data %s)" % t, cls % a.replace(", %d)" % L, ", A)"), number=data, args=[L])
                add("ctor_dk%d" % i, "C(data=%s)" % t, cls % kw("data", a.replace(", %d)" % L, ", A)")), number=data, args=[L])
            G = (("list", "symbols(pv::List, %d, n)" % GS), ("array", "asarray(%d, n)" % GS))
            M = (("lists", "symlists(%d, n)" % MS), ("array", "symarray(%d, n)" % MS))
            for i, (t, a) in enumerate(G):
                if t == "list" and n == 0: continue
                if ty.order == 1:
                    add("ctor_g%d" % i, "C(f, g %s)" % t, cls % ("num(s), " + a), number=packed(F, newg))
                    add("ctor_gk%d" % i, "C(f=, g=%s)" % t, cls % (kw("f", "num(s)") + ", " + kw("g", a)), number=packed(F, newg))
                else:
                    for j, (u, b) in enumerate(M):
                        if u == "lists" and n == 0: continue
                        add("ctor_h%d%d" % (i, j), "C(f, g %s, hm %s)" % (t, u), cls % ("num(s), " + a + ", " + b), number=packed(F, newg, newh))
                        add("ctor_hk%d%d" % (i, j), "C(f=, g=%s, hm=%s)" % (t, u), cls % (kw("f", "num(s)") + ", " + kw("hm", b) + ", " + kw("g", a)), number=packed(F, newg, newh))
            # factories
            for i, (t, a) in enumerate(forms): add("constant%d" % i, "constant(%s)" % t, st("constant", a), number=packed(F))
            add("constant_f", "constant(f)", st("constant", "num(s)"), number=one(F), size=zs)
            add("constant_fk", "constant(f=)", st("constant", kw("f", "num(s)")), number=one(F), size=zs)
            add("zero", "zero()", st("zero"), number=one(0.0), size=zs)
            for i, a in enumerate((N, kw("size", N))):
                add("zero%d" % i, "zero(size)", st("zero", a), number=packed(0.0))
                add("empty%d" % i, "empty(size)", 'Box *e = call(attr(global(C), "empty"), %s); hj_outi(20, attr(e, "size")->i); hj_outi(21, attr(e, "data")->sh[0]); return e;' % a, ints={20: n, 21: L})
            add("empty", "empty()", 'Box *e = call(attr(global(C), "empty")); hj_outi(20, attr(e, "size")->i); hj_outi(21, attr(e, "data")->sh[0]); return e;', ints={20: zs, 21: spec.comps(ty.order, zs)})
            for k in sorted({0, 1, n // 2, n - 1}):
                if not 0 <= k < n: continue
                u = packed(F, lambda i: 1.0 if i == k else 0.0)
                add("variable", "variable(%d, f, size)" % k, st("variable", "num(A), num(s), " + N), number=u, args=[k])
                add("variablek", "variable(i=%d, f=, size=)" % k, st("variable", ", ".join((kw("size", N), kw("f", "num(s)"), kw("i", "num(A)")))), number=u, args=[k])
                if not ty.dyn:
                    add("variable2", "variable(%d, f)" % k, st("variable", "num(A), num(s)"), number=u, args=[k])
                    add("variable2k", "variable(i=%d, f=)" % k, st("variable", kw("f", "num(s)") + ", " + kw("i", "num(A)")), number=u, args=[k])
            for i, a in enumerate(("symbols(pv::List, %d, n)" % GS, kw("values", "symbols(pv::List, %d, n)" % GS), "symbols(pv::Tuple, %d, n)" % GS, "asarray(%d, n)" % GS)):
                exp = []
                for q in range(n): exp += packed(sy(GS + q), lambda i: 1.0 if i == q else 0.0)
                add("variables%d" % i, "variables(values)", 'Box *l = call(attr(global(C), "variables"), %s); hj_outi(20, l->k == pv::List ? l->i : -1); if (l->k == pv::List) for (long i = 0; i < l->i; i++) { T *x = number<T>(l->e[i]); hj_outi(30 + i, x ? x->size() : -1); if (x) outs(10, x->ptr(), x->data_length()); } return l;' % a,
                    exact={10: lst(exp)} if n else {}, ints={20: n} | {30 + q: n for q in range(n)})
            # attributes
            keep = [sy(k) for k in range(L)]
            add("f", "f", 'Box *x = attr(a, "f"); hj_outi(20, x->k); hj_out(10, x->f); return x;', exact={10: lst([sy(0)])}, ints={20: FLOAT}, after=keep)
            add("set_f", "f = s", 'setattr(a, "f", num(s)); return nullptr;', after=packed(F, oldg, oldh))
            add("set_f_int", "f = 7", 'setattr(a, "f", num(7L)); return nullptr;', after=packed(7.0, oldg, oldh))
            OUTV = "hj_outi(20, x->k); hj_outi(21, x->nd); hj_outi(22, x->sh[0]); for (long i = 0; i < x->sh[0]; i++) hj_out(10, x->p[i * x->st[0]]); return x;"
            add("g", "g", 'Box *x = attr(a, "g"); ' + OUTV, exact={10: lst([sy(1 + i) for i in range(n)])} if n else {}, ints={20: ARRAY, 21: 1, 22: n}, after=keep)
            add("data", "data", 'Box *x = attr(a, "data"); ' + OUTV, exact={10: lst(keep)}, ints={20: ARRAY, 21: 1, 22: L}, after=keep)
            add("write_g", "g[:] = ...", 'Box *x = attr(a, "g"); for (long i = 0; i < x->sh[0]; i++) x->p[i * x->st[0]] = hj_sym(%d + i); hj_outi(20, x->writable); return x;' % GS, ints={20: 1}, after=packed(oldf, newg, oldh))
            add("write_data", "data[:] = ...", 'Box *x = attr(a, "data"); for (long i = 0; i < x->sh[0]; i++) x->p[i * x->st[0]] = hj_sym(%d + i); hj_outi(20, x->writable); return x;' % GS, ints={20: 1}, after=data)
            add("size", "size and len()", 'Box *x = attr(a, "size"); hj_outi(20, x->k == pv::Int ? x->i : -1); x = unary(a, "__len__"); hj_outi(21, x->k == pv::Int ? x->i : -1); return x;', ints={20: n, 21: n}, after=keep)
            # written form: a text that shows the value only
            add("repr", "repr()", 'Box *x = unary(a, "__repr__"); hj_outi(20, x->k); if (x->k == pv::Str) hj_outs(27, x->s); return x;', ints={20: STR}, after=keep, meta=dict(texts=TEXTS, kept=(13,), L=L))
            dm = dict(order=ty.order, n=n, scalar="double", taylor=1)
            for i, a in enumerate(("symbols(pv::List, %d, n)" % c15.DB, kw("d", "asarray(%d, n)" % c15.DB))):
                s.padd(ty, "eval%d" % i, decl(ty, "a") + 'Box *r = run([&] { return method(a, "eval", %s); }); hj_outi(9, r ? r->k : -1); if (r && r->k == pv::Float) hj_out(0, r->f); content<T>(3, a);' % a,
                       dict(dm, name="%s: eval(d)" % w, ints={9: FLOAT}, intnames={9: "kind of the result"}, label={0: "the expansion", 3: "the number"}), n)
            if ty.order == 2:
                cells = [(i, j) for i in range(n) for j in range(n)] if n <= 5 else [(0, 0), (0, n - 1), (n - 1, 0), (n - 1, n - 1), (1, 3), (3, 1), (n // 2, n - 2)]
                for i, j in cells:
                    for q, (t, a) in enumerate((("", "num(A), num(B)"), ("by keyword", kw("col", "num(B)") + ", " + kw("row", "num(A)")))):
                        add("h%d" % q, "h(%d, %d) %s" % (i, j, t), 'Box *x = method(a, "h", %s); hj_outi(20, x->k); hj_out(10, x->f); return x;' % a, exact={10: lst([sy(hpos(n, i, j))])}, ints={20: FLOAT}, after=keep, args=(i, j))
                    new = list(keep)
                    new[hpos(n, i, j)] = F
                    for q, (t, a) in enumerate((("", "num(A), num(B), num(s)"), ("by keyword", ", ".join((kw("value", "num(s)"), kw("col", "num(B)"), kw("row", "num(A)")))))):
                        add("set_h%d" % q, "set_h(%d, %d, s) %s" % (i, j, t), 'return method(a, "set_h", %s);' % a, after=new, args=(i, j))
                mat = lambda lower: lst([sy(hpos(n, i, j)) if j >= i or lower else 0 for i in range(n) for j in range(n)])
                OUTM = "hj_outi(20, x->nd); hj_outi(21, x->sh[0]); hj_outi(22, x->nd > 1 ? x->sh[1] : -1); for (long i = 0; i < x->sh[0]; i++) for (long j = 0; j < x->sh[1]; j++) hj_out(10, x->p[i * x->st[0] + j * x->st[1]]); return x;"
                for q, (t, a, lo) in enumerate((("", "", True), ("'full'", ', text("full")', True), ("'zeros'", ', text("zeros")', False), ("mode='zeros'", ", " + kw("mode", 'text("zeros")'), False), ("mode='full'", ", " + kw("mode", 'text("full")'), True))):
                    add("hm%d" % q, "hm(%s)" % t, 'Box *x = method(a, "hm"%s); ' % a + OUTM, exact={10: mat(lo)} if n else {}, ints={20: 2, 21: n, 22: n}, after=keep)
                for q, (t, a) in enumerate((("array", M[1][1]), ("lists", M[0][1]), ("value=array", kw("value", M[1][1])))):
                    if t == "lists" and n == 0: continue
                    add("set_hm%d" % q, "set_hm(%s)" % t, 'return method(a, "set_hm", %s);' % a, after=packed(oldf, oldg, newh))
                add("hm_roundtrip", "set_hm(hm())", 'return method(a, "set_hm", method(a, "hm"));', after=keep)
            if ty.dyn:
                for m in sorted({0, 1, n - 1, n, n + 1, n + 3}):
                    if m < 0: continue
                    for q, a in enumerate(("num(A)", kw("size", "num(A)"))):
                        add("resize%d" % q, "resize(%d)" % m, 'return method(a, "resize", %s);' % a, after=moved(ty.order, n, m, 0), size=m, args=[m])
                    if m < n: continue
                    for f, sh in (("pad_right", 0), ("pad_left", m - n)):
                        for q, a in enumerate(("num(A)", kw("new_size", "num(A)"))):
                            add("%s%d" % (f, q), "%s(%d)" % (f, m), 'hj_outi(20, attr(a, "size")->i); Box *x = method(a, "%s", %s); hj_outi(21, x == a); return x;' % (f, a), number=moved(ty.order, n, m, sh), size=m, args=[m], ints={20: n, 21: 0})
    sparse(chk, s)
    s.judge("the Python call equals its C++ counterpart", problem, kinds=MEMORY)
    chk.rules = ["each constructor, factory, method and attribute, called positionally, by keyword and with its defaults, yields the number, array or plain value whose components the C++ counterpart defines", "out-of-place calls leave the number as it was"]
    chk.expected_min = 20000
    return chk.finish(explanation="All constructors, factories and attributes of every exported class are called through the model of pybind11's overload resolution with symbolic values, as lists, tuples and arrays; results are read back and compared component by component.",
                      assumptions=["the model of pybind11 in stubs/py dispatches as pybind11 does"])


def sparse(chk, s):
    ty = roster()[-1]
    kw = lambda k, v: 'Kw{"%s", %s}' % (k, v)
    sy = lambda k: ("s", k)
    F = sy(PARAM)
    jet = lambda f, mask, base: [f] + [sy(base + k) if mask >> k & 1 else 0 for k in range(NAMES)]

    def add(name, what, code, exact=None, number=None, mask=0, after=None, ints=None, args=(), meta=None):
        ex, it, post = dict(exact or {}), {5: 0} | (ints or {}), ""
        if number is not None:
            ex[0] = lst(number)
            it |= {1: bits(mask), 2: bits(mask)}
            post = "content<T>(0, r);"
        if after is not None:
            ex[13] = lst(after)
            it |= {14: bits(mask), 15: bits(mask)}
            post += " content<T>(13, a);"
        d = 'Box *a = instance<T>(C, sj<T>(0, A)); ' if after is not None else ""
        m = dict(name="%s: %s" % (ty.name, what), scalar="double", exact=ex, ints=it, N=NAMES, sparse=True, intnames={5: "exception raised", 1: "number of variables", 14: "number of variables afterwards"}, label={0: "the number returned", 13: "the number afterwards", 10: "the result"})
        m.update(meta or {})
        s.padd(ty, name, d + "const double s = hj_sym(%d); (void)s; Box *r = run([&]() -> Box * { %s }); hj_outi(5, ended); (void)r; %s" % (PARAM, code, post), m, 0, args)

    one = lambda f: [f] + [0] * NAMES
    add("ctor_0", "C()", "return call(global(C));", number=one(0))
    add("ctor_f", "C(f)", "return call(global(C), num(s));", number=one(F))
    add("ctor_fk", "C(f=)", "return call(global(C), %s);" % kw("f", "num(s)"), number=one(F))
    add("ctor_i", "C(3)", "return call(global(C), num(3L));", number=one(3.0))
    for i, a in enumerate(("num(s)", kw("f", "num(s)"))): add("constantx%d" % i, "constant", 'return call(attr(global(C), "constant"), %s);' % a.replace('"f"', '"value"'), number=one(F))
    for mask in (0, 1, 5, 0b1011000, 127):
        D = "names(%d, A)" % GS
        add("ctor_d", "C(f, d)", "return call(global(C), num(s), %s);" % D, number=jet(F, mask, GS), mask=mask, args=[mask])
        add("ctor_dk", "C(f=, d=)", "return call(global(C), %s, %s);" % (kw("d", D), kw("f", "num(s)")), number=jet(F, mask, GS), mask=mask, args=[mask])
        add("ctor_d0", "C(d=)", "return call(global(C), %s);" % kw("d", D), number=jet(0.0, mask, GS), mask=mask, args=[mask])
        keep = jet(sy(0), mask, 1)
        add("f", "f", 'Box *x = attr(a, "f"); hj_outi(20, x->k); hj_out(10, x->f); return x;', exact={10: lst([sy(0)])}, ints={20: FLOAT}, after=keep, mask=mask, args=[mask])
        add("size", "size", 'Box *x = attr(a, "size"); hj_outi(20, x->i); x = unary(a, "__len__"); hj_outi(21, x->i); return x;', ints={20: bits(mask), 21: bits(mask)}, after=keep, mask=mask, args=[mask])
        add("repr", "repr()", 'Box *x = unary(a, "__repr__"); hj_outi(20, x->k); if (x->k == pv::Str) hj_outs(27, x->s); return x;', ints={20: STR}, after=keep, mask=mask, args=[mask], meta=dict(texts=TEXTS, kept=(13,), mask=mask))
        for q, a in enumerate(("text(name(i))", kw("variable", "text(name(i))"))):
            add("d%d" % q, "d(variable)", 'for (long i = 0; i < 7; i++) { Box *x = method(a, "d", %s); hj_outi(20 + i, x->k); hj_out(10, x->f); } Box *y = method(a, "d", text("absent")); hj_out(10, y->f); return y;' % a,
                exact={10: lst(keep[1:] + [0])}, ints={20 + i: FLOAT for i in range(NAMES)}, after=keep, mask=mask, args=[mask])
        for D in (0, 1, 7, 127):
            for q, a in enumerate(("names(%d, B)", kw("d", "names(%d, B, 999)"))):
                add("eval%d" % q, "eval at %s" % show(D), 'Box *x = method(a, "eval", %s); hj_outi(20, x->k); hj_out(10, x->f); return x;' % (a % c19.DB), ints={20: FLOAT}, after=keep, mask=mask, args=(mask, D), meta=dict(ev=(mask, D)))
    for k in range(NAMES):
        u = [F] + [1.0 if i == k else 0.0 for i in range(NAMES)]
        add("variable", "variable(name, value)", 'return call(attr(global(C), "variable"), text(name(A)), num(s));', number=u, mask=1 << k, args=[k])
        add("variablek", "variable(name=, value=)", 'return call(attr(global(C), "variable"), %s, %s);' % (kw("value", "num(s)"), kw("name", "text(name(A))")), number=u, mask=1 << k, args=[k])


def problem(run, meta):
    if meta.get("texts"): return (c32.mk_sparse if "mask" in meta else c32.mk)(run, meta)
    if meta.get("taylor"): return c15.mk(run, meta)
    if "ev" in meta:
        A, D = meta["ev"]
        meta = dict(meta, exact=meta["exact"] | {10: lambda P: [sum([P.sym(1 + k) * P.sym(c19.DB + k) for k in range(NAMES) if A >> k & D >> k & 1], np.zeros(P.shape, np.longdouble))]}, tol=1e-13)
    return same_problem(run, meta)
