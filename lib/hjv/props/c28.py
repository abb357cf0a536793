from ..python import *

# changes of the number through its Python interface; b is another number
CHANGES = {
    "f = s": ('setattr(a, "f", num(s));', None),
    "a += b": ('(void)inplace(a, b, "__iadd__", "__add__", "__radd__");', None),
    "a -= b": ('(void)inplace(a, b, "__isub__", "__sub__", "__rsub__");', None),
    "a *= b": ('(void)inplace(a, b, "__imul__", "__mul__", "__rmul__");', None),
    "a /= b": ('(void)inplace(a, b, "__itruediv__", "__truediv__", "__rtruediv__");', None),
    "a += s": ('(void)inplace(a, num(s), "__iadd__", "__add__", "__radd__");', None),
    "a -= s": ('(void)inplace(a, num(s), "__isub__", "__sub__", "__rsub__");', None),
    "a *= s": ('(void)inplace(a, num(s), "__imul__", "__mul__", "__rmul__");', None),
    "a /= s": ('(void)inplace(a, num(s), "__itruediv__", "__truediv__", "__rtruediv__");', None),
    "a *= a": ('(void)inplace(a, a, "__imul__", "__mul__", "__rmul__");', None),
    "a /= a": ('(void)inplace(a, a, "__itruediv__", "__truediv__", "__rtruediv__");', None),
    "set_h": ('if (n) (void)method(a, "set_h", num(n - 1), num(0L), num(s));', 2),
    "set_hm": ('(void)method(a, "set_hm", method(b, "hm"));', 2),
    "data[:] = ...": ('Box *d = attr(a, "data"); for (long i = 0; i < d->sh[0]; i++) d->p[i * d->st[0]] = hj_sym(700000 + i);', None),
    "g[:] = ...": ('Box *d = attr(a, "g"); for (long i = 0; i < d->sh[0]; i++) d->p[i * d->st[0]] = hj_sym(700000 + i);', None),
    "reading everything": ('(void)attr(a, "f"); (void)unary(a, "__abs__"); (void)binary(a, b, "__mul__", "__rmul__"); (void)method(a, "exp"); (void)unary(a, "__copy__");', None),
}
READ = " for (long i = 0; i < v->sh[0]; i++) hj_out(20, v->p[i * v->st[0]]);"


def run(chk):
    s = PySuite(chk)
    for ty in roster(False):
        for n in psizes(ty, chk, (0, 1, 3, 17), (2, 5, 33)):
            L = spec.comps(ty.order, n)
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")
            sy = lambda k: ("s", k)
            keep = [sy(k) for k in range(L)]

            def add(name, what, code, exact=None, pairs=None, ints=None, values=None):
                m = dict(name="%s: %s" % (w, what), scalar="double", exact={t: lst(x) for t, x in (exact or {}).items()}, pairs=pairs or {}, values=values or {0: spec.REAL, STEP: spec.REAL, PARAM: spec.NZ}, ints={5: 0} | (ints or {}),
                         intnames={5: "exception raised", 6: "the array starts at the component it shows", 7: "the array is contiguous", 8: "the array keeps its number alive", 9: "the array is writable", 21: "number of entries of the array"},
                         label={20: "the array afterwards", 0: "the number afterwards", 25: "the matrix"})
                s.padd(ty, name, decl(ty, "ab") + "const double s = hj_sym(%d); (void)s; (void)run([&]() -> Box * { %s return nullptr; }); hj_outi(5, ended);" % (PARAM, code), m, n)

            for at, o, k in (("g", 1, n), ("data", 0, L)):
                V = 'Box *v = attr(a, "%s"); hj_outi(21, v->sh[0]); ' % at
                add(at, at, V + "hj_outi(6, !v->sh[0] || v->p == number<T>(a)->ptr() + %d); hj_outi(7, v->nd == 1 && (v->sh[0] < 2 || v->st[0] == 1)); bool k = false; for (Box *q = v->base; q; q = q->base) k |= q == a; hj_outi(8, k); hj_outi(9, v->writable);" % o,
                    ints={6: 1, 7: 1, 8: 1, 9: 1, 21: k})
                for i, (c, (code, order)) in enumerate(CHANGES.items()):
                    if order not in (None, ty.order): continue
                    # the array shows the number's components after the change
                    val = {0: spec.POS, STEP: spec.POS, PARAM: spec.POS}
                    add("%s_%d" % (at, i), "%s, then %s" % (at, c), V + code + READ + " { const T &x = *number<T>(a); for (long i = 0; i < v->sh[0]; i++) hj_out(30, x.ptr()[%d + i]); } Box *u = attr(a, \"%s\"); for (long i = 0; i < u->sh[0]; i++) hj_out(31, u->p[i * u->st[0]]);" % (o, at),
                        pairs={20: 30, 31: 30} if k else {}, ints={21: k}, values=val)
                new = [sy(700000 + i - o) if o <= i < o + k else keep[i] for i in range(L)]
                # writing through it
                W = " for (long i = 0; i < v->sh[0]; i++) v->p[i * v->st[0]] = hj_sym(700000 + i);"
                add(at + "_write", "writing through %s" % at, V + W + ' content<T>(0, a); Box *f = attr(a, "f"); hj_out(25, f->f);', exact={0: new, 25: [new[0]]}, ints={1: n, 2: L, 21: k})
                add(at + "_write2", "writing through %s after arithmetic on the number" % at, V + '(void)inplace(a, b, "__iadd__", "__add__", "__radd__"); (void)inplace(a, b, "__isub__", "__sub__", "__rsub__");' + CHANGES["data[:] = ..."][0].replace("700000", "800000") + W + " content<T>(0, a);",
                    exact={0: [sy(700000 + i - o) if o <= i < o + k else sy(800000 + i) for i in range(L)]}, ints={1: n, 2: L, 21: k})
                add(at + "_two", "two arrays of %s" % at, V + 'Box *u = attr(a, "%s"); for (long i = 0; i < u->sh[0]; i++) u->p[i * u->st[0]] = hj_sym(700000 + i);' % at + READ, exact={20: new[o:o + k]} if k else {}, ints={21: k})
                # of a copy: not connected
                add(at + "_copy", "%s of a copy" % at, 'Box *c = unary(a, "__copy__"); Box *v = attr(c, "%s"); bool k = false; for (Box *q = v->base; q; q = q->base) k |= q == c; hj_outi(8, k);' % at + W + " content<T>(0, a);", exact={0: keep}, ints={1: n, 2: L, 8: 1})
                # of a temporary result
                add(at + "_temp", "%s of a sum" % at, 'Box *c = binary(a, b, "__add__", "__radd__"); Box *v = attr(c, "%s"); bool k = false; for (Box *q = v->base; q; q = q->base) k |= q == c; hj_outi(8, k); hj_outi(6, !v->sh[0] || v->p == number<T>(c)->ptr() + %d);' % (at, o), ints={6: 1, 8: 1})
                if ty.dyn:
                    add(at + "_resize", "%s read after the number was resized" % at, V + '(void)method(a, "resize", num(n + 30)); hj_outi(22, 1);' + READ + " { const T &x = *number<T>(a); for (long i = 0; i < v->sh[0]; i++) hj_out(30, i < %s ? x.ptr()[%d + i] : 0.0); }" % ("v->sh[0]" if at == "g" else "n + 1", o), pairs={20: 30} if k and at == "g" else {})
            if ty.order == 2:
                M = 'Box *v = method(a, "hm", text("%s")); '
                W = " for (long i = 0; i < v->sh[0]; i++) for (long j = 0; j < v->sh[1]; j++) v->p[i * v->st[0] + j * v->st[1]] = hj_sym(700000 + i * n + j);"
                for md in ("full", "zeros"):
                    mat = [sy(hpos(n, i, j)) if j >= i or md == "full" else 0 for i in range(n) for j in range(n)]
                    add("hm_write_" + md, "writing to hm('%s')" % md, M % md + W + " content<T>(0, a);", exact={0: keep}, ints={1: n, 2: L})
                    R = " for (long i = 0; i < v->sh[0]; i++) for (long j = 0; j < v->sh[1]; j++) hj_out(25, v->p[i * v->st[0] + j * v->st[1]]);"
                    for i, c in enumerate(("data[:] = ...", "a *= b", "set_hm")):
                        add("hm_%s_%d" % (md, i), "hm('%s'), then %s" % (md, c), M % md + CHANGES[c][0] + R, exact={25: mat} if n else {})
                    add("hm_two_" + md, "two matrices of hm('%s')" % md, M % md + "{ Box *u = v; " + (M % md).replace("Box *v", "Box *v2") + "for (long i = 0; i < v2->sh[0]; i++) for (long j = 0; j < v2->sh[1]; j++) v2->p[i * v2->st[0] + j * v2->st[1]] = 0; (void)u; }" + R, exact={25: mat} if n else {})
                    add("hm_alive_" + md, "hm('%s') of a released number" % md, 'Box *c = unary(a, "__copy__"); ' + (M % md).replace("method(a", "method(c") + "c->c->destroy(c->ptr);" + R, exact={25: mat} if n else {})
    s.judge("arrays and the live number", same_problem, kinds=MEMORY)
    chk.rules = ["data and g start at the address of the component they show, are writable and hold a reference to the number", "after any change through the Python interface the array's cells denote the number's components, and writes through the array are the number's components",
                 "hm shares nothing with the number"]
    chk.expected_min = 3000
    return chk.finish(explanation="Arrays taken from symbolic numbers of every exported class, followed by every kind of change (attribute, method, in-place operator, another array), read back through the array and through the number; ownership of the memory is part of the model of pybind11.",
                      assumptions=["the model of pybind11 in stubs/py applies return value policies as pybind11 does"])
