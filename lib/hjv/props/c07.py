from ..ops import *
from ..sparse import *


def run(chk):
    for eigen in (False, True):
        s = Suite(chk, tag="e" if eigen else "", flags=build.EIGEN if eigen else ())
        static = (0, 1, 2, 3, 5, 8, 16) if eigen else range(17)
        for ty in all_types(static):
            for op in catalogue():
                if op.eigen != eigen: continue
                for n in (sizes(chk, ty) if not eigen else ty.ns((0, 1, 3, 6, 17))):
                    if not op.fits(ty, n): continue
                    names = [k for k in op.uses if k != "s"]
                    code = decl(op) + " " + " ".join("freeze(%s, %d);" % (k, i) for i, k in enumerate(names))
                    if op.kind == "num":
                        # a second evaluation on other operands must not change the first result, and writing into results must not change operands
                        second = "{ %s T z = [&] { %s return r; }(); for (long k = 0; k < z.data_length(); k++) z.ptr()[k] = hj_sym(600000 + k); }" % (" ".join(
                            ("const T %s = jet<T>(%d, n);" % (k, 300000 + i * 100000)) if k != "s" else "const S s = hj_sym(990000);" for i, k in enumerate(op.uses)), op.text)
                        code += " " + op.text + " out(0, r); hj_thaw(); " + second + " out(3, r); for (long k = 0; k < r.data_length(); k++) r.ptr()[k] = hj_sym(700000 + k);"
                    else:
                        code += " { " + op.text + " }"
                    code += " hj_thaw();" + "".join(" out(%d, %s);" % (10 + 3 * i, k) for i, k in enumerate(names))
                    base = {"a": 0, "b": STEP, "c": 2 * STEP}
                    s.add(ty, op.name, code, dict(name="%s of %s with %d variables" % (op.name, ty.cpp, n), op=op, order=ty.order, n=n, scalar=ty.scalar,
                                                  keep={10 + 3 * i: base[k] for i, k in enumerate(names)},
                                                  label={10 + 3 * i: "operand " + k for i, k in enumerate(names)} | {3: "the first result after another evaluation"}), n)
        s.judge("purity", mk, kinds=PURITY)
    copies(chk)
    sparse(chk)
    chk.rules = ["no store of the operation reaches the storage of a const operand or a mutable program-wide object (stores are resolved by the points-to part of the abstract state)",
                 "overwriting a result leaves operands unchanged; a later evaluation leaves earlier results unchanged",
                 "the initial value of function-local static objects must not depend on operands"]
    chk.expected_min = 3000
    return chk.finish(explanation="Effect analysis of every operation of dense and sparse numbers: each store in the interpreted call tree is resolved to the object it writes, and stores into frozen operands or global objects are violations; afterwards all operands must still hold their symbolic contents, also after the result is overwritten and after a second evaluation.")


def mk(run, meta):
    want = {}
    L = spec.comps(meta["order"], meta["n"])
    for t, b in meta["keep"].items(): want[t] = (lambda b: lambda P: P.block(b, L))(b)
    r3 = run.out(3)
    if r3:
        o0 = run.out(0)
        if any(o[2] != "t" for o in o0): raise TM.Undecidable("component without a value")
        need = TM.cone(run.terms, [o[3] for o in o0])

        def same(P):
            v = TM.eval_np(run.terms, P.sym, P.symi, P.shape, np.longdouble, True, need)
            return np.stack([v[o[3]] for o in o0]) if o0 else []
        want[3] = same
    return Problem(run, want, meta["op"].values(), npts=3)


def copies(chk):
    """Copies, moves and assignments of dense numbers give independent objects."""
    s = Suite(chk, tag="copy")
    W = "for (long k = 0; k < %s.data_length(); k++) %s.ptr()[k] = hj_sym(700000 + k);"
    forms = {
        "copyctor": "T a = jet<T>(0, n); T r(a); " + W % ("r", "r") + " out(10, a);",
        "copyctor2": "T a = jet<T>(0, n); T r(a); " + W % ("a", "a") + " out(10, r);",
        "copyassign": "T a = jet<T>(0, n); T r = jet<T>(%d, n); r = a; %s out(10, r);" % (STEP, W % ("a", "a")),
        "movector": "T a = jet<T>(0, n); T r(std::move(a)); a = jet<T>(%d, n); %s out(10, r);" % (STEP, W % ("a", "a")),
        "moveassign": "T a = jet<T>(0, n); T r = jet<T>(%d, n); r = std::move(a); a = jet<T>(%d, n); %s out(10, r);" % (STEP, STEP, W % ("a", "a")),
        "byvalue": "T a = jet<T>(0, n); auto f = [](T x) { %s return x; }; T r = f(a); out(10, a);" % (W % ("x", "x")),
        "vector": "std::vector<T> v; v.push_back(jet<T>(0, n)); v.push_back(v[0]); v.push_back(v[0]); T &q = v[1]; %s out(10, v[0]); out(13, v[2]);" % (W % ("q", "q")),
    }
    for ty in all_types():
        for k, c in forms.items():
            for n in sizes(chk, ty):
                m = dict(name="%s of %s with %d variables" % (k, ty.cpp, n), order=ty.order, keep={10: 0}, keepn={10: n}, label={10: "the independent number", 13: "the other copy"}, ints={11: n})
                if k == "vector":
                    m["keep"][13] = 0
                    m["keepn"][13] = n
                s.add(ty, k, c, m, n)
    s.judge("copies are independent", keep_problem, kinds=PURITY | MEMORY)


def sparse_ops():
    """name -> (result expression over a, b, c, s; operands)"""
    r = {}
    for nm, o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
        r[nm] = "a %s b" % o
        r[nm + "_js"] = "a %s s" % o
        r[nm + "_sj"] = "s %s a" % o
    r["neg"] = "-a"
    for k in spec.UNARY: r[k] = "a.pow(s)" if k == "pow" else "a.log(s)" if k == "logb" else "a.%s()" % k
    r["atan2"] = "a.atan2(b)"
    r["hypot2"] = "T::hypot(a, b)"
    r["hypot3"] = "T::hypot(a, b, c)"
    r["copy"] = "T(a)"
    return r


def sparse(chk):
    s = SSuite(chk)
    ty = STy()
    D = "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); const T c = sj<T>(%d, C); const S s = hj_sym(%d); " % (STEP, 2 * STEP, PARAM)
    FR = "hj_freeze_heap(7); hj_freeze(&a, sizeof a, 0); hj_freeze(&b, sizeof b, 1); hj_freeze(&c, sizeof c, 2); "
    masks = [(3, 6, 5), (0, 1, 0), (7, 7, 7), (0b1011000, 0b0101001, 1)]
    vals = {0: spec.POS, STEP: spec.POS, 2 * STEP: spec.POS, PARAM: spec.POS}
    for nm, e in sparse_ops().items():
        v = dict(vals)
        if nm in spec.UNARY:
            v[0] = spec.UNARY[nm].dom
            if spec.UNARY[nm].nparam: v[PARAM] = spec.UNARY[nm].pdom
        for A, B, C in masks:
            s.sadd(ty, nm, D + FR + "T r = %s; hj_thaw(); sout(0, a, N); sout(3, b, N); sout(6, c, N); r += sj<T>(500000, 127); r = T(S(1)); sout(9, a, N); sout(12, b, N);" % e,
                   dict(name="%s of %s, variables %s, %s and %s" % (nm, ty.cpp, show(A), show(B), show(C)), keep={0: (0, A), 3: (STEP, B), 6: (2 * STEP, C), 9: (0, A), 12: (STEP, B)}, values=v,
                        ints={1: bits(A), 4: bits(B), 7: bits(C), 10: bits(A), 13: bits(B)}), (A, B, C))
            # the result does not change with its operands or with later evaluations
            s.sadd(ty, nm + "_later", "T a = sj<T>(0, A); T b = sj<T>(%d, B); T c = sj<T>(%d, C); S s = hj_sym(%d); T r = %s; sout(30, r, N); a = sj<T>(300000, 127); b += sj<T>(400000, 127); c = T(S(2)); s = hj_sym(990000); { T q = %s; (void)q; } sout(0, r, N);" % (STEP, 2 * STEP, PARAM, e, e),
                   dict(name="%s of %s before changing its operands, variables %s, %s and %s" % (nm, ty.cpp, show(A), show(B), show(C)), pairs={0: 30}, values=v), (A, B, C))
    for nm, e in (("read", "(void)a.f(); (void)a.size(); for (long k = 0; k < N; k++) (void)a.d(name(k));"), ("cmp", "bool q = (a < b) | (a == s) | (s >= b) | (a != b); hj_outb(90, q);"), ("eval", "{ typename T::Data d = entries<T>(800000, 127); (void)a.eval(d); }")):
        for A, B, C in masks:
            s.sadd(ty, nm, D + FR + e + " hj_thaw(); sout(0, a, N); sout(3, b, N);", dict(name="%s of %s, variables %s and %s" % (nm, ty.cpp, show(A), show(B)), keep={0: (0, A), 3: (STEP, B)}, values=vals, ints={1: bits(A), 4: bits(B)}), (A, B, C))
    for nm, e in (("copyctor", "T a = sj<T>(0, A); T r(a); r *= sj<T>(%d, B); sout(0, a, N);" % STEP), ("copyctor2", "T a = sj<T>(0, A); T r(a); a *= sj<T>(%d, B); sout(0, r, N);" % STEP),
                  ("assign", "T a = sj<T>(0, A); T r = sj<T>(%d, B); r = a; a /= sj<T>(%d, B); sout(0, r, N);" % (STEP, STEP)), ("move", "T a = sj<T>(0, A); T r(std::move(a)); a = sj<T>(%d, B); sout(0, r, N);" % STEP),
                  ("moveassign", "T a = sj<T>(0, A); T r = sj<T>(%d, B); r = std::move(a); a = sj<T>(%d, B); sout(0, r, N);" % (STEP, STEP)), ("self", "T a = sj<T>(0, A); T &q = a; a = q; sout(0, a, N);"),
                  ("swap", "T r = sj<T>(%d, B); T a = sj<T>(0, A); std::swap(a, r); a += r; sout(0, r, N);" % STEP)):
        for A, B, C in masks:
            s.sadd(ty, nm, e, dict(name="%s of %s, variables %s and %s" % (nm, ty.cpp, show(A), show(B)), keep={0: (0, A)}, values=vals, ints={1: bits(A)}), (A, B, C))
    s.judge("purity of sparse numbers", lambda r, m: same_problem(r, m) if "pairs" in m else s_problem(r, m), kinds=PURITY | MEMORY)
