from ..ops import *
from ..sparse import *

# statements on a target x; y: a further number that may be used up
TARGET = {"x = b": "x = b;", "x = b, larger": "x = d;", "x = T(b)": "x = T(d);", "x = move(y)": "x = std::move(y);", "x += b": "x += b;", "x -= b": "x -= b;", "x *= b": "x *= b;", "x /= b": "x /= b;",
          "x += x": "x += x;", "x -= x": "x -= x;", "x *= x": "x *= x;", "x /= x": "x /= x;", "x *= s": "x *= s;", "x += s": "x += s;", "x /= s": "x /= s;", "x = x * b": "x = x * b;", "x = -b": "x = -b;", "x = s / b": "x = s / b;",
          "x = x.sin()": "x = x.sin();", "x = sqrt(x * x + b * b)": "x = sqrt(x * x + b * b);", "x = hypot(x, b)": "x = hypot(x, b);", "x = s": "x = s;", "x.set_f": "x.set_f(s);", "set_zero": "x.set_zero();", "swap": "std::swap(x, y);", "x = create": "x = T::create(d.data());"}
DENSE = {"resize up": "x.resize(n + 3);", "resize down": "x.resize(n / 2);", "resize same": "x.resize(n);", "resize 0": "x.resize(0);", "pad_left": "x = x.pad_left(n + 2);", "pad_right": "x = x.pad_right(n + 4);", "zero": "x = T::zero(n + 5);",
         "constant": "x = T::constant(s, n + 1);", "variable": "x = T::variable(0, s, n + 1);", "list": "x = T{s, s, s};", "data": "x = T(d.data(), d.size());", "variables": "x = T::variables(std::vector<S>(n + 2, s)).front();"}
SPARSE = {"variable": 'x = T::variable("a rather long name of a variable", s);', "constant": "x = T::constant(s);", "long": "x += T::variable(\"a rather long name of a variable\", s);", "d": "(void)x.d(\"a rather long name of a variable\");",
          "hypot3": "x = T::hypot(x, b, d);", "atan2": "x = x.atan2(b);"}
# a failure that does not leave the operation must not show in its result
LOOP = "long k = 1, other = 0; for (; k < 60; k++) { %s hj_fail_alloc(k); try { %s const long left = hj_fail_left(); hj_fail_alloc(0); if (left) { %s break; } %s continue; } catch (const std::bad_alloc &) { hj_fail_alloc(0); } catch (...) { hj_fail_alloc(0); other++; } %s } hj_outi(90, k); hj_outi(91, other); hj_thaw();"


def loop(before, st, after, show):
    return LOOP % (before, st, show % "7000", show % "100 * k + 50", after)
INTN = {90: "failing allocations until the operation succeeds", 91: "failures that end in another exception than std::bad_alloc"}


def run(chk):
    chk.failures = 0
    results(chk)
    targets(chk)
    sparse_side(chk)
    chk.units.append("%d allocation failures" % chk.failures)
    chk.rules = ["whichever allocation of an operation fails, std::bad_alloc leaves it, nothing stays allocated, no operand is written and nothing outside an object is accessed",
                 "dense numbers: the target of an assignment, compound assignment, resize or padding still holds its previous components and size, and can be used and assigned afterwards", "sparse numbers: the target stays usable: it can be read and assigned"]
    chk.expected_min = 5000
    return chk.finish(explanation="Every operation was interpreted once for each of its allocation points with that allocation throwing std::bad_alloc.",
                      assumptions=["allocation happens through operator new or malloc, which throw std::bad_alloc or return null when memory runs out"])


def results(chk):
    for eigen in (False, True):
        s = Suite(chk, tag="e" if eigen else "", flags=build.EIGEN if eigen else ())
        for ty in [Ty(1, None), Ty(2, None), Ty(2, None, "float")]:
            for op in catalogue():
                if op.eigen != eigen: continue
                for n in (0, 1, 3) + ((2, 8, 17) if chk.thorough else ()):
                    if not op.fits(ty, n): continue
                    fr = " ".join("freeze(%s, %d);" % (c, i) for i, c in enumerate("abc") if c in op.uses)
                    ou = " ".join("out(%d, %s);" % (3 * i, c) for i, c in enumerate("abc") if c in op.uses)
                    B = {"a": 0, "b": STEP, "c": 2 * STEP}
                    code = decl(op) + fr + loop("", op.text, "", "out(%s, r);" if op.kind == "num" else "(void)(%s);") + ou
                    s.add(ty, op.name, code, dict(name="%s of %s with %d variables, out of memory" % (op.name, ty.cpp, n), order=ty.order, scalar=ty.scalar, op=op, keep={3 * i: B[c] for i, c in enumerate("abc") if c in op.uses},
                                                  n=n, label={0: "operand a", 3: "operand b", 6: "operand c"}, ints={91: 0}, intnames=INTN, values=op.values()), n)
        rs = s.judge("running out of memory is harmless", mk_result, kinds=MEMORY | PURITY, leaks=True)
        chk.failures += sum(max(0, (r.outi(90) or 1) - 1) for r, _ in rs)


def held(run, meta, keep):
    """The blocks of keep {tag: function of the points} hold; results of a
    run in which a failed allocation went unnoticed equal the others."""
    pairs = {100 * i + 50: 7000 for i in failures(run, meta) if run.out(100 * i + 50)}
    for t in pairs: meta["label"][t] = "the result although an allocation failed"
    return same_problem(run, dict(meta, exact={t: f for t, f in keep.items() if run.out(t)}, pairs=pairs))


def block(base, L): return lambda P: P.block(base, L)


def mk_result(run, meta):
    return held(run, meta, {t: block(b, spec.comps(meta["order"], meta["n"])) for t, b in meta["keep"].items()})


def targets(chk):
    s = Suite(chk)
    for ty in [Ty(1, None), Ty(2, None), Ty(2, None, "float")]:
        for n in (0, 1, 3) + ((2, 5, 17) if chk.thorough else ()):
            for i, (nm, st) in enumerate({**TARGET, **DENSE}.items()):
                big = n + 4
                code = ("const T b = jet<T>(%d, n); const T d = jet<T>(%d, n + 4); const S s = hj_sym(%d); (void)s; freeze(b, 1); freeze(d, 2); " % (STEP, 2 * STEP, PARAM)
                        + loop("T x = jet<T>(0, n); T y = jet<T>(%d, n + 4);" % (3 * STEP), st, "out(100 * k, x); x = b; out(100 * k + 10, x); x = d; x += d; hj_outi(100 * k + 20, x.size());", "out(%s, x);") + " out(0, b); out(3, d);")
                s.add(ty, "t%d" % i, code, dict(name="%s of %s with %d variables, out of memory" % (nm, ty.cpp, n), order=ty.order, scalar=ty.scalar, n=n, big=big, ints={91: 0}, ints_of=target_ints, intnames=dict(INTN), label={0: "operand b", 3: "operand d"}, values={STEP: spec.NZ, 0: spec.POS, 2 * STEP: spec.NZ}), n)
    rs = s.judge("running out of memory leaves the target as it was", mk_target, kinds=MEMORY | PURITY, leaks=True)
    chk.failures += sum(max(0, (r.outi(90) or 1) - 1) for r, _ in rs)


def failures(run, meta):
    k = run.outi(90)
    if k is None or k >= 60: raise TM.Undecidable("the operation does not end after 60 failing allocations")
    return range(1, k)


def target_ints(run, meta):
    n, r = meta["n"], dict(meta["ints"])
    if run.outi(90) is None: return r | {90: "a count"}
    for i in range(1, run.outi(90)):
        t = 100 * i
        if run.out(t + 50): continue
        r |= {t + 1: n, t + 2: spec.comps(meta["order"], n), t + 11: n, t + 20: meta["big"]}
        meta["intnames"] |= {t + 1: "size of the target after allocation %d failed" % i, t + 2: "number of components of the target after allocation %d failed" % i, t + 11: "size after a later assignment", t + 20: "size after a later assignment"}
        meta["label"] |= {t: "the target after allocation %d failed" % i, t + 10: "the target after a later assignment"}
    return r


def mk_target(run, meta):
    L, B = spec.comps(meta["order"], meta["n"]), spec.comps(meta["order"], meta["big"])
    return held(run, meta, {0: block(STEP, L), 3: block(2 * STEP, B)} | {100 * i: block(0, L) for i in failures(run, meta)} | {100 * i + 10: block(STEP, L) for i in failures(run, meta)})


def sparse_side(chk):
    s = SSuite(chk, head=SHEAD + "template <class T> void sread(const T &x, long N) { for (long k = 0; k < N; k++) (void)x.d(std::string(name(k))); }\n")
    for ty in (STy(), STy("float")):
        for A, B in ((3, 6), (0, 5), (7, 0)) + (((0b1011000, 5), (7, 7)) if chk.thorough else ()):
            for i, (nm, st) in enumerate({**{k: v for k, v in TARGET.items() if k not in ("x = create", "x.set_f", "set_zero")}, **SPARSE}.items()):
                code = ("const T b = sj<T>(%d, B); const T d = sj<T>(%d, 7); const S s = hj_sym(%d); (void)s; " % (STEP, 2 * STEP, PARAM)
                        + loop("T x = sj<T>(0, A); T y = sj<T>(%d, 7);" % (3 * STEP), st, "hj_outi(100 * k, x.size() <= 8); sread(x, N); x = b; sout(100 * k + 10, x, N); x += d; hj_outi(100 * k + 20, x.size());", "sout(%s, x, N);") + " sout(0, b, N); sout(3, d, N);")
                s.sadd(ty, "t%d" % i, code, dict(name="%s of %s, variables %s and %s, out of memory" % (nm, ty.cpp, show(A), show(B)), A=A, B=B, ints={91: 0}, ints_of=sparse_ints, intnames=dict(INTN), label={0: "operand b", 3: "operand d"}, values={STEP: spec.NZ, 0: spec.POS, 2 * STEP: spec.NZ}), (A, B))
    rs = s.judge("running out of memory leaves a sparse number usable", mk_sparse, kinds=MEMORY, leaks=True)
    chk.failures += sum(max(0, (r.outi(90) or 1) - 1) for r, _ in rs)


def sparse_ints(run, meta):
    B, r = meta["B"], dict(meta["ints"])
    if run.outi(90) is None: return r | {90: "a count"}
    for i in range(1, run.outi(90)):
        t = 100 * i
        if run.out(t + 50): continue
        r |= {t: 1, t + 11: bits(B), t + 20: bits(B | 7)}
        meta["intnames"][t] = "the target mentions known variables only after allocation %d failed" % i
        meta["label"][t + 10] = "the target after a later assignment"
    return r


def sblock(base, mask): return lambda P: np.stack(sjet(P.sym, base, mask, NAMES, np.zeros(P.shape, np.longdouble)))


def mk_sparse(run, meta):
    return held(run, meta, {0: sblock(STEP, meta["B"]), 3: sblock(2 * STEP, 7)} | {100 * i + 10: sblock(STEP, meta["B"]) for i in failures(run, meta)})
