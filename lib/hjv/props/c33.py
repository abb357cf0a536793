from ..sparse import *

CUBE = [(x,) for x in (0.0, 1.0, -1.0, 0.5)]
PTS = spec.POINTS
CALL = {k: "a.%s()" % k for k in spec.UNARY}
CALL.update(pow="a.pow(s)", logb="a.log(s)", atan2="a.atan2(b)", hypot2="T::hypot(a, b)", hypot3="T::hypot(a, b, c)", add="a + b", sub="a - b", mul="a * b", div="a / b")
FUNS = dict(spec.UNARY, atan2=spec.ATAN2, hypot2=spec.HYPOT2, hypot3=spec.HYPOT3, add=spec.ADD, sub=spec.SUB, mul=spec.MUL, div=spec.DIV)
INPL = {"add": "+=", "sub": "-=", "mul": "*=", "div": "/="}


def uses(f): return "abc"[:f.k] + ("s" if f.nparam else "")


BASE = {"a": 0, "b": STEP, "c": 2 * STEP, "s": PARAM}


def run(chk):
    s, q = Suite(chk), SSuite(chk)
    ints = [(k, v) for k in range(0, 5) for v in (0.0, -0.0, -2.0, 1.0)]
    for ty in all_types() + [Ty(2, 3, "float"), Ty(2, None, "float")]:
        for n in sizes(chk, ty, (0, 1, 2, 3, 6, 17), (4, 8, 33)):
            for k, f in FUNS.items():
                u = uses(f)
                D = " ".join("const S s = hj_sym(%d);" % PARAM if x == "s" else "const T %s = jet<T>(%d, n);" % (x, BASE[x]) for x in u)
                ops = [("s", PARAM) if x == "s" else ("j", BASE[x]) for x in u]
                L = spec.comps(ty.order, n)
                pts = PTS[k]
                if ty.order == 1 and k == "pow": pts = pts + [(0.0, 1.5)]
                m = dict(name="%s of %s with %d variables" % (k, ty.cpp, n), fun=f, ops=ops, uses=u, order=ty.order, n=n, scalar=ty.scalar, pts=pts, ints={1: n, 2: L}, label={0: "result"})
                s.add(ty, k, D + " T r = %s; out(0, r);" % CALL[k], m, n)
                if k in INPL: s.add(ty, k + "_ip", D + " T r = a; r %s b; out(0, r);" % INPL[k], dict(m, name="in-place " + m["name"]), n)
            for e in range(0, 5):
                f = spec.UNARY["pow"]
                s.add(ty, "powi%d" % e, "const T a = jet<T>(0, n); T r = pow(a, %d); out(0, r);" % e, dict(name="pow(a, %d) of %s with %d variables" % (e, ty.cpp, n), fun=f, ops=[("j", 0), ("c", e)], uses="a", order=ty.order, n=n, scalar=ty.scalar,
                      pts=[(0.0,), (-0.0,), (-2.0,), (1.0,)], ints={1: n, 2: spec.comps(ty.order, n)}, label={0: "result"}), n)
    for ty in (STy(), STy("float")):
        for A, B, C in ((1, 3, 2), (0, 0, 0), (7, 5, 0), (0b1011000, 0b0001001, 4)):
            for k, f in FUNS.items():
                u = uses(f)
                ms = dict(zip("abc", (A, B, C)))
                D = " ".join("const S s = hj_sym(%d);" % PARAM if x == "s" else "const T %s = sj<T>(%d, %s);" % (x, BASE[x], x.upper()) for x in u)
                ops = [("s", PARAM) if x == "s" else ("j", BASE[x], ms[x]) for x in u]
                pts = PTS[k] + ([(0.0, 1.5)] if k == "pow" else [])
                m = s_meta("%s of %s, variables %s" % (k, ty.cpp, ", ".join(show(ms[x]) for x in u if x != "s")), f, ops, uses=u, pts=pts)
                m["ops"] = ops
                q.sadd(ty, k, D + " T r = %s; sout(0, r, N);" % CALL[k], m, (A, B, C))
                if k in INPL: q.sadd(ty, k + "_ip", D + " T r = a; r %s b; sout(0, r, N);" % INPL[k], dict(m, name="in-place " + m["name"]), (A, B, C))
            for e in range(0, 5):
                m = s_meta("pow(a, %d) of %s, variables %s" % (e, ty.cpp, show(A)), spec.UNARY["pow"], [("j", 0, A), ("c", e)], uses="a", pts=[(0.0,), (-0.0,), (-2.0,), (1.0,)])
                m["ops"] = [("j", 0), ("c", e)]
                q.sadd(ty, "powi%d" % e, "const T a = sj<T>(0, A); T r = pow(a, %d); sout(0, r, N);" % e, m, (A,))
    s.judge("finite at regular points", mk, kinds=MEMORY)
    q.judge("finite at regular points (sparse)", mk, kinds=MEMORY)
    chk.rules = ["at each listed regular special point, with arbitrary and with vanishing derivatives, every component is finite and equals the chain rule"]
    chk.expected_min = 10000
    return chk.finish(explanation="The result terms of every function and operator are evaluated in the term algebra at the special regular operand values (zeros of both signs, units, axes, integer exponents at zero and at negative bases) combined with patterns of vanishing derivatives, and compared with the chain rule with exact limits.")


def mk(run, meta):
    fun, ops, pts, f32 = meta["fun"], meta["ops"], meta["pts"], meta["scalar"] != "double"
    ids = [BASE[x] for x in meta["uses"]]
    if f32: pts = [p for p in pts if all(abs(v) < 1e15 and (v == 0 or abs(v) > 1e-15) for v in p)]
    dvals, dvf = domain(fun, [(o[0], o[1]) for o in ops])

    def valid(P):
        m = np.ones(P.shape, bool)
        for i, d in dvals.items(): m &= d.valid(P.sym(i))
        if dvf is not None: m &= dvf(P)
        for p in pts:
            e = np.ones(P.shape, bool)
            for i, v in zip(ids, p): e &= P.sym(i) == np.longdouble(v)
            m |= e
        return m
    values = {i: spec.Dom(d.gen, lambda v: v == v) for i, d in dvals.items()}
    special = [dict(zip(ids, p)) for p in pts]
    sparse = "operands" in meta
    if sparse:
        pb = s_problem(run, dict(meta))
    else:
        pb = fun_problem(run, dict(meta, operands=ops))
    # fewer derivative patterns: they are combined with every point
    return Problem(run, pb.want, values, special=special, valid=valid, zeros=(pb.zeros or [])[:3], f32ok=f32, tol=pb.tol, want_mp=pb.want_mp, npts=2)
