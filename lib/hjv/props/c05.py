from ..dense import *
from .c02 import OPS, FLOATS


def run(chk):
    s = Suite(chk)
    j, k = ("j", 0), ("j", STEP)
    X = "T x = jet<T>(0, n);"
    XB = X + "const T b = jet<T>(%d, n);" % STEP
    for ty in all_types() + FLOATS:
        for n in sizes(chk, ty):
            L = spec.comps(ty.order, n)
            for name, op, fun in OPS:
                def m(w, ops, **kw):
                    mm = jet_meta("%s of %s with %d variables" % (w, ty.cpp, n), fun, ty, n, ops, **kw)
                    mm["ints"][9] = 1
                    mm["intnames"][9] = "identity of the returned reference with the target"
                    return mm
                s.add(ty, name + "_n", XB + "T &q = (x %s= b); hj_outi(9, &q == &x); out(0, x); out(3, b);" % op, m("x %s= b" % op, [j, k], keep={3: STEP}, label={0: "target", 3: "right operand"}), n)
                s.add(ty, name + "_self", X + "T &q = (x %s= x); hj_outi(9, &q == &x); out(0, x);" % op, m("x %s= x" % op, [j, j]), n)
                s.add(ty, name + "_s", X + "const S c = hj_sym(%d); auto &q = (x %s= c); hj_outi(9, &q == &x); out(0, x);" % (PARAM, op), m("x %s= scalar" % op, [j, ("s", PARAM)]), n)
                s.add(ty, name + "_f", X + "auto &q = (x %s= x.f()); hj_outi(9, &q == &x); out(0, x);" % op, m("x %s= x.f()" % op, [j, ("s", 0)]), n)
                s.add(ty, name + "_chain", XB + "T &q = ((x %s= b) %s= b); hj_outi(9, &q == &x); T y = jet<T>(0, n); y = y %s b; y = y %s b; for (long i = 0; i < y.data_length(); i++) y.ptr()[i] = y.ptr()[i]; out(0, x); out(3, y);" % (op, op, op, op),
                      m("(x %s= b) %s= b" % (op, op), [j, k], chain=True), n)
                for i in sorted({1, L // 2, L - 1}):
                    if i < 1 or i >= L: continue
                    s.add(ty, name + "_d%s" % ("" if ty.dyn else i), X + "auto &q = (x %s= x.ptr()[hj_arg(%d)]); hj_outi(9, &q == &x); out(0, x);" % (op, 1 if ty.dyn else 0),
                          m("x %s= x.data[%d]" % (op, i), [j, ("s", i)]), n, args=[i])
                if n:
                    s.add(ty, name + "_g", X + "auto &q = (x %s= x.g(n - 1)); hj_outi(9, &q == &x); out(0, x);" % op, m("x %s= x.g(%d)" % (op, n - 1), [j, ("s", n)]), n)
                    if ty.order == 2:
                        s.add(ty, name + "_h", X + "auto &q = (x %s= x.h(0, n - 1)); hj_outi(9, &q == &x); out(0, x);" % op, m("x %s= x.h(0, %d)" % (op, n - 1), [j, ("s", 1 + n + n - 1)]), n)
            # compound expressions on the right that involve the target
            s.add(ty, "rhs_expr", XB + "x *= x + b; out(0, x); T y = jet<T>(0, n); y = y * (y + b); out(3, y);", dict(name="x *= x + b of %s with %d variables" % (ty.cpp, n), order=ty.order, n=n, same=True, scalar=ty.scalar), n)
            s.add(ty, "rhs_expr2", XB + "x /= x * b; out(0, x); T y = jet<T>(0, n); y = y / (y * b); out(3, y);", dict(name="x /= x * b of %s with %d variables" % (ty.cpp, n), order=ty.order, n=n, same=True, scalar=ty.scalar), n)
    s.judge("in-place equals out-of-place", mk)
    chk.rules = ["after x op= y, x denotes the chain rule of x op y applied to the previous contents, y is unchanged unless it is x, and the returned reference is x; same for scalars, including scalars stored in x"]
    chk.expected_min = 5000
    return chk.finish(explanation="Each compound assignment on symbolic operands: distinct operand, the target itself, plain scalar, scalar read from any component of the target (must-alias), chained, and expressions involving the target on the right.")


def mk(run, meta):
    if meta.get("same") or meta.get("chain"):
        outs = [o[3] for o in run.out(3)]
        need = TM.cone(run.terms, outs)
        bad = [o for o in run.out(3) + run.out(0) if o[2] != "t"]
        if bad: raise TM.Undecidable("component without a value")
        f32 = meta["scalar"] != "double"

        def want(P):
            v = TM.eval_np(run.terms, P.sym, P.symi, P.shape, np.longdouble, not f32, need)
            return np.stack([v[t] for t in outs]) if outs else []
        return Problem(run, {0: want}, {0: spec.REAL, STEP: spec.NZ}, f32ok=f32, tol=1e-5 if f32 else 3e-14, zeros=zero_patterns(meta["order"], meta["n"], [0, STEP]))
    return fun_problem(run, meta)
