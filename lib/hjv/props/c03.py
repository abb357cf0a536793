from ..dense import *
from .c02 import OPS, FLOATS

A = "const T a = jet<T>(0, n); const S s = hj_sym(%d);" % PARAM
LIT = [("lit2", "2", 2.0), ("lit1", "1.0", 1.0), ("litm3", "-3", -3.0), ("lit0", "0", 0.0)]


def run(chk):
    s = Suite(chk)
    for ty in all_types() + FLOATS:
        for n in sizes(chk, ty):
            for name, op, fun in OPS:
                m = lambda w, ops, **k: jet_meta("%s of %s with %d variables" % (w, ty.cpp, n), fun, ty, n, ops, **k)
                j, c = ("j", 0), ("s", PARAM)
                s.add(ty, name + "_js", A + "T r = a %s s; out(0, r);" % op, m("a %s s" % op, [j, c]), n)
                s.add(ty, name + "_sj", A + "T r = s %s a; out(0, r);" % op, m("s %s a" % op, [c, j]), n)
                s.add(ty, name + "_ip", A + "T x = a; x %s= s; out(0, x);" % op, m("x %s= s" % op, [j, c]), n)
                # a constant number instead of the scalar gives the same
                s.add(ty, name + "_cn", A + "T k = T::constant(s, n); T r = a %s k; T q = k %s a; T p = k; p %s= a; out(0, r); out(3, q); out(6, p);" % (op, op, op),
                      m("a %s constant(s)" % op, [j, c]), n)
                s.metas[list(s.metas)[-1]][-1]["tags"] = (0,)
                if n in (0, 1, 3, 16):
                    for ln, lit, val in LIT:
                        if ty.scalar != "double" and "." in lit: continue
                        if not (name == "div" and val == 0):
                            s.add(ty, name + "_j" + ln, A + "T r = a %s (%s); out(0, r);" % (op, lit), m("a %s (%s)" % (op, lit), [j, ("c", val)]), n)
                            s.add(ty, name + "_ip" + ln, A + "T x = a; x %s= (%s); out(0, x);" % (op, lit), m("x %s= (%s)" % (op, lit), [j, ("c", val)]), n)
                        s.add(ty, name + "_" + ln + "j", A + "T r = (%s) %s a; out(0, r);" % (lit, op), m("(%s) %s a" % (lit, op), [("c", val), j]), n)
    s.judge("scalar operand is a constant", fun_problem)
    chk.rules = ["the chain rule of the operation with the scalar's derivatives zero; division by the scalar scales every component by 1/s"]
    chk.expected_min = 5000
    return chk.finish(explanation="Mixed operators in both operand positions, in-place forms and the equivalent constant number, with a symbolic scalar and with integer and floating literals, on symbolic numbers of each order, size and storage.")
