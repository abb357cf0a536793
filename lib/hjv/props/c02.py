from ..dense import *

FLOATS = [Ty(2, 3, "float"), Ty(1, 4, "float"), Ty(2, None, "float")]
AB = "const T a = jet<T>(0, n); const T b = jet<T>(STEP, n);".replace("STEP", str(STEP))
OPS = [("add", "+", spec.ADD), ("sub", "-", spec.SUB), ("mul", "*", spec.MUL), ("div", "/", spec.DIV)]


def run(chk):
    s = Suite(chk)
    for ty in all_types() + FLOATS:
        for n in sizes(chk, ty):
            for name, op, fun in OPS:
                s.add(ty, name, AB + "T r = a %s b; out(0, r);" % op, jet_meta("a %s b of %s with %d variables" % (op, ty.cpp, n), fun, ty, n, [("j", 0), ("j", STEP)]), n)
                s.add(ty, name + "self", "const T a = jet<T>(0, n); T r = a %s a; out(0, r);" % op, jet_meta("a %s a of %s with %d variables" % (op, ty.cpp, n), fun, ty, n, [("j", 0), ("j", 0)]), n)
                # the result written over an operand, temporaries as operands
                s.add(ty, name + "over", AB + "T x = a; T y = b; x = x %s y; y = T(a) %s T(b); out(0, x); out(3, y);" % (op, op),
                      jet_meta("x = x %s y of %s with %d variables" % (op, ty.cpp, n), fun, ty, n, [("j", 0), ("j", STEP)], tags=(0, 3)), n)
            s.add(ty, "neg", "const T a = jet<T>(0, n); T r = -a; out(0, r);", jet_meta("-a of %s with %d variables" % (ty.cpp, n), spec.NEG, ty, n, [("j", 0)]), n)
    s.judge("arithmetic chain rule", fun_problem)
    chk.rules = ["f = a o b; g = o_a a_i + o_b b_i; h_ij = sum of o_xy x_i y_j + o_a a_ij + o_b b_ij with the partial derivatives of the operation"]
    chk.expected_min = 5000
    return chk.finish(explanation="Sum, difference, product, quotient (distinct operands, the same object twice, result assigned over an operand) and negation, interpreted on symbolic operands for each order, size and storage; every component's term is compared with the bilinear chain rule, packed Hessian entry by entry.")
