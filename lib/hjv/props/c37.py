from ..ops import *
from ..sparse import *

BITS = {"float": 24, "double": 53, "long double": 64}
NARROW = {"narrow"}
RULE = "no value of the scalar type passes through a narrower type"


def run(chk):
    chk.shown = 0
    for eigen in (False, True):
        s = Suite(chk, tag="e" if eigen else "", flags=build.EIGEN if eigen else ())
        for sc in BITS:
            for ty in [Ty(o, k, sc) for o in (1, 2) for k in ((2, None) if not chk.thorough else (0, 1, 2, 5, 9, 16, None))]:
                for op in catalogue():
                    if op.eigen != eigen: continue
                    for n in ty.ns((3,) + ((0, 1, 8) if chk.thorough else ())):
                        if not op.fits(ty, n): continue
                        code = "{ " + decl(op) + " hj_precision(%d); { %s hj_precision(0); %s } }" % (BITS[sc], op.text, "out(0, r);" if op.kind == "num" else "")
                        s.add(ty, op.name, code, dict(name="%s of %s with %d variables" % (op.name, ty.cpp, n), op=op, scalar=sc, values=op.values(), label={0: "result"}), n)
        s.judge(RULE, mk, kinds=NARROW)
    sparse_side(chk)
    chk.rules = ["no conversion of a value to a type with fewer significand bits than the scalar type, no arithmetic and no library function in such a type, unless the operands are constants and the result is exact",
                 "no constant that is the rounding of another number to a narrower type"]
    chk.expected_min = 1000
    return chk.finish(explanation="Every floating-point instruction, call and constant on the interpreted paths of every operation was compared with the width of the scalar type.",
                      assumptions=["the functions of the mathematical library are as accurate as their type"])


SOPS = {"add": "r = a + b", "sub": "r = a - b", "mul": "r = a * b", "div": "r = a / b", "add_s": "r = a + s", "s_sub": "r = s - a", "mul_s": "r = s * a", "div_s": "r = a / s", "s_div": "r = s / a", "neg": "r = -a",
        "iadd": "r = a; r += b", "isub": "r = a; r -= b", "imul": "r = a; r *= b", "idiv": "r = a; r /= b", "imul_s": "r = a; r *= s", "idiv_s": "r = a; r /= s", "iadd_s": "r = a; r += s", "isub_s": "r = a; r -= s",
        "imul_self": "r = a; r *= r", "idiv_self": "r = a; r /= r", "pow": "r = a.pow(s)", "logb": "r = a.log(s)", "atan2": "r = a.atan2(b)", "hypot2": "r = T::hypot(a, b)", "hypot3": "r = T::hypot(a, b, c)", "copy": "r = a",
        "constant": "r = T::constant(s)", "variable": 'r = T::variable("u", s)', "free pow": "r = pow(a, s)", "free pow int": "r = pow(a, 3)"}


def sparse_side(chk):
    s = SSuite(chk)
    for sc in BITS:
        ty = STy(sc)
        for k in spec.UNARY:
            if k not in ("pow", "logb"): SOPS.setdefault(k, "r = a.%s()" % k)
        for nm, st in SOPS.items():
            for A, B in ((3, 6), (0, 5)) + (((7, 0), (0b1011000, 5)) if chk.thorough else ()):
                code = ("const T a = sj<T>(0, A), b = sj<T>(%d, B), c = sj<T>(%d, 1); const S s = hj_sym(%d); (void)s; hj_precision(%d); T r; %s; const S f = r.f(); S t = 0; for (long k = 0; k < N; k++) t += r.d(std::string(name(k))); hj_precision(0); sout(0, r, N);"
                        % (STEP, 2 * STEP, PARAM, BITS[sc], st))
                s.sadd(ty, "p" + nm, code, dict(name="%s of %s, variables %s and %s" % (nm, ty.cpp, show(A), show(B)), A=A, B=B, op=None, values={0: spec.POS, STEP: spec.POS, PARAM: spec.POS}, label={0: "result"}), (A, B))
    s.judge(RULE, mk, kinds=NARROW)


def mk(run, meta): return Problem(run, {}, meta["values"], f32ok=True)
