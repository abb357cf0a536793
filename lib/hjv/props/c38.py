import itertools
from ..ops import *
from ..sparse import *

F1 = {k: (lambda g: lambda x: g(x))(TM._NP1[k]) for k in ("sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "log2", "log10")}
F1 |= {"reciprocal": lambda x: 1 / x, "abs": np.abs, "neg": lambda x: -x, "pow": np.power, "logb": lambda x, b: np.log(x) / np.log(b), "copy": lambda x: x, "move": lambda x: x, "assign": lambda x: x, "set_zero": lambda x: x * 0}
F2 = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}
VALUE = dict(F1)
for k, g in F2.items():
    for v in ("", "_js", "_ip", "_ips"): VALUE[k + v] = g
    VALUE[k + "_sj"] = (lambda g: lambda a, s: g(s, a))(g)
    VALUE[k + "_ipx"] = (lambda g: lambda a: g(a, a))(g)
VALUE |= {"atan2": np.arctan2, "hypot2": np.hypot, "hypot3": lambda x, y, z: np.sqrt(x * x + y * y + z * z), "constant": lambda s: s, "variable": lambda s: s, "set_f": lambda a, s: s}
del VALUE["set_zero"]
INF, NAN = float("inf"), float("nan")
ONE = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.7, -3.7, 40.0, -40.0, 1e-30, -1e-30, INF, -INF, NAN]
FEW = [0.0, -0.0, 1.0, -2.0, 0.5, 1e-30, INF, -INF, NAN]
FINITE = [0.0, -0.0, 1.0, -2.0, 1e-20]
EVERY = spec.Dom(spec.REAL.gen, lambda v: v == v or True)
EVERY = spec.Dom(spec.REAL.gen, lambda v: np.ones(np.shape(v), bool))


def points(name, ids, blocks):
    """Special operand values, and special values everywhere."""
    if not ids: return []
    base = name.split("_")[0]
    vals = FINITE if base.startswith("hypot") else ONE if len(ids) == 1 else FEW
    r = [dict(zip(ids, v)) for v in itertools.product(vals, repeat=len(ids))]
    # special derivatives as well
    for v in (0.0, INF, NAN):
        r.append({i: v for b, L in blocks for i in range(b + 1, b + L)} | {i: 1.0 for i in ids})
    return r


def run(chk):
    for eigen in (False, True):
        s = Suite(chk, tag="e" if eigen else "", flags=build.EIGEN if eigen else ())
        for ty in [Ty(1, 2), Ty(2, 3), Ty(1, None), Ty(2, None), Ty(2, None, "float")] + ([Ty(o, k) for o in (1, 2) for k in (0, 1, 7, 16)] if chk.thorough else []):
            for op in catalogue():
                if op.eigen != eigen: continue
                for n in ty.ns((0, 2) + ((1, 5, 17) if chk.thorough else ())):
                    if not op.fits(ty, n): continue
                    code = "{ " + decl(op) + " " + op.text + (" out(0, r);" if op.kind == "num" else "") + " }"
                    s.add(ty, op.name, code, dict(name="%s of %s with %d variables" % (op.name, ty.cpp, n), order=ty.order, n=n, op=op.name, uses=op.uses, num=op.kind == "num", scalar=ty.scalar, label={0: "result"}), n)
        s.judge("every operand value is accepted and the value is the plain function's", mk)
    sparse_side(chk)
    chk.rules = ["no exception, failed assertion or abort is reachable for any operand value, infinities and NaN included", "the value component equals the plain function of the operand values wherever that is defined by IEEE arithmetic: also outside the domain (NaN), at poles (infinite) and at points without derivative"]
    chk.expected_min = 1000
    return chk.finish(explanation="The guards of all exits and the term of the value component of every operation were compared with the plain function on the special operand values and on both sides of every branch.",
                      assumptions=["the library functions follow IEC 60559 for special values"])


IDS = {"a": 0, "b": STEP, "c": 2 * STEP, "s": PARAM}


def mk(run, meta):
    ids = [IDS[u] for u in meta["uses"]]
    L = meta.get("L") or spec.comps(meta["order"], meta["n"])
    pb = Problem(run, {}, {i: EVERY for i in ids}, special=points(meta["op"], ids, [(i, L) for i in ids if i != PARAM]), f32ok=meta["scalar"] != "double", tol=1e-5 if meta["scalar"] != "double" else 1e-12)
    g = VALUE.get(meta["op"])
    if g and meta["num"]: pb.total = {0: lambda P: g(*[P.sym(i) for i in ids])}
    return pb


SOPS = {"add": ("a + b", "ab"), "sub": ("a - b", "ab"), "mul": ("a * b", "ab"), "div": ("a / b", "ab"), "add_js": ("a + s", "as"), "sub_js": ("a - s", "as"), "mul_js": ("a * s", "as"), "div_js": ("a / s", "as"), "add_sj": ("s + a", "as"), "sub_sj": ("s - a", "as"),
        "mul_sj": ("s * a", "as"), "div_sj": ("s / a", "as"), "neg": ("-a", "a"), "pow": ("a.pow(s)", "as"), "logb": ("a.log(s)", "as"), "atan2": ("a.atan2(b)", "ab"), "hypot2": ("T::hypot(a, b)", "ab"), "hypot3": ("T::hypot(a, b, c)", "abc"),
        "copy": ("a", "a"), "constant": ("T::constant(s)", "s"), "variable": ('T::variable("u", s)', "s"), "cmp": ("a == b || a < b || a > s || s != a ? a : b", "abs")}
SIP = {"add_ip": ("r += b", "ab"), "sub_ip": ("r -= b", "ab"), "mul_ip": ("r *= b", "ab"), "div_ip": ("r /= b", "ab"), "add_ips": ("r += s", "as"), "sub_ips": ("r -= s", "as"), "mul_ips": ("r *= s", "as"), "div_ips": ("r /= s", "as"), "mul_ipx": ("r *= r", "a"), "div_ipx": ("r /= r", "a")}


def sparse_side(chk):
    s = SSuite(chk)
    ops = {k: ("T r = %s;" % t, u) for k, (t, u) in SOPS.items()} | {k: ("T r = a; %s;" % t, u) for k, (t, u) in SIP.items()} | {k: ("T r = a.%s();" % k, "a") for k in spec.UNARY if k not in ("pow", "logb")}
    for sc in ("double", "float"):
        ty = STy(sc)
        for nm, (t, u) in ops.items():
            for A, B in ((3, 6), (0, 0)) + (((7, 0), (0b1011000, 5)) if chk.thorough else ()):
                code = "const T a = sj<T>(0, A), b = sj<T>(%d, B), c = sj<T>(%d, 1); const S s = hj_sym(%d); (void)s; %s sout(0, r, N);" % (STEP, 2 * STEP, PARAM, t)
                s.sadd(ty, "v" + nm, code, dict(name="%s of %s, variables %s and %s" % (nm, ty.cpp, show(A), show(B)), op=nm, uses=u, num=nm != "cmp", L=1 + NAMES, label={0: "result"}), (A, B))
    s.judge("every operand value is accepted and the value is the plain function's", mk)
