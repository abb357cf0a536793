from ..python import *

U = spec.UNARY
NAMES1 = {k: U[k] for k in ("reciprocal", "sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log", "log2", "log10", "abs")}
NAMES1.update({"arccos": U["acos"], "arcsin": U["asin"], "arctan": U["atan"], "arccosh": U["acosh"], "arcsinh": U["asinh"], "arctanh": U["atanh"]})


def run(chk):
    s = PySuite(chk)
    for ty in roster():
        for n in psizes(ty, chk):
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")
            for f, fun in NAMES1.items():
                s.padd(ty, "m_" + f, decl(ty, "a") + 'show<T>(0, run([&] { return method(a, "%s"); }));' % f, pmeta("%s().%s()" % (w, f), fun, ty, n, "a"), n)
            for kw, arg in (("", "num(s)"), ("base=", 'Kw{"base", num(s)}')):
                s.padd(ty, "m_logb" + kw, decl(ty, "as") + 'show<T>(0, run([&] { return method(a, "log", %s); }));' % arg, pmeta("%s().log(%sb)" % (w, kw), U["logb"], ty, n, "as"), n)
            for f in ("atan2", "arctan2"):
                s.padd(ty, "m_" + f, decl(ty, "ab") + 'show<T>(0, run([&] { return method(a, "%s", b); }));' % f, pmeta("%s().%s(b)" % (w, f), spec.ATAN2, ty, n, "ab"), n)
            H = 'call(attr(global(C), "hypot"), %s)', 'method(a, "hypot", %s)', 'call(global("hypot"), %s)'
            for i, form in enumerate(H[:2] if ty.sparse else H):
                d = ("%s.hypot(a, b%s)", "%s().hypot(b%s)", "hyperjet.hypot(a, b%s) of %s")[i]
                nm = lambda x: d % ((x, w) if i == 2 else (w, x))
                s.padd(ty, "hypot2_%d" % i, decl(ty, "ab") + "show<T>(0, run([&] { return %s; }));" % (form % ("b" if i == 1 else "a, b")), pmeta(nm(""), spec.HYPOT2, ty, n, "ab"), n)
                s.padd(ty, "hypot3_%d" % i, decl(ty, "abc") + "show<T>(0, run([&] { return %s; }));" % (form % ("b, c" if i == 1 else "a, b, c")), pmeta(nm(", c"), spec.HYPOT3, ty, n, "abc"), n)
    s.judge("the method computes the function of its name", pproblem, kinds=MEMORY)
    chk.rules = ["looking the name up on an instance and calling it yields a number of the same class whose components are the chain rule of the named function"]
    chk.expected_min = 5000
    return chk.finish(explanation="The module's initialisation is interpreted against a model of pybind11; every mathematical method and alias of every class it exports is then looked up by name and called on symbolic instances.",
                      assumptions=["the model of pybind11 in stubs/py dispatches as pybind11 does"])
