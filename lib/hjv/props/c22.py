from ..python import *
from .c16 import OPS as CMP, ALL, VALS

ARITH = [("add", "iadd", "radd", "+", spec.ADD), ("sub", "isub", "rsub", "-", spec.SUB), ("mul", "imul", "rmul", "*", spec.MUL), ("truediv", "itruediv", "rtruediv", "/", spec.DIV)]
RNAME = {"==": ("eq", "eq"), "!=": ("ne", "ne"), "<": ("lt", "gt"), ">": ("gt", "lt"), "<=": ("le", "ge"), ">=": ("ge", "le")}
LITS = [("num(3L)", 3), ("num(2.0)", 2), ("num(1L)", 1), ("num(-0.5)", -0.5)]


def keeps(ty, tags):
    """meta keep of the operands a, b shown by content() at the tags."""
    return {t: ((k * STEP, SM[k]) if ty.sparse else k * STEP) for t, k in tags.items()}


def run(chk):
    s = PySuite(chk)
    for ty in roster():
        for n in psizes(ty, chk):
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")

            def add(name, what, uses, expr, fun, ops, kept, inplace=False, extra=None):
                """expr yields the result; kept: operands that must not change."""
                code = decl(ty, uses) + "Box *r = run([&] { return %s; }); show<T>(0, r); hj_outi(20, r == a);" % expr
                code = code if "a" in uses else code.replace("r == a", "r == b")
                for c in kept: code += " content<T>(%d, %s);" % (30 + 10 * "ab".index(c), c)
                keep = keeps(ty, {30 + 10 * "ab".index(c): "ab".index(c) for c in kept})
                lab = {1: "result"} | {30 + 10 * "ab".index(c): "operand " + c for c in kept}
                m = pmeta("%s: %s" % (w, what), fun, ty, n, ops, keep=keep, ints={20: 1 if inplace else 0} | (extra or {}))
                m["label"] = lab
                m["intnames"][20] = "identity of the result with the left operand"
                s.padd(ty, name, code, m, n)

            add("neg", "-a", "a", 'unary(a, "__neg__")', spec.NEG, "a", "a")
            add("abs", "abs(a)", "a", 'unary(a, "__abs__")', spec.UNARY["abs"], "a", "a")
            add("pow", "a ** s", "as", 'binary(a, num(s), "__pow__", "__rpow__")', spec.UNARY["pow"], "as", "a")
            for i, (e, v) in enumerate((("num(2L)", 2), ("num(3.0)", 3), ("num(-1L)", -1), ("num(0.5)", 0.5), ("num(1L)", 1), ("num(0L)", 0))):
                add("pow%d" % i, "a ** %s" % v, "a", 'binary(a, %s, "__pow__", "__rpow__")' % e, spec.UNARY["pow"], ["a", v], "a")
            for f, i, r, o, fun in ARITH:
                B = 'binary(%%s, %%s, "__%s__", "__%s__")' % (f, r)
                I = 'inplace(%%s, %%s, "__%s__", "__%s__", "__%s__")' % (i, f, r)
                add(f + "_ab", "a %s b" % o, "ab", B % ("a", "b"), fun, "ab", "ab")
                add(f + "_aa", "a %s a" % o, "a", B % ("a", "a"), fun, "aa", "a")
                add(f + "_as", "a %s s" % o, "as", B % ("a", "num(s)"), fun, "as", "a")
                add(f + "_sa", "s %s a" % o, "as", B % ("num(s)", "a"), fun, "sa", "a")
                add(i + "_ab", "a %s= b" % o, "ab", I % ("a", "b"), fun, "ab", "b", True)
                add(i + "_aa", "a %s= a" % o, "a", I % ("a", "a"), fun, "aa", "", True)
                add(i + "_as", "a %s= s" % o, "as", I % ("a", "num(s)"), fun, "as", "", True)
                for k, (e, v) in enumerate(LITS):
                    if n not in (0, 2, 3): continue
                    add("%s_al%d" % (f, k), "a %s %s" % (o, v), "a", B % ("a", e), fun, ["a", v], "a")
                    add("%s_la%d" % (f, k), "%s %s a" % (v, o), "a", B % (e, "a"), fun, [v, "a"], "a")
                    add("%s_al%d" % (i, k), "a %s= %s" % (o, v), "a", I % ("a", e), fun, ["a", v], "", True)
            # operators that need not exist: a TypeError or the right result
            for nm, what, uses, expr, fun, ops in (("rpow", "s ** a", "as", 'binary(num(s), a, "__pow__", "__rpow__")', spec.RPOW, "as"), ("rpow2", "2.0 ** a", "a", 'binary(num(2.0), a, "__pow__", "__rpow__")', spec.RPOW, ["a", 2]),
                                                   ("rpow3", "3 ** a", "a", 'binary(num(3L), a, "__pow__", "__rpow__")', spec.RPOW, ["a", 3]), ("pown", "a ** b", "ab", 'binary(a, b, "__pow__", "__rpow__")', spec.POWN, "ab"),
                                                   ("pown2", "a ** a", "a", 'binary(a, a, "__pow__", "__rpow__")', spec.POWN, "aa"), ("pos", "+a", "a", 'unary(a, "__pos__")', spec.POS_, "a"),
                                                   ("ipow", "a **= s", "as", 'inplace(a, num(s), "__ipow__", "__pow__", "__rpow__")', spec.UNARY["pow"], "as"), ("ipow2", "a **= 2", "a", 'inplace(a, num(2L), "__ipow__", "__pow__", "__rpow__")', spec.UNARY["pow"], ["a", 2])):
                m = pmeta("%s: %s" % (w, what), fun, ty, n, ops)
                m["optional"], m["ints"] = True, {}
                s.padd(ty, nm, decl(ty, uses) + "Box *r = run([&] { return %s; }); if (!r) { hj_outi(90, ended); return; } show<T>(0, r);" % expr, m, n)
            # comparisons
            code, wb, lab, ints = decl(ty, "abs"), {}, {}, {}
            one = np.longdouble(1)
            for i, (o, f) in enumerate(CMP):
                for j, (x, y, p, q) in enumerate((("a", "b", 0, STEP), ("a", "num(s)", 0, PARAM), ("num(s)", "b", PARAM, STEP), ("a", "a", 0, 0), ("a", "num(1L)", 0, None), ("num(1.0)", "b", None, STEP))):
                    t = 100 + 100 * i + 10 * j
                    code += ' show<T>(%d, run([&] { return compare(%s, %s, "__%s__", "__%s__"); }));' % (t, x, y, *RNAME[o])
                    wb[t + 1] = (lambda f, p, q: lambda P: [f(one if p is None else P.sym(p), one if q is None else P.sym(q))])(f, p, q)
                    ints[t] = BOOL
                    lab[t + 1] = "%s %s %s" % (x, o, y)
            code += " content<T>(30, a); content<T>(40, b);"
            special = [{0: u, STEP: v, PARAM: v} for u in VALS for v in VALS]
            m = dict(name="%s: comparisons" % w, scalar="double", wantb=wb, label=lab | {30: "operand a", 40: "operand b"}, values={0: ALL, STEP: ALL, PARAM: ALL}, special=special, ints=ints, order=ty.order, n=n, N=NAMES, sparse=ty.sparse,
                     intnames={t: "kind of a comparison's result" for t in ints})
            if ty.sparse: m["keep"] = keeps(ty, {30: 0, 40: 1})
            else:
                L = spec.comps(ty.order, n)
                m["exact"] = {t: (lambda b, L: lambda P: P.block(b, L))(b, L) for t, b in ((30, 0), (40, STEP))}
            s.padd(ty, "cmp", code, m, n)
    s.judge("Python operator", problem, kinds=MEMORY)
    chk.rules = ["the special method found by Python's protocol (reflected form after NotImplemented) yields a number of the class whose components are the operation's chain rule, operands in order",
                 "out-of-place results are new objects and leave the operands as they were; in-place operators return the left object", "comparisons yield the truth of the comparison of the values", "operators the classes need not offer (plain ** number, number ** number, +number, **=) raise TypeError or yield the right result"]
    chk.expected_min = 8000
    return chk.finish(explanation="Every arithmetic, power, negation, absolute-value, in-place and comparison operator on symbolic instances of every exported class, through a model of pybind11's dispatch and of Python's binary operator protocol.",
                      assumptions=["the model of pybind11 in stubs/py dispatches as pybind11 does"])


def problem(run, meta):
    if "optional" in meta and run.outi(90) == 1: return Problem(run, {}, {})
    if "wantb" in meta and not meta["sparse"]: return same_problem(run, meta)
    return pproblem(run, meta)

