"""The oracle: elementary functions, their partial derivatives (obtained by
symbolic differentiation), domains, and the chain rule for packed jets."""
import itertools
import numpy as np
import sympy as sp

LD = np.longdouble
_x = sp.symbols("x0 x1 x2", real=True)
_p = sp.symbols("p0", real=True)


class Fun:
    """A function of k numbers and m plain parameters with value, first and
    second partial derivatives (with respect to the numbers)."""

    def __init__(self, name, expr, k, dom, special=(), manual=None, nparam=0, pdom=None, pspecial=()):
        self.name, self.k, self.dom, self.special, self.nparam, self.pdom, self.pspecial = name, k, dom, special, nparam, pdom, pspecial
        self.expr, self.manual = expr, manual
        self._c = {}

    def _fns(self, mod):
        if mod in self._c:
            return self._c[mod]
        vs = list(_x[:self.k]) + [_p][:self.nparam]
        e = self.expr
        items = [e] + [sp.diff(e, v) for v in vs[:self.k]]
        for i in range(self.k):
            for j in range(i, self.k):
                items.append(sp.diff(e, vs[i], vs[j]))
        r = [sp.lambdify(vs, it, modules=mod) for it in items]
        self._c[mod] = r
        return r

    def partials(self, args, mod="numpy"):
        """args: numbers then parameters -> (value, [d_k], {(k,l): d_kl})"""
        if self.manual:
            return self.manual(args, mod)
        with np.errstate(all="ignore"):
            v = [f(*args) for f in self._fns(mod)]
        d1 = v[1:1 + self.k]
        d2, t = {}, 1 + self.k
        for i in range(self.k):
            for j in range(i, self.k):
                d2[i, j] = d2[j, i] = v[t]
                t += 1
        return v[0], d1, d2


def _u(expr):
    return expr


def _cbrt(a, mod):
    x = a[0]
    if mod == "numpy":
        with np.errstate(all="ignore"):
            c = np.cbrt(x)
            return c, [1 / (3 * c * c)], {(0, 0): -2 / (9 * c ** 5)}
    import mpmath as m
    c = m.sign(x) * m.cbrt(abs(x))
    return c, [1 / (3 * c ** 2)], {(0, 0): -2 / (9 * c ** 5)}


def _pow(a, mod):
    x, b = a
    if mod == "numpy":
        with np.errstate(all="ignore"):
            x = np.asarray(x, LD)
            b = np.asarray(b, LD)
            return (np.power(x, b), [np.where(b == 0, 0 * b, b * np.power(x, b - 1))],
                    {(0, 0): np.where(b * (b - 1) == 0, 0 * b, b * (b - 1) * np.power(x, b - 2))})
    import mpmath as m
    p = lambda e: m.mpf(x) ** e
    return p(b), [m.mpf(0) if b == 0 else b * p(b - 1)], {(0, 0): m.mpf(0) if b * (b - 1) == 0 else b * (b - 1) * p(b - 2)}


def _abs(a, mod):
    x = a[0]
    if mod == "numpy":
        return np.abs(x), [np.sign(x)], {(0, 0): 0 * x}
    import mpmath as m
    return abs(x), [m.sign(x)], {(0, 0): m.mpf(0)}


def _atan2(a, mod):
    y, x = a
    if mod == "numpy":
        with np.errstate(all="ignore"):
            r2 = x * x + y * y
            return np.arctan2(y, x), [x / r2, -y / r2], {(0, 0): -2 * x * y / r2 ** 2, (0, 1): (y * y - x * x) / r2 ** 2, (1, 0): (y * y - x * x) / r2 ** 2, (1, 1): 2 * x * y / r2 ** 2}
    import mpmath as m
    r2 = x * x + y * y
    return m.atan2(y, x), [x / r2, -y / r2], {(0, 0): -2 * x * y / r2 ** 2, (0, 1): (y * y - x * x) / r2 ** 2, (1, 0): (y * y - x * x) / r2 ** 2, (1, 1): 2 * x * y / r2 ** 2}


def R(lo, hi, both=False, gap=0.0):
    """Domain of one number: uniform in (lo, hi); with both signs if asked."""
    def gen(rng, n):
        v = rng.uniform(lo, hi, n)
        if both:
            v = v * np.where(rng.random(n) < 0.5, -1, 1)
        return v
    gen.valid = lambda v: (np.abs(v) >= 0) if both else (v == v)
    return gen


class Dom:
    def __init__(self, gen, valid):
        self.gen, self.valid = gen, valid


def _uni(lo, hi, both=False):
    def gen(rng, n):
        v = rng.uniform(lo, hi, n)
        return v * np.where(rng.random(n) < 0.5, -1, 1) if both else v
    return gen


def both(a, b):
    """Intersection of two domains (generated from the second)."""
    return Dom(b.gen, lambda v: a.valid(v) & b.valid(v))


REAL = Dom(_uni(0.2, 3, True), lambda v: np.isfinite(v) & (np.abs(v) < 50))
ANY = Dom(_uni(0.2, 3, True), lambda v: np.isfinite(v))
NZ = Dom(_uni(0.2, 3, True), lambda v: (np.abs(v) > 1e-50) & (np.abs(v) < 1e50))
POS = Dom(_uni(0.2, 4), lambda v: (v > 1e-50) & (v < 1e50))
UNIT = Dom(_uni(-0.95, 0.95), lambda v: np.abs(v) < 0.999)
GT1 = Dom(_uni(1.1, 5), lambda v: (v > 1.001) & (v < 1e40))
# away from the poles, and small enough that a rounding of pi does not matter
TAN = Dom(_uni(0.1, 1.4, True), lambda v: (np.abs(np.cos(v)) > 0.02) & (np.abs(v) < 20))

X = _x[0]
UNARY = {}


def _add(name, expr, dom, special=(), **kw):
    UNARY[name] = Fun(name, expr, 1, dom, special, **kw)


_add("reciprocal", 1 / X, NZ, (1, -1, 2))
_add("sqrt", sp.sqrt(X), POS, (1, 4))
_add("cbrt", None, NZ, (1, -1, 8), manual=_cbrt)
_add("sin", sp.sin(X), REAL, (0, 1))
_add("cos", sp.cos(X), REAL, (0, 1))
_add("tan", sp.tan(X), TAN, (0, 1))
_add("asin", sp.asin(X), UNIT, (0, 0.5))
_add("acos", sp.acos(X), UNIT, (0, 0.5))
_add("atan", sp.atan(X), REAL, (0, 1, -1))
_add("sinh", sp.sinh(X), REAL, (0, 1))
_add("cosh", sp.cosh(X), REAL, (0, 1))
_add("tanh", sp.tanh(X), Dom(_uni(0.1, 2.5, True), lambda v: np.abs(v) < 8), (0, 1))
_add("asinh", sp.asinh(X), REAL, (0, 1, -1))
_add("acosh", sp.acosh(X), GT1, (2,))
_add("atanh", sp.atanh(X), UNIT, (0, 0.5))
_add("exp", sp.exp(X), REAL, (0, 1))
_add("log", sp.log(X), POS, (1, 2))
_add("log2", sp.log(X) / sp.log(2), POS, (1, 2))
_add("log10", sp.log(X) / sp.log(10), POS, (1, 10))
_add("abs", None, NZ, (1, -1), manual=_abs)
# with one plain parameter
UNARY["pow"] = Fun("pow", None, 1, Dom(_uni(0.2, 3), lambda v: (v > 1e-6) & (v < 1e6)), (1, 2), manual=_pow, nparam=1,
                   pdom=Dom(_uni(0.3, 3.5, True), lambda v: np.abs(v) < 12), pspecial=(0, 1, 2, 3, -1, -2, 0.5))
UNARY["logb"] = Fun("logb", sp.log(X) / sp.log(_p), 1, POS, (1, 2), nparam=1, pdom=Dom(_uni(1.3, 6), lambda v: (v > 1.05) & (v < 1e10)), pspecial=(2, 10))

ADD = Fun("add", _x[0] + _x[1], 2, [ANY, ANY])
SUB = Fun("sub", _x[0] - _x[1], 2, [ANY, ANY])
MUL = Fun("mul", _x[0] * _x[1], 2, [ANY, ANY])
DIV = Fun("div", _x[0] / _x[1], 2, [Dom(REAL.gen, lambda v: np.abs(v) < 1e30), Dom(NZ.gen, lambda v: (np.abs(v) > 1e-30) & (np.abs(v) < 1e30))])
ATAN2 = Fun("atan2", None, 2, [REAL, REAL], manual=_atan2)
HYPOT2 = Fun("hypot2", sp.sqrt(_x[0] ** 2 + _x[1] ** 2), 2, [REAL, REAL])
HYPOT3 = Fun("hypot3", sp.sqrt(_x[0] ** 2 + _x[1] ** 2 + _x[2] ** 2), 3, [REAL, REAL, REAL])
NEG = Fun("neg", -X, 1, ANY)


# operations Python would have further operators for
POSN = Dom(_uni(0.3, 3), lambda v: (v > 1e-6) & (v < 1e6))
RPOW = Fun("rpow", _p ** X, 1, REAL, (0, 1, 2), nparam=1, pdom=POSN, pspecial=(1, 2))
POWN = Fun("pown", _x[0] ** _x[1], 2, [POSN, REAL])
POS_ = Fun("pos", X + 0, 1, ANY)


# ------------------------------------------------------------- packed jets

def comps(order, n):
    return 1 + n if order == 1 else (n + 1) * (n + 2) // 2


_pairs_cache = {}


def pairs(n):
    r = _pairs_cache.get(n)
    if r is None:
        i, j = np.triu_indices(n)
        r = _pairs_cache[n] = (i, j)
    return r


def chain(order, n, jets, part):
    """jets: list of packed component arrays, each of shape (L, S); constants
    may be given as None (zero derivatives).  part: (value, d1, d2) at the
    operand values.  -> (L, S)"""
    f, d1, d2 = part
    S = np.shape(f)
    L = comps(order, n)
    dt = object if (np.asarray(f).dtype == object) else LD
    out = np.zeros((L,) + S, dt)
    out[0] = f
    for a, d in zip(jets, d1):
        if a is None: continue
        out[1:L] = out[1:L] + d * a[1:L]
    if order == 2 and n:
        i, j = pairs(n)
        k = len(jets)
        acc = out[1 + n:]
        for p in range(k):
            if jets[p] is None: continue
            for q in range(k):
                if jets[q] is None: continue
                acc = acc + d2[p, q] * jets[p][1 + i] * jets[q][1 + j]
        out[1 + n:] = acc
    return out


# regular special values of the operands (and of the parameter, last) per function
POINTS = {k: [(0.0,), (-0.0,), (1.0,), (-1.0,)] for k in ("sin", "cos", "sinh", "cosh", "tanh", "asinh", "atan", "exp", "tan")}
POINTS.update({"asin": [(0.0,), (-0.0,), (0.5,)], "acos": [(0.0,), (-0.0,), (0.5,)], "atanh": [(0.0,), (-0.0,), (0.5,)], "log": [(1.0,), (1e-30,), (1e30,)], "log2": [(1.0,), (2.0,), (1e-30,)], "log10": [(1.0,), (10.0,), (1e-30,)],
            "sqrt": [(1.0,), (4.0,), (1e-30,), (1e30,)], "cbrt": [(1.0,), (-1.0,), (-8.0,), (1e-30,), (-1e30,)], "reciprocal": [(1.0,), (-1.0,), (1e30,), (-1e-30,)], "acosh": [(2.0,), (1e10,)], "abs": [(1e-40,), (-1e-40,), (1.0,), (-3.0,)],
            "logb": [(1.0, 2.0), (1.0, 10.0), (2.0, 2.0), (1.0, 0.5), (3.0, 0.5)],
            "pow": [(0.0, float(k)) for k in range(0, 7)] + [(-0.0, float(k)) for k in range(0, 4)] + [(x, float(k)) for x in (-2.0, -1.0, 1.0, -0.5) for k in range(-3, 5)] + [(0.0, 2.5), (0.0, 3.5), (1.0, 0.5), (1.0, 0.0)],
            "atan2": [(0.0, 2.0), (-0.0, 2.0), (2.0, 0.0), (-2.0, 0.0), (2.0, -0.0), (1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (0.0, 1e-10), (1e-10, 0.0)],
            "hypot2": [(0.0, 2.0), (2.0, 0.0), (0.0, -2.0), (-2.0, 0.0), (-0.0, 3.0), (3.0, 4.0), (-3.0, -4.0), (1e-20, 0.0), (0.0, 1e20)],
            "hypot3": [t for v in (2.0, -2.0) for t in ((v, 0.0, 0.0), (0.0, v, 0.0), (0.0, 0.0, v), (v, v, 0.0), (0.0, v, -v), (v, 0.0, 1.0), (-0.0, 0.0, v))],
            "add": list(itertools.product((0.0, -0.0, 1.0), (0.0, 1.0))), "sub": list(itertools.product((0.0, -0.0, 1.0), (0.0, 1.0))), "mul": list(itertools.product((0.0, -0.0, 1.0, -1.0), (0.0, 1.0, -1.0))), "div": list(itertools.product((0.0, -0.0, 1.0), (1.0, -1.0, 1e20, -1e-20)))})
