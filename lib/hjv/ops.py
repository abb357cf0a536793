"""Catalogue of the operations of dense numbers, used by the checks that
quantify over "every operation"."""
from .dense import *

# Each operation: name, operands it takes, statement computing the result 'r'
# (a number with n variables unless 'other'), a Fun for its domain.
# a, b, c: const numbers, s: scalar


class Op:
    def __init__(self, name, text, uses, fun=None, doms=None, order=None, dyn=None, minn=0, kind="num", eigen=False, rn=None):
        self.name, self.text, self.uses, self.fun, self.order, self.dyn, self.minn, self.kind, self.eigen, self.rn = name, text, uses, fun, order, dyn, minn, kind, eigen, rn
        self.doms = doms or {}

    def fits(self, ty, n):
        return (self.order in (None, ty.order)) and (self.dyn in (None, ty.dyn)) and n >= self.minn

    def values(self):
        """Domain of the operand values."""
        if self.doms: return self.doms
        d = {"a": 0, "b": STEP, "c": 2 * STEP, "s": PARAM}
        v = {d[k]: spec.REAL for k in self.uses}
        if self.fun is not None:
            ds = list(self.fun.dom) if isinstance(self.fun.dom, list) else [self.fun.dom]
            ds += [self.fun.pdom] * self.fun.nparam
            for k, x in zip(self.uses, ds): v[d[k]] = x
        return v


def catalogue():
    r = []
    for k in spec.UNARY:
        if k == "pow": t, u = "a.pow(s)", "as"
        elif k == "logb": t, u = "a.log(s)", "as"
        else: t, u = "a.%s()" % k, "a"
        r.append(Op(k, "T r = %s;" % t, u, spec.UNARY[k]))
    U = spec.UNARY
    for nm, o, f in (("add", "+", spec.ADD), ("sub", "-", spec.SUB), ("mul", "*", spec.MUL), ("div", "/", spec.DIV)):
        r.append(Op(nm, "T r = a %s b;" % o, "ab", f))
        r.append(Op(nm + "_js", "T r = a %s s;" % o, "as", f))
        r.append(Op(nm + "_sj", "T r = s %s a;" % o, "as", doms={0: spec.NZ, PARAM: spec.REAL}))
        r.append(Op(nm + "_ip", "T r = a; r %s= b;" % o, "ab", f))
        r.append(Op(nm + "_ips", "T r = a; r %s= s;" % o, "as", f))
        r.append(Op(nm + "_ipx", "T r = a; r %s= r;" % o, "a", doms={0: spec.NZ}))
    r.append(Op("neg", "T r = -a;", "a"))
    r.append(Op("atan2", "T r = a.atan2(b);", "ab", spec.ATAN2))
    r.append(Op("hypot2", "T r = T::hypot(a, b);", "ab", spec.HYPOT2))
    r.append(Op("hypot3", "T r = T::hypot(a, b, c);", "abc", spec.HYPOT3))
    # copies, factories, component access
    r.append(Op("copy", "T r(a);", "a"))
    r.append(Op("move", "T m(a); T r(std::move(m));", "a"))
    r.append(Op("assign", "T r = T::zero(n); r = a;", "a"))
    r.append(Op("moveassign", "T r = T::zero(n); T m(a); r = std::move(m);", "a"))
    r.append(Op("selfassign", "T r = a; T &q = r; r = q;", "a"))
    r.append(Op("swap", "T r = b; T m = a; std::swap(r, m);", "ab"))
    r.append(Op("create", "typename T::Data d = a.data(); T r = T::create(d);", "a"))
    r.append(Op("constant", "T r = T::constant(s, n);", "s"))
    r.append(Op("constant0", "T r = T::constant(s);", "s", dyn=False))
    r.append(Op("zero", "T r = T::zero(n);", ""))
    r.append(Op("zero0", "T r = T::zero();", "", dyn=False))
    r.append(Op("variable", "T r = T::variable(n - 1, s, n);", "s", minn=1))
    r.append(Op("variable0", "T r = T::variable(n / 2, s);", "s", minn=1, dyn=False))
    r.append(Op("fromscalar", "T r(s);", "s", dyn=False))
    r.append(Op("set_zero", "T r = a; r.set_zero();", "a"))
    r.append(Op("set_f", "T r = a; r.set_f(s);", "as"))
    r.append(Op("set_g", "T r = a; for (long i = 0; i < n; i++) r.set_g(i, b.g(i));", "ab"))
    r.append(Op("set_h", "T r = a; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) r.set_h(i, j, b.h(i, j));", "ab", order=2))
    r.append(Op("set_hk", "T r = a; for (long i = 0; i < n * (n + 1) / 2; i++) r.set_h(i, b.h(i));", "ab", order=2))
    # results that are not a number with n variables
    r.append(Op("pad_left", "T r = a.pad_left(n + 2);", "a", dyn=True, rn=2))
    r.append(Op("pad_right", "T r = a.pad_right(n + 3);", "a", dyn=True, rn=3))
    r.append(Op("pad_left0", "T r = a.pad_left(n);", "a", dyn=True))
    r.append(Op("pad_right0", "T r = a.pad_right(n);", "a", dyn=True))
    r.append(Op("resize_same", "T r = a; r.resize(n);", "a", dyn=True))
    r.append(Op("resize_zero", "T r = a; r.resize(0); r.resize(n);", "a", dyn=True))
    r.append(Op("constant_min", "T r = T::constant(s, n); T q = T::variable(n - 1, s, n); r += q;", "s", minn=1))
    r.append(Op("vars", "std::vector<S> w(n, s); auto v = T::variables(w); T r = T::zero(n); for (auto &e : v) r += e;", "s"))
    r.append(Op("sizes", "T r = a; hj_outi(71, T::data_length_from_size(n)); hj_outi(72, T::size_from_data_length(T::data_length_from_size(n)));", "a"))
    r.append(Op("resize_up", "T r = a; r.resize(n + 2);", "a", dyn=True, rn=2))
    r.append(Op("resize_down", "T r = a; r.resize(n - 1);", "a", dyn=True, minn=1, rn=-1))
    r.append(Op("cmp", "hj_outb(50, a == b); hj_outb(51, a != b); hj_outb(52, a < b); hj_outb(53, a > b); hj_outb(54, a <= b); hj_outb(55, a >= b);"
                " hj_outb(56, a == s); hj_outb(57, s < a); hj_outb(58, a >= s); hj_outb(59, s != a);", "abs", kind="bool"))
    r.append(Op("read", "hj_out(60, a.f()); for (long i = 0; i < n; i++) hj_out(61, a.g(i));", "a", kind="val"))
    r.append(Op("readh", "for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) hj_out(62, a.h(i, j)); for (long i = 0; i < n * (n + 1) / 2; i++) hj_out(63, a.h(i));", "a", order=2, kind="val"))
    # needs Eigen
    D = "auto d = disp<T>(800000, n);"
    r.append(Op("eval", D + " hj_out(64, a.eval(d));", "a", kind="val", eigen=True))
    r.append(Op("hm_zeros", "typename T::Matrix m = a.hm(\"zeros\"); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) hj_out(65, m(i, j));", "a", order=2, kind="val", eigen=True))
    r.append(Op("hm_full", "typename T::Matrix m = a.hm(\"full\"); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) hj_out(65, m(i, j));", "a", order=2, kind="val", eigen=True))
    r.append(Op("set_hm", "typename T::Matrix m = b.hm(\"full\"); T r = a; r.set_hm(m);", "ab", order=2, eigen=True))
    r.append(Op("ag", "auto g = a.ag(); for (long i = 0; i < n; i++) hj_out(66, g(i));", "a", kind="val", eigen=True))
    r.append(Op("ag_write", "T r = a; auto g = r.ag(); for (long i = 0; i < n; i++) g(i) = b.g(i);", "ab", eigen=True))
    r.append(Op("adata_write", "T r = a; auto g = r.adata(); for (long i = 0; i < r.data_length(); i++) g(i) = b.ptr()[i];", "ab", eigen=True))
    r.append(Op("set_adata", "T r = a; T m = b; auto g = m.adata(); r.set_adata(g);", "ab", eigen=True))
    r.append(Op("from_gradient", "T r = T::from_gradient(s, a.ag());", "as", order=1, eigen=True))
    r.append(Op("from_arrays", "typename T::Matrix m = a.hm(\"full\"); T r = T::from_arrays(s, a.ag(), m);", "as", order=2, eigen=True))
    return r


DECL = {"a": "const T a = jet<T>(0, n);", "b": "const T b = jet<T>(%d, n);" % STEP, "c": "const T c = jet<T>(%d, n);" % (2 * STEP), "s": "const S s = hj_sym(%d);" % PARAM}


def decl(op):
    return " ".join(DECL[k] for k in op.uses)


def bases(op):
    return [{"a": 0, "b": STEP, "c": 2 * STEP}[k] for k in op.uses if k != "s"]
