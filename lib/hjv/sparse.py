"""Shared parts of the checks on sparse numbers."""
from .dense import *

SHEAD = '#include "hjsparse.h"\n'
SFLAGS = ()
NAMES = 7


class STy:
    order, dyn, size = 1, False, None

    def __init__(self, scalar="double"):
        self.scalar, self.cpp, self.tag = scalar, "SScalar<%s>" % scalar, "s" + scalar[0]

    def nexpr(self, k=0): return "hj_arg(0)"


def bits(m): return bin(m).count("1")


class SSuite(Suite):
    """Entries over sparse numbers; arguments: N (how many names), then masks."""

    def __init__(self, chk, tag="", flags=(), head=SHEAD):
        Suite.__init__(self, chk, head, SFLAGS + tuple(flags), "s" + tag)

    def sadd(self, ty, name, code, meta, masks=(), N=NAMES, unit=None):
        f = "P_%s_%s" % (re.sub(r"\W", "_", name), ty.tag)
        u = unit or ty.tag
        if self.done.setdefault((u, f), code) != code: raise AssertionError("two bodies for entry " + f)
        if f not in self.made.setdefault(u, set()):
            self.made[u].add(f)
            self.src.setdefault(u, [self.head]).append('extern "C" void %s() { using T = %s; using S = T::Scalar; const long N = hj_arg(0), A = hj_arg(1), B = hj_arg(2), C = hj_arg(3); (void)A; (void)B; (void)C; %s }\n' % (f, ty.cpp, code))
        ms = (list(masks) + [0, 0, 0])[:3]
        self.ents.setdefault(u, []).append(" ".join([f, str(N)] + [str(m) for m in ms]))
        meta = dict(meta, scalar=ty.scalar)
        meta.setdefault("N", N)
        self.metas.setdefault(u, []).append(meta)


def sjet(sym, base, mask, N, zero):
    """Value and derivatives of the operand as a jet over all N names."""
    return [sym(base)] + [sym(base + 1 + k) if mask >> k & 1 else zero for k in range(N)]


def s_problem(run, meta):
    """The blocks meta['tags'] are fun applied to the operands ("j", base,
    mask), ("s", id), ("c", value); blocks of meta['keep'] {tag: (base, mask)}
    still hold their contents."""
    N = meta["N"]
    f32 = meta["scalar"] != "double"
    want, wmp, values, vf, sp = {}, {}, {}, None, []
    fun = meta.get("fun")
    if fun is not None:
        ops = meta["operands"]
        plain = [(o[0], o[1]) for o in ops]
        values, vf = domain(fun, plain)
        sp = specials(fun, plain)

        def w(P):
            jets = [np.stack(sjet(P.sym, o[1], o[2], N, np.zeros(P.shape, np.longdouble))) if o[0] == "j" else None for o in ops]
            val = [j[0] if j is not None else opnd(P, o) for j, o in zip(jets, ops)]
            return spec.chain(1, N, jets[:fun.k], fun.partials(val))

        def wm(sym):
            val, jets = [], []
            for o in ops:
                if o[0] == "j":
                    j = np.array(sjet(sym, o[1], o[2], N, mpmath.mpf(0)), object)
                    jets.append(j)
                    val.append(j[0])
                else:
                    jets.append(None)
                    val.append(mpmath.mpf(o[1]) if o[0] == "c" else sym(o[1]))
            return list(spec.chain(1, N, jets[:fun.k], fun.partials(val, "mpmath")))
        for t in meta.get("tags", (0,)):
            want[t] = w
            if not f32: wmp[t] = wm
    for t, (b, m) in meta.get("keep", {}).items():
        want[t] = (lambda b, m: lambda P: np.stack(sjet(P.sym, b, m, N, np.zeros(P.shape, np.longdouble))))(b, m)
    want.update(meta.get("exact", {}))
    values = values | meta.get("values", {})
    # vanishing derivatives
    zeros = []
    for o in meta.get("operands", []):
        if o[0] != "j": continue
        ids = [o[1] + 1 + k for k in range(N) if o[2] >> k & 1]
        if ids: zeros += [set(ids), {ids[0]}, {ids[-1]}]
    if len(zeros) > 3: zeros.append(set().union(*zeros))
    return Problem(run, want, values, special=sp + meta.get("special", []), valid=vf, zeros=zeros, f32ok=f32, tol=1e-5 if f32 else meta.get("tol", 3e-15), want_mp=wmp, npts=4, wantb=meta.get("wantb"))


def s_meta(name, fun, ops, N=NAMES, **kw):
    un = 0
    for o in ops:
        if o[0] == "j": un |= o[2]
    m = dict(name=name, fun=fun, operands=ops, N=N, ints={1: bits(un), 2: bits(un)}, intnames={1: "number of variables of the result", 2: "number of variables after reading derivatives"}, label={0: "result"})
    ints = kw.pop("ints", {})
    m.update(kw)
    m["ints"] = dict(m["ints"], **{}) | ints
    return m


def show(mask):
    return "{" + ",".join(str(k) for k in range(27) if mask >> k & 1) + "}"


PAIRS3 = [(a, b) for a in range(8) for b in range(8)]
MORE = [(0b1000, 0b1000000), (0b10000, 0b1), (0b1111111, 0b0), (0b0, 0b1111111), (0b1111111, 0b1111111), (0b1011, 0b1110100), (0b0100000, 0b1)]
BIG = (1 << 27) - 1
BIGS = [(BIG, BIG), (BIG, 5), (0x2aaaaaa, 0x5555555), (0x1fff, BIG & ~0x1fff)]
MASKS = list(range(8)) + [8, 16, 0b1111111, 0b1011000]
SBASES = (0, STEP, 2 * STEP)
