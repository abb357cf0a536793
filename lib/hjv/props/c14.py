from ..dense import *
from ..check import extra_sizes


def moved(order, n, m, shift):
    """Components of the number with m variables whose variable shift+i is the
    variable i (i < n) of the number with symbols 0..; others zero."""
    L = spec.comps(order, m)
    r = [0.0] * L
    r[0] = ("s", 0)
    for i in range(n):
        if 0 <= i + shift < m: r[1 + i + shift] = ("s", 1 + i)
    if order == 2:
        for i in range(n):
            for j in range(i, n):
                if i + shift < m and j + shift < m: r[hpos(m, i + shift, j + shift)] = ("s", hpos(n, i, j))
    return r


def run(chk):
    EX = {k for k in extra_sizes() if k <= 80}
    s = Suite(chk)
    for ty in [Ty(1, None), Ty(2, None), Ty(2, None, "float"), Ty(1, None, "float")]:
        for n in [k for k in ty.ns((0, 1, 2, 3, 4, 5, 8, 16, 17) + ((6, 7, 9, 12, 33) if chk.thorough else ())) if k <= 80]:
            def add(name, code, exact, ints, args=(), nm=""):
                s.add(ty, name, "const T a = jet<T>(0, n); " + code, dict(name="%s of %s with %d variables" % (nm or name, ty.cpp, n), scalar=ty.scalar, ints=ints, exact=exact, label={0: "result", 3: "the operand"},
                                                                         intnames={1: "size of the result", 2: "number of components of the result"}), n, args)
            keep = lst([("s", k) for k in range(spec.comps(ty.order, n))])
            for m in sorted({n, n + 1, n + 2, n + 5, n + 17} | {k for k in EX if k >= n and n in (0, 2, 5)}):
                I = {1: m, 2: spec.comps(ty.order, m), 4: n}
                add("pad_left", "T r = a.pad_left(hj_arg(1)); out(0, r); out(3, a);", {0: lst(moved(ty.order, n, m, m - n)), 3: keep}, I, [m], "pad_left(%d)" % m)
                add("pad_right", "T r = a.pad_right(hj_arg(1)); out(0, r); out(3, a);", {0: lst(moved(ty.order, n, m, 0)), 3: keep}, I, [m], "pad_right(%d)" % m)
                add("pad_both", "T r = a.pad_left(hj_arg(1)).pad_right(hj_arg(1) + 2); out(0, r); out(3, a);", {0: lst(moved(ty.order, n, m + 2, m - n)), 3: keep}, {1: m + 2, 2: spec.comps(ty.order, m + 2)}, [m], "pad_left(%d).pad_right(%d)" % (m, m + 2))
            for m in sorted({0, 1, 2, n - 2, n - 1, n, n + 1, n + 3, 2 * n, n + 17} | (EX if n in (2, 5) else set())):
                if m < 0: continue
                I = {1: m, 2: spec.comps(ty.order, m)}
                add("resize", "T r = a; r.resize(hj_arg(1)); out(0, r);", {0: lst(moved(ty.order, n, m, 0))}, I, [m], "resize(%d)" % m)
                k = min(n, m)
                add("resize_back", "T r = a; r.resize(hj_arg(1)); r.resize(n); out(0, r);", {0: lst(moved2(ty.order, n, k))}, {1: n, 2: spec.comps(ty.order, n)}, [m], "resize(%d) and back" % m)
    s.judge("derivatives survive padding and resizing", same_problem, kinds=MEMORY | PURITY, leaks=True)
    chk.rules = ["component (i+s, j+s) of the result is component (i, j) of the operand, all others zero (s = shift for pad_left, 0 otherwise)"]
    chk.expected_min = 3000
    return chk.finish(explanation="pad_left, pad_right, resize and their compositions from n to m variables on fully symbolic numbers: the provenance of every component of the result is compared with the index map.")


def moved2(order, n, k):
    """Only the first k variables survive, in a number with n."""
    r = [0.0] * spec.comps(order, n)
    r[0] = ("s", 0)
    for i in range(k): r[1 + i] = ("s", 1 + i)
    if order == 2:
        for i in range(k):
            for j in range(i, k): r[hpos(n, i, j)] = ("s", hpos(n, i, j))
    return r
