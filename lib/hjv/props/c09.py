from ..ops import *


def run(chk):
    for eigen in (False, True):
        for tag, flags in (("", ()), ("nd", ("-DNDEBUG",))):
            s = Suite(chk, tag=tag + ("e" if eigen else ""), flags=flags + (tuple(build.EIGEN) if eigen else ()))
            static = (0, 1, 2, 3, 5, 8, 12, 16) if eigen else range(17)
            types = all_types(static) + [Ty(2, 3, "float"), Ty(1, None, "float"), Ty(2, None, "float")]
            for ty in types:
                for op in catalogue():
                    if op.eigen != eigen: continue
                    for n in (sizes(chk, ty) if not eigen else ty.ns((0, 1, 2, 3, 6, 17))):
                        if not op.fits(ty, n): continue
                        nn = n + (op.rn or 0)
                        code = "{ " + decl(op) + " { " + op.text + (" out(0, r);" if op.kind == "num" else "") + " } hj_outi(70, 1); }"
                        m = dict(name="%s of %s with %d variables%s" % (op.name, ty.cpp, n, " (NDEBUG)" if tag else ""), op=op, label={0: "result"}, ints={70: 1}, scalar=ty.scalar)
                        if op.kind == "num": m["ints"] = {70: 1, 1: nn, 2: spec.comps(ty.order, nn)}
                        s.add(ty, op.name, code, m, n)
            if not eigen:
                for ty in types:
                    for n in sizes(chk, ty, (0, 1, 2, 5, 17)):
                        multi(s, ty, n, tag)
            s.judge("memory and initialisation", mk, kinds=MEMORY, leaks=True, init=(0, 3, 60, 61, 62, 63, 64, 65, 66))
    chk.rules = ["every load and store lies inside a live object (bounds and liveness of the abstract memory)", "no undefined value reaches a branch, an address or a result component",
                 "each heap block is released exactly once, none is left at the end; assertions hold"]
    chk.expected_min = 5000
    return chk.finish(explanation="Memory-state analysis (bounds, liveness, initialisation, release) of every operation of the catalogue for each order, size and storage, with assertions enabled and with NDEBUG, plus sequences of operations on one object.")


def mk(run, meta):
    op = meta["op"]
    return Problem(run, {}, op.values() if op else {0: spec.NZ, STEP: spec.NZ}, f32ok=meta["scalar"] != "double")


SEQ = {
    "chain": "T x = a; x *= b; x += a; x /= b; x -= x; x = x + a; x *= 2; T y = std::move(x); x = y; out(0, x);",
    "vec": "std::vector<T> v(3, a); v.push_back(b); v.erase(v.begin()); v.insert(v.begin(), a); v.resize(8, b); T x = v[1] * v[7]; out(0, x);",
    "tmp": "T x = (a + b) * (a - b) / (a * b) + T(a).sin().cos(); out(0, x);",
    "vars": "std::vector<S> w(n); for (long i = 0; i < n; i++) w[i] = hj_sym(i); auto v = T::variables(w); T x = T::zero(n); for (auto &e : v) { out(3, e); x += e; } out(0, x);",
}
DYNSEQ = {
    "resizes": "T x = a; x.resize(n + 3); x.resize(1); x.resize(0); x.resize(n); x = x + a; out(0, x);",
    "pads": "T x = a.pad_left(n + 1).pad_right(n + 4); x.resize(n); x *= b; out(0, x);",
    "reassign": "T x; x = a; T y(hj_sym(7)); y = x; y = b; T z = T::empty(); z = y * x; out(0, z);",
}


def multi(s, ty, n, tag):
    for k, c in list(SEQ.items()) + (list(DYNSEQ.items()) if ty.dyn else []):
        s.add(ty, "seq_" + k, "{ const T a = jet<T>(0, n); const T b = jet<T>(%d, n); { %s } hj_outi(70, 1); }" % (STEP, c),
              dict(name="sequence %s of %s with %d variables%s" % (k, ty.cpp, n, " (NDEBUG)" if tag else ""), op=None, label={0: "result"}, scalar=ty.scalar, ints={70: 1}), n)
