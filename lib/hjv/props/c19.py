from ..sparse import *

DB = 700000


def run(chk):
    for hf in ("31",) + (("7", "1") if chk.thorough else ()):
        s = SSuite(chk, tag=hf, flags=("-DHJ_HASH=" + hf,))
        for ty in (STy(), STy("float")):
            for A, N in [(m, NAMES) for m in MASKS] + [(BIG, 27), (BIG & ~7, 27)]:
                K = lambda nm, **kw: dict(dict(name="%s of %s, variables %s" % (nm, ty.cpp, show(A)), ints={1: bits(A), 2: bits(A)}, keep={0: (0, A)}, intnames={1: "number of variables", 2: "number of variables after reading"}, label={0: "the number"}), **kw)
                zero = {10: lst([0] * 6)}
                s.sadd(ty, "absent", "const T a = sj<T>(0, A); hj_out(10, a.d(\"absent\")); hj_out(10, a.d(\"x \")); hj_out(10, a.d(\"xyx\")); hj_out(10, a.d(\"a_variable_with_a_long_nam\")); hj_out(10, a.d(\"a_variable_with_a_long_name2\")); hj_out(10, a.d(std::string(\"x\\0\", 2))); sout(0, a, N);",
                       K("absent variables", exact=zero), (A,), N)
                s.sadd(ty, "absentmut", "T a = sj<T>(0, A); for (long k = 0; k < N; k++) (void)a.d(name(k)); (void)a.d(\"absent\"); hj_outi(20, a.size()); T r = a + a; hj_outi(21, r.size()); sout(0, a, N);",
                       K("reading a mutable number", ints={1: bits(A), 2: bits(A), 20: bits(A), 21: bits(A)}), (A,), N)
                s.sadd(ty, "copy", "T a = sj<T>(0, A); T b(a); T c = std::move(a); a = sj<T>(%d, 1); b = c; sout(0, b, N); sout(3, c, N);" % STEP, K("copies", keep={0: (0, A), 3: (0, A)}, ints={1: bits(A), 2: bits(A), 4: bits(A)}), (A,), N)
                if N == NAMES:
                    for D in (0, 1, 2, 3, 5, 8, 0b1111111, 0b1010101):
                        m = K("eval at %s" % show(D), ints={1: bits(A), 2: bits(A), 24: bits(D)})
                        s.sadd(ty, "eval", "const T a = sj<T>(0, A); typename T::Data d = entries<T>(%d, B); hj_out(10, a.eval(d)); hj_outi(24, (long)d.size()); sout(0, a, N);" % (DB - 1), dict(m, ev=(A, D)), (A, D), N)
            s.sadd(ty, "eval_more", "const T a = sj<T>(0, A); typename T::Data d = entries<T>(%d, B); d[\"unrelated\"] = hj_sym(999); hj_out(10, a.eval(d));" % (DB - 1), dict(name="eval with an unrelated entry", ev=(7, 5)), (7, 5))
            c = lambda nm, mask, one: dict(name="%s of %s" % (nm, ty.cpp), ints={1: bits(mask), 2: bits(mask)}, exact={0: lst([("s", PARAM)] + [1 if k == one else 0 for k in range(NAMES)])}, label={0: "the number"})
            s.sadd(ty, "constant", "T r = T::constant(hj_sym(%d)); sout(0, r, N);" % PARAM, c("constant", 0, None))
            s.sadd(ty, "ctor", "T r(hj_sym(%d)); sout(0, r, N);" % PARAM, c("number from a scalar", 0, None))
            s.sadd(ty, "convert", "T r = (S)hj_sym(%d); sout(0, r, N);" % PARAM, c("conversion of a scalar", 0, None))
            for k in range(NAMES):
                s.sadd(ty, "variable", "T r = T::variable(name(A), hj_sym(%d)); sout(0, r, N);" % PARAM, c("variable", 1 << k, k), (k,))
            # several variables in one expression
            s.sadd(ty, "mention", "T x = T::variable(\"x\", hj_sym(1)), y = T::variable(\"y\", hj_sym(2)); T r = x * y + T::constant(3) * x; hj_outi(20, r.size()); T q = x - x; hj_outi(21, q.size()); T u = y * 0.0; hj_outi(22, u.size()); T w = T::constant(2) + T::constant(3); hj_outi(23, w.size());",
                   dict(name="mentioned variables of %s" % ty.cpp, ints={20: 2, 21: 1, 22: 1, 23: 0}))
            s.sadd(ty, "zeroderiv", "typename T::Data d; d[\"x\"] = S(0); d[\"y\"] = hj_sym(1); T a(hj_sym(0), d); hj_outi(20, a.size()); hj_out(10, a.d(\"x\")); T r = a * a; hj_outi(21, r.size()); T q = a.sin(); hj_outi(22, q.size()); T p = T(S(1)) + a; hj_outi(23, p.size());",
                   dict(name="a mentioned variable with zero derivative of %s" % ty.cpp, ints={20: 2, 21: 2, 22: 2, 23: 2}, exact={10: lst([0])}))
        s.judge("absent variables", mk, kinds=MEMORY | PURITY, leaks=True)
    chk.rules = ["d(name) denotes the stored derivative or zero and leaves size and contents alone", "eval denotes the sum of derivative times displacement over the names in both",
                 "constants mention no variable, variable(name, v) exactly one with derivative one"]
    chk.expected_min = 800
    return chk.finish(explanation="Reading, counting and evaluating symbolic sparse numbers with present and absent names (near misses in spelling included), interpreted through the standard unordered_map.")


def mk(run, meta):
    if "ev" in meta:
        A, D = meta["ev"]
        meta = dict(meta, exact={10: lambda P: [sum([P.sym(1 + k) * P.sym(DB + k) for k in range(NAMES) if A >> k & D >> k & 1], np.zeros(P.shape, np.longdouble))]}, tol=1e-13)
    return s_problem(run, meta)
