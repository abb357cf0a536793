from ..ops import *

BIN = {"add": "T r = a + b;", "sub": "T r = a - b;", "mul": "T r = a * b;", "div": "T r = a / b;", "atan2": "T r = a.atan2(b);", "hypot2": "T r = T::hypot(a, b);",
       "ip_add": "x += b;", "ip_sub": "x -= b;", "ip_mul": "x *= b;", "ip_div": "x /= b;",
       "f_atan2": "T r = hyperjet::atan2(a, b);", "f_hypot2": "T r = hyperjet::hypot(a, b);"}
TRI = {"hypot3": "T r = T::hypot(a, b, c);", "f_hypot3": "T r = hyperjet::hypot(a, b, c);"}
PAIRS = [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2), (0, 3), (3, 0), (5, 17), (17, 5), (16, 17)]
MORE = [(i, j) for i in range(8) for j in range(8) if i != j]
TRIPLES = [(2, 2, 3), (2, 3, 2), (3, 2, 2), (1, 2, 3), (3, 3, 1), (3, 1, 3), (1, 3, 3), (0, 0, 2), (0, 2, 0), (2, 0, 0), (2, 2, 0), (2, 0, 2), (0, 2, 2), (3, 2, 1), (5, 5, 9)]


def entries(chk, s):
    k = 0
    for ty in [Ty(1, None), Ty(2, None), Ty(2, None, "float")]:
        for name, st in list(BIN.items()) + list(TRI.items()):
            tri = name in TRI
            ip = name.startswith("ip_")
            for t in (TRIPLES if tri else PAIRS + (MORE if chk.thorough else [])):
                na, nb = t[0], t[1]
                nc = t[2] if tri else 0
                decl = "const T a = jet<T>(0, n); const T b = jet<T>(%d, hj_arg(1)); const T c = jet<T>(%d, hj_arg(2)); T x = jet<T>(0, n); freeze(a, 0); freeze(b, 1); freeze(c, 2);" % (STEP, 2 * STEP)
                code = decl + " try { %s hj_outi(90, 1); } catch (std::exception &) { hj_outi(90, 2); } catch (...) { hj_outi(90, 3); } hj_thaw(); out(0, a); out(3, b); out(6, c); out(9, x);" % st
                yield s, ty, name, code, dict(name="%s of %s with %s variables" % (name, ty.cpp, " and ".join(map(str, t))), order=ty.order, scalar=ty.scalar,
                                              keep={0: 0, 3: STEP, 6: 2 * STEP, 9: 0}, keepn={0: na, 3: nb, 6: nc, 9: na}, label={0: "first operand", 3: "second operand", 6: "third operand", 9: "target"},
                                              ints={90: 2, 1: na, 4: nb, 7: nc, 10: na}, intnames={90: "outcome (1: accepted, 2: std::exception, 3: other exception)"}), na, (nb, nc)


def run(chk):
    for flags, tag in (((), ""), (("-DNDEBUG",), "nd")):
        s = Suite(chk, tag=tag, flags=flags)
        for s_, ty, name, code, meta, n, args in entries(chk, s):
            s.add(ty, name, code, meta, n, args)
        s.judge("operands of different size are rejected", keep_problem, kinds=MEMORY | PURITY, leaks=True)
    chk.rules = ["every path of the operation ends in a throw of a std::exception when the numbers of variables differ", "no store into an operand before the throw; storage of partial results is released", "no access outside an object on the way"]
    chk.expected_min = 500
    return chk.finish(explanation="Each binary/ternary operation and its free function was interpreted on run-time-sized numbers of different sizes (every position being the odd one), with and without assertions: the outcome must be an exception, the operands keep their symbols, no memory finding, no leak.")
