from ..rejects import *


def suites(chk, props, eigen):
    reqs = [q for q in requests(chk.thorough) if q.prop in props and q.eigen == eigen]
    for tag, flags in (("", ()), ("nd", ("-DNDEBUG",))):
        s = Suite(chk, tag=tag + ("e" if eigen else ""), flags=flags + (tuple(build.EIGEN) if eigen else ()))
        for q in reqs:
            code = ("T x = jet<T>(0, n); try { %s hj_outi(90, 1); } catch (std::exception &) { hj_outi(90, 2); } catch (...) { hj_outi(90, 3); } out(0, x);" % q.code)
            s.add(q.ty, q.name, code, dict(name="%s of %s with %d variables, argument %s%s" % (q.name, q.ty.cpp, q.n, q.args, " (NDEBUG)" if tag else ""), order=q.ty.order, scalar=q.ty.scalar,
                                           keep={0: 0}, keepn={0: q.n}, ints={90: 2, 1: q.n}, intnames={90: "outcome (1: accepted, 2: std::exception, 3: other exception)"}, label={0: "existing number"}), q.n, q.args)
        yield s


def run(chk):
    for s in suites(chk, ("C11",), False):
        s.judge("impossible requests are rejected", keep_problem, kinds=MEMORY, leaks=True)
    chk.rules = ["every request with a negative size, a component count of no size, a mismatching fixed size, an index outside the number or a padding to fewer variables ends in a std::exception on every path",
                 "existing numbers keep their contents; nothing outside an object is accessed and nothing leaks on the way"]
    chk.expected_min = 1000
    return chk.finish(explanation="Enumeration of impossible requests for each order, size and storage, interpreted with and without assertions; the outcome must be an exception and the existing number must keep its symbolic contents. Valid requests are covered by C10, C14 (they must return).")
