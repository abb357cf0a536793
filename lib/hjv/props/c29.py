from ..ops import *
from ..sparse import *
from .. import rejects
from . import c08

NOEXC = ("-DHYPERJET_NO_EXCEPTIONS", "-fno-exceptions")


def run(chk):
    compiles(chk)
    rejected(chk)
    accepted(chk)
    chk.rules = ["the header is accepted by clang++ and g++ with -DHYPERJET_NO_EXCEPTIONS -fno-exceptions (which reject every throw, try and catch), with and without Eigen",
                 "every request that the default configuration rejects by an exception ends in a failed assertion on every path, before any access outside an object",
                 "every operation accepted by the default configuration passes all assertions and its result terms denote the same components"]
    chk.expected_min = 5000
    return chk.finish(explanation="The requests of C08, C11, C13 and C15 are interpreted in the no-exceptions configuration and have to reach a failed assertion; the operation catalogue is interpreted in both configurations and the derived terms are compared.")


def compiles(chk):
    for cxx in ("clang++", "g++"):
        for std in ("-std=c++17", "-std=c++20"):
            for nm, fl in (("", ()), ("eigen", ("-isystem", "/usr/include/eigen3", "-include", "Eigen/Core"))):
                for nd in ((), ("-DNDEBUG",)):
                    ok, text = build.compiles("#include <hyperjet/hyperjet.h>\n", "c29", [*NOEXC, *fl, *nd], cxx, std)
                    if ok: chk.ok()
                    else:
                        e = next((l for l in text.splitlines() if "error" in l), text[:300])
                        chk.fail("compiles without exceptions", "%s %s %s %s" % (cxx, std, nm, " ".join(nd)), e.split(": ")[0], e)


def rejected(chk):
    todo = []
    for eigen in (False, True):
        s = Suite(chk, tag="n" + ("e" if eigen else ""), flags=NOEXC + (tuple(build.EIGEN) if eigen else ()))
        for q in rejects.requests(chk.thorough):
            if q.eigen == eigen:
                s.add(q.ty, q.name, "T x = jet<T>(0, n); %s hj_outi(90, 1);" % q.code, dict(name="%s of %s with %d variables, argument %s (no exceptions)" % (q.name, q.ty.cpp, q.n, q.args)), q.n, q.args)
        if not eigen:
            for ty in [Ty(1, None), Ty(2, None), Ty(2, None, "float")]:
                for name, st in list(c08.BIN.items()) + list(c08.TRI.items()):
                    for t in (c08.TRIPLES if name in c08.TRI else c08.PAIRS + (c08.MORE if chk.thorough else [])):
                        code = "const T a = jet<T>(0, n); const T b = jet<T>(%d, hj_arg(1)); const T c = jet<T>(%d, hj_arg(2)); T x = jet<T>(0, n); %s hj_outi(90, 1);" % (STEP, 2 * STEP, st)
                        s.add(ty, name, code, dict(name="%s of %s with %s variables (no exceptions)" % (name, ty.cpp, " and ".join(map(str, t)))), t[0], [t[1], t[2] if name in c08.TRI else 0])
        todo += s.runs()
    rule = "rejected by assertion"
    for r, m in todo:
        chk.saw(r)
        if r.status == "missing": raise build.Broken("entry %s vanished" % r.entry)
        parts = [r]
        if r.status == "undecided" and r.parts:
            chk.partitioned += 1
            parts = r.parts
        for p in parts:
            if p.status == "undecided":
                chk.undec(m["name"], p.msg)
                continue
            mem = [f for f in p.findings if f[0] in MEMORY]
            if mem:
                chk.fail(rule, m["name"], where_of(p, p.loc(mem[0][2])), "before the assertion: %s %s" % (mem[0][0], mem[0][1]))
            elif p.status == "return":
                chk.fail(rule, m["name"], where_of(p, ""), "the request is accepted" + (" on some path" if p.exits else ""))
            elif not p.exits or any(e[0] != "assert" for e in p.exits):
                chk.fail(rule, m["name"], where_of(p, p.loc(p.exits[-1][2]) if p.exits else ""), "the request does not end in an assertion but in %s" % (p.exits or p.status))
            else: chk.ok()


def accepted(chk):
    for eigen in (False, True):
        two = [Suite(chk, tag=t + ("e" if eigen else ""), flags=f + (tuple(build.EIGEN) if eigen else ())) for t, f in (("x", ()), ("a", NOEXC))]
        types = all_types((0, 1, 2, 3, 5, 8, 12, 16) if eigen else range(17)) + [Ty(2, 3, "float"), Ty(2, None, "float")]
        for ty in types:
            for op in catalogue():
                if op.eigen != eigen: continue
                for n in ty.ns((0, 1, 2, 3, 6, 17)):
                    if not op.fits(ty, n): continue
                    m = dict(name="%s of %s with %d variables (no exceptions)" % (op.name, ty.cpp, n), values=op.values(), label={0: "result"}, scalar=ty.scalar)
                    for s in two: s.add(ty, op.name, decl(op) + " " + op.text + (" out(0, r);" if op.kind == "num" else ""), m, n)
        compare(chk, *two)
    two = [SSuite(chk, tag=t, flags=f) for t, f in (("x", ()), ("a", NOEXC))]
    for ty in (STy(), STy("float")):
        for A, B in ((1, 3), (0, 5), (7, 2), (0b1011000, 0b0001001)):
            for k in list(spec.UNARY) + ["atan2", "hypot2", "add", "sub", "mul", "div", "ip_mul", "ip_div", "ip_add", "ip_sub"]:
                code = {"pow": "T r = a.pow(s);", "logb": "T r = a.log(s);", "atan2": "T r = a.atan2(b);", "hypot2": "T r = T::hypot(a, b);"}.get(k) or c08.BIN.get(k, "").replace("x ", "T r = a; r ") or "T r = a.%s();" % k
                f = spec.UNARY.get(k) or dict(atan2=spec.ATAN2, hypot2=spec.HYPOT2).get(k) or spec.DIV
                vals = domain(f, [("j", 0)] + ([("j", STEP)] if f.k == 2 else []) + ([("s", PARAM)] if f.nparam else []))[0]
                m = dict(name="%s of %s, variables %s and %s (no exceptions)" % (k, ty.cpp, show(A), show(B)), values=vals, label={0: "result"})
                for s in two: s.sadd(ty, k, "const T a = sj<T>(0, A); const T b = sj<T>(%d, B); const S s = hj_sym(%d); %s sout(0, r, N);" % (STEP, PARAM, code), m, (A, B))
    compare(chk, *two)


def compare(chk, dflt, noexc):
    """Entry by entry: what the default configuration yields is the oracle."""
    ref, got = dflt.runs(), noexc.runs()
    runs, metas = [], []
    for (d, m), (r, _) in zip(ref, got):
        chk.saw(d)
        if sig(r) == sig(d):
            # the same instructions: identical value graphs
            chk.saw(r)
            chk.ok(max(1, len(r.outs)))
            continue
        if d.status != "return":
            if d.status == "undecided": chk.undec(m["name"], "default configuration: " + d.msg)
            continue  # not accepted by the default configuration: decided by the other checks
        runs.append(r)
        metas.append(dict(m, ref=d, ints={o[0]: o[3] for o in d.outs if o[2] == "i"}))
    chk.extra["compared_by_terms"] = chk.extra.get("compared_by_terms", 0) + len(runs)
    judge(chk, "same result as with exceptions", runs, metas, mk, kinds=MEMORY)


def sig(r):
    return (r.status, r.guard, r.terms, r.outs, [e[:2] + e[3:] for e in r.exits], [f[:2] + f[3:] for f in r.findings], [sig(p) for p in r.parts])


def mk(run, meta):
    d = meta["ref"]
    want = {}
    for t in {o[0] for o in d.outs if o[2] in "tu"}:
        outs = d.out(t)
        if any(o[2] not in "ti" for o in outs): raise TM.Undecidable("reference component without a value")
        need = TM.cone(d.terms, [o[3] for o in outs if o[2] == "t"])

        def w(P, outs=outs, need=need):
            v = TM.eval_np(d.terms, P.sym, P.symi, P.shape, np.longdouble, meta["scalar"] == "double", need)
            return np.stack([v[o[3]] if o[2] == "t" else np.full(P.shape, np.longdouble(o[3])) for o in outs])
        want[t] = w
    wb = {}
    for t in {o[0] for o in d.outs if o[2] == "b"}:
        outs = d.out(t)
        need = TM.cone(d.terms, [o[3] for o in outs if o[2] == "b"])
        wb[t] = (lambda outs, need: lambda P: [TM.eval_np(d.terms, P.sym, P.symi, P.shape, np.longdouble, meta["scalar"] == "double", need)[o[3]] if o[2] == "b" else np.full(P.shape, bool(o[3] & 1)) for o in outs])(outs, need)
    f32 = meta["scalar"] != "double"
    return Problem(run, want, meta["values"], f32ok=f32, tol=1e-6 if f32 else 3e-15, wantb=wb)
