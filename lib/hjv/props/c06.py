from ..ops import *
from ..check import extra_sizes


def run(chk):
    runs = {}
    for eigen in (False, True):
        s = Suite(chk, tag="e" if eigen else "", flags=build.EIGEN if eigen else ())
        static = range(17) if not eigen or chk.thorough else (0, 1, 2, 3, 6, 9, 16)
        static = sorted(set(static) | {n for n in extra_sizes() if n <= 64})
        for ty in all_types(static):
            for op in catalogue():
                if op.eigen != eigen: continue
                for n in (static if ty.dyn else ty.ns(())):
                    if not op.fits(ty, n): continue
                    code = decl(op) + " " + op.text + (" out(0, r);" if op.kind == "num" else "")
                    s.add(ty, op.name, code, dict(name="%s of %s with %d variables" % (op.name, ty.cpp, n), op=op, order=ty.order, n=n, ty=ty, dyn=ty.dyn), n)
        for r, m in s.runs(): runs[m["op"].name, m["order"], m["dyn"], m["n"]] = (r, m)
    todo = {"order": [], "storage": [], "dep": []}
    for (name, order, dyn, n), (r, m) in runs.items():
        chk.saw(r)
        if r.status == "undecided": chk.undec(m["name"], r.msg)
        elif r.status != "return":
            chk.fail("every operation returns", m["name"], where_of(r, r.loc(r.exits[-1][2]) if r.exits else ""), "a valid call does not return: %s %s" % (r.status, r.msg))
    ok = {k: v for k, v in runs.items() if v[0].status == "return"}
    for k, (r, m) in ok.items():
        name, order, dyn, n = k
        op = m["op"]
        if order == 1 and op.order is None and op.name != "eval":  # eval is the expansion of that order
            o = ok.get((name, 2, dyn, n))
            if o: todo["order"].append((r, dict(m, other=o[0], first=1 + n + (op.rn or 0), name="%s: first and second order, %s storage, %d variables" % (name, "run-time" if dyn else "fixed", n))))
        if dyn and op.dyn is None:
            o = ok.get((name, order, False, n))
            if o: todo["storage"].append((r, dict(m, other=o[0], first=None, name="%s: run-time and fixed storage, order %d, %d variables" % (name, order, n))))
        if op.kind == "num" and order == 2: todo["dep"].append((r, m))
    for rule, key in (("value and gradient do not depend on the order", "order"), ("components do not depend on the storage", "storage")):
        judge2(chk, rule, todo[key])
    depend(chk, todo["dep"])
    chk.rules = ["terms of the first 1+n components agree between order 1 and order 2 on the same symbols",
                 "terms of all components agree between fixed-size and run-time-sized numbers",
                 "non-interference: the data-dependence cone of the value contains no derivative, that of the gradient no Hessian component (confirmed by variation of the symbols)"]
    chk.expected_min = 20000
    return chk.finish(explanation="Relational analysis: every operation is interpreted on the same symbols for both orders and both storages and the derived terms are compared with each other; additionally the dependence cone of value and gradient of second-order numbers is checked for higher-order components.")


def judge2(chk, rule, todo):
    class Q: pass
    runs = [r for r, _ in todo]
    e0 = chk.entries, chk.steps, chk.callsites, chk.joins
    judge(chk, rule, runs, [dict(m, ints={}) for _, m in todo], mk2)
    chk.entries, chk.steps, chk.callsites, chk.joins = e0


def mk2(run, meta):
    other, first = meta["other"], meta["first"]
    want, wantb = {}, {}
    for tag in sorted({o[0] for o in run.outs if o[2] in "tub"}):
        o1, o2 = run.out(tag), other.out(tag)
        if first is not None and tag == 0: o2 = o2[:first]
        if any(o[2] == "u" for o in o2):
            raise TM.Undecidable("component without a value")
        boolean = o1 and o1[0][2] == "b"
        need = TM.cone(other.terms, [o[3] for o in o2 if o[2] != "i"])

        def w(P, o2=o2, need=need):
            v = TM.eval_np(other.terms, P.sym, P.symi, P.shape, np.longdouble, True, need)
            return [v[o[3]] if o[2] != "i" else np.full(P.shape, o[3]) for o in o2]
        (wantb if boolean else want)[tag] = w
    op = meta["op"]
    # branches of both runs change side somewhere
    bs = bases(op)
    return Problem(run, want, op.values(), wantb=wantb, zeros=zero_patterns(meta["order"], meta["n"], bs) if bs else None,
                   special=specials(op.fun, [("s", {"a": 0, "b": STEP, "c": 2 * STEP, "s": PARAM}[k]) for k in op.uses]) if op.fun else [{i: v} for i in op.values() for v in (1, -1, 2)], tol=3e-14)


def depend(chk, todo):
    """Value / gradient must not depend on higher-order components."""
    rule = "no dependence on components of higher order"
    for r, m in todo:
        op, n = m["op"], m["n"]
        nn = n + (op.rn or 0)
        bs = bases(op)
        lev = {}
        for b in bs:
            for k in range(spec.comps(2, n)): lev[b + k] = 0 if k == 0 else 1 if k <= n else 2
        outs = r.out(0)
        for o in outs[:1 + nn]:
            if o[2] != "t": continue
            mine = 0 if o[1] == 0 else 1
            syms, _ = TM.symbols(r.terms, [o[3]])
            high = sorted(x for x in syms if lev.get(x, 0) > mine)
            if op.name in ("set_g", "ag_write", "adata_write", "set_adata"): high = [x for x in high if lev[x] > 1]
            if not high:
                chk.ok()
                continue
            # syntactic dependence only?
            need = TM.cone(r.terms, [o[3]])
            from .. import decide as D
            pb = Problem(r, {}, op.values())
            base = D.gen_points(pb, 3, 6)
            at = sorted(TM.atoms(r.terms, [o[3]]))
            sets = [base]
            if at:
                e = D.search_points(pb, at, base)
                if e is not None: sets.append(e)
            dep = False
            for P in sets:
                v0 = TM.eval_np(r.terms, P.sym, P.symi, P.shape, np.longdouble, True, need)[o[3]]
                for shift in (0.37, -5.0, 1e6):
                    save = {x: P.sym(x) for x in high}
                    for x in high: P.values[x] = save[x] + np.longdouble(shift)
                    v1 = TM.eval_np(r.terms, P.sym, P.symi, P.shape, np.longdouble, True, need)[o[3]]
                    for x in high: P.values[x] = save[x]
                    okm = D.valid_mask(pb, P)
                    d = np.abs(v0 - v1) > 1e-12 * np.maximum(np.abs(v0), 1)
                    d |= np.isnan(v0) != np.isnan(v1)
                    dep |= bool((d & okm).any())
            if dep: chk.fail(rule, m["name"], where_of(r, r.loc(o[4])), "component %d of the result depends on component %s of an operand" % (o[1], ", ".join("s%d" % x for x in high[:3])))
            else: chk.ok()
