from ..python import *


def elements(order, n):
    """What the list of variables shows, element after element."""
    r = []
    for i in range(n):
        r.append(("s", 1000 + i))
        r += [1.0 if j == i else 0.0 for j in range(n)]
        if order == 2: r += [0.0] * (n * n)
    return r


SHOW = """
    show<T>(0, r);
    hj_outi(5, ended);
    if (r && r->k == pv::List)
        for (long i = 0; i < r->i; i++)
        {
            Box *e = r->e[i];
            hj_outi(10 + 4 * i, e->k);
            if (e->k == pv::Float) { hj_out(8, e->f); continue; }
            hj_outi(11 + 4 * i, attr(e, "order")->i);
            hj_outi(12 + 4 * i, attr(e, "size")->i);
            hj_out(8, attr(e, "f")->f);
            Box *g = attr(e, "g");
            for (long j = 0; j < g->sh[0]; j++) hj_out(8, g->p[j * g->st[0]]);
            if (attr(e, "order")->i != 2) continue;
            Box *h = method(e, "hm");
            for (long j = 0; j < h->sh[0]; j++)
                for (long k = 0; k < h->sh[1]; k++) hj_out(8, h->p[j * h->st[0] + k * h->st[1]]);
        }
"""


def run(chk):
    s = PySuite(chk)
    d = [t for t in roster(False) if t.dyn and t.order == 2][0]
    SEQ = (("list", "symbols(pv::List, 1000, A)"), ("tuple", "symbols(pv::Tuple, 1000, A)"), ("array", "asarray(1000, A)"))
    ORD = (("B", "num(B)", None), ("order=B", 'Kw{"order", num(B)}', None), ("default", None, 2))
    top = tuple(range(21)) + ((24, 31, 32, 33, 40) if chk.thorough else (33,))
    for sn, sq in SEQ:
        for on, oa, dflt in ORD:
            if sn != "list" and on != "B": continue
            for n in top:
                for o in ((0, 1, 2) if dflt is None else (dflt,)):
                    for kw in (0, 1):
                        if kw and (sn != "list" or on == "B" or n > 4): continue
                        v = 'Kw{"values", %s}' % sq if kw else sq
                        code = "Box *r = run([&] { return call(global(\"variables\"), %s%s); });" % (v, ", " + oa if oa else "") + SHOW
                        nm = "variables(%s of %d values%s%s)" % (sn, n, " by keyword" if kw else "", ", order %d" % o if dflt is None else "")
                        ints = {0: LIST, 1: n, 5: 0}
                        names = {0: "kind of the result", 1: "length of the result", 5: "exception raised"}
                        for i in range(n):
                            ints[10 + 4 * i] = OBJ if o else FLOAT
                            names[10 + 4 * i] = "kind of element %d" % i
                            if o:
                                ints[11 + 4 * i], ints[12 + 4 * i] = o, n
                                names[11 + 4 * i], names[12 + 4 * i] = "order of element %d" % i, "size of element %d" % i
                        ex = {8: lst(elements(o, n) if o else [("s", 1000 + i) for i in range(n)])} if n else {}
                        s.padd(d, "variables_%s_%s_%d" % (sn, on, kw), code, dict(name=nm, scalar="double", exact=ex, ints=ints, intnames=names, label={8: "values, gradients and Hessians of the elements:"}), 0, (n, o))
    for n in (0, 1, 2, 16, 20):
        for o in (-1, 3, 4, -2, 1000):
            code = "Box *r = run([&] { return call(global(\"variables\"), symbols(pv::List, 1000, A), num(B)); }); hj_outi(0, r ? 1 : 0);"
            s.padd(d, "variables_bad", code, dict(name="variables(%d values, order %d)" % (n, o), scalar="double", ints={0: 0}, intnames={0: "returning instead of raising"}), 0, (n, o))
    # the roster
    for ty in roster():
        for n in psizes(ty, chk, (0, 1, 4, 17), (2, 3, 33)):
            code = """Box *c = run([&] { return global(C); });
                hj_outi(0, c && c->k == pv::Type && c->c->id == pv::tid<T>());
                if (!c || c->k != pv::Type || c->c->id != pv::tid<T>()) return;
                hj_outi(6, c->c->name && pv::same(c->c->name, C));
                %s
                hj_outi(2, attr(a, "size")->i); hj_outi(3, unary(a, "__len__")->i);""" % decl(ty, "a")
            if not ty.sparse: code += """ hj_outi(1, attr(a, "order")->i); hj_outi(4, attr(c, "order")->i);
                Box *d0 = attr(a, "is_dynamic"), *d1 = attr(c, "is_dynamic");
                hj_outi(5, d0->k == pv::Bool && d1->k == pv::Bool && d0->i == d1->i ? d0->i : -1);"""
            size = bits(SM[0]) if ty.sparse else n
            ints = {0: 1, 6: 1, 2: size, 3: size}
            if not ty.sparse: ints |= {1: ty.order, 4: ty.order, 5: int(ty.dyn)}
            s.padd(ty, "roster", code, dict(name="class %s%s" % (ty.name, " with %d variables" % n if ty.dyn else ""), scalar="double", ints=ints, exact={},
                   intnames={0: "exported class of the order and size its name states", 1: "order of an instance", 2: "size", 3: "len()", 4: "order of the class", 5: "is_dynamic", 6: "name of the class"}), n)
    s.judge("class roster and dispatch of variables", same_problem, kinds=MEMORY)
    chk.rules = ["variables(values, order) yields one element per value; element i has the i-th value, the i-th unit gradient, a zero Hessian and the order and size asked for; order 0 yields the plain values; any other order raises",
                 "every class name is bound to the number type of the order and size it states"]
    chk.expected_min = 2000
    return chk.finish(explanation="The dispatch is called with symbolic values for every length 0..20 and beyond, as list, tuple and array, positionally, by keyword and by default; elements are read through the Python attributes. Every class of the roster is looked up by name.",
                      assumptions=["the model of pybind11 in stubs/py dispatches as pybind11 does"])
