from ..python import *

STATE = 'unary(a, "__getstate__")'
RESTORE = "auto restore = [&](Box *st) { pv::Rec *r = pv::attribute(a->c, \"__setstate__\"); if (!r) throw pybind11::attribute_error(\"__setstate__\"); return pv::dispatch(r, &st, 1, nullptr, nullptr); }; (void)restore; "
HOW = {
    "pickle and unpickle": "b = restore(%s);" % STATE,
    "copy.copy": 'b = unary(a, "__copy__");',
    "copy.deepcopy": 'b = special(a, "__deepcopy__", pv::seq(pv::Dict, 0)); if (!b) throw pybind11::type_error("__deepcopy__");',
    "unpickle twice": "Box *st = %s; (void)restore(st); b = restore(st);" % STATE,
    "copy of a copy": 'b = unary(unary(a, "__copy__"), "__copy__");',
    "pickle of a copy": 'Box *c = unary(a, "__copy__"); b = restore(special(c, "__getstate__"));',
}
# changes made to a number x
CHANGE = {
    "f": 'setattr(x, "f", num(hj_sym(700001)));',
    "g": 'Box *v = attr(x, "g"); for (long i = 0; i < v->sh[0]; i++) v->p[i * v->st[0]] = hj_sym(700010 + i);',
    "data": 'Box *v = attr(x, "data"); for (long i = 0; i < v->sh[0]; i++) v->p[i * v->st[0]] = hj_sym(700010 + i);',
    "+= itself": '(void)inplace(x, x, "__iadd__", "__add__", "__radd__");',
    "*= 2": '(void)inplace(x, num(2.0), "__imul__", "__mul__", "__rmul__");',
    "resize": '(void)method(x, "resize", num(n + 3));',
}


def run(chk):
    s = PySuite(chk)
    for ty in roster(False):
        for n in psizes(ty, chk, (0, 1, 4, 17), (2, 3, 8, 33)):
            L = spec.comps(ty.order, n)
            w = "%s%s" % (ty.name, " with %d variables" % n if ty.dyn else "")
            keep = lst([("s", k) for k in range(L)])

            def add(name, what, code, tags):
                m = dict(name="%s: %s" % (w, what), scalar="double", exact={t: keep for t in tags}, ints={5: 0, 6: 1, 7: 0} | {t + 1: n for t in tags} | {t + 2: L for t in tags},
                         intnames={5: "exception raised", 6: "the copy has the class of the original", 7: "the copy is the original object"}, label={0: "the copy", 10: "the original"})
                s.padd(ty, name, decl(ty, "a") + "Box *b = nullptr; (void)run([&]() -> Box * { %s %s return nullptr; }); hj_outi(5, ended); hj_outi(6, number<T>(b) != nullptr && b->c == a->c); hj_outi(7, a == b || (number<T>(b) && number<T>(b) == number<T>(a))); " % (RESTORE, code) +
                       " ".join("content<T>(%d, %s);" % (t, "b" if t == 0 else "a") for t in tags), m, n)
            for i, (h, c) in enumerate(HOW.items()):
                add("copy%d" % i, h, c, (0, 10))
                if i > 2 and not chk.thorough and n not in (0, 2, 5): continue
                for j, (k, d) in enumerate(CHANGE.items()):
                    if k == "resize" and not ty.dyn: continue
                    add("copy%d_b%d" % (i, j), "%s, then changing the copy (%s)" % (h, k), c + " { Box *x = b; %s }" % d, (10,))
                    add("copy%d_a%d" % (i, j), "%s, then changing the original (%s)" % (h, k), c + " { Box *x = a; %s }" % d, (0,))
            for j, (k, d) in enumerate(CHANGE.items()):
                if k == "resize" and not ty.dyn: continue
                add("state_%d" % j, "unpickling after the original was changed (%s)" % k, "Box *st = %s; { Box *x = a; %s } b = restore(st);" % (STATE, d), (0,))
    s.judge("the copy equals the original and is independent", same_problem, kinds=MEMORY)
    chk.rules = ["the copy is a new number of the same class, size and components", "after any change of one of the two the other still denotes the original components; the pickled state does not change with the number"]
    chk.expected_min = 8000
    return chk.finish(explanation="The state functions and copy methods of every exported dense class on symbolic numbers, followed by changes through f, g, data, in-place operators and resize on either side.",
                      assumptions=["the model of pybind11 in stubs/py dispatches as pybind11 does", "copy and pickle call __copy__, __deepcopy__, __getstate__ and __setstate__ as the standard library documents"])
