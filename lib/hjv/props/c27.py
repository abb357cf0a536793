import ast, numbers
from ..python import *
from .c32 import text, complain

# what can be read of a number
EXPRS = {"f": 'attr(a, "f")', "g": 'attr(a, "g")', "data": 'attr(a, "data")', "hm()": 'method(a, "hm")', "hm('full')": 'method(a, "hm", text("full"))', "hm(mode='full')": 'method(a, "hm", Kw{"mode", text("full")})',
         "hm('zeros')": 'method(a, "hm", text("zeros"))', "size": 'attr(a, "size")', "order": 'attr(a, "order")'}
NAMES_ = ("f", "g", "h", "hm", "data", "size", "order", "d", "set_d", "set_h", "set_hm", "eval", "value", "gradient", "is_dynamic")
FUN = ("f", "d", "dd")
PLAIN = (1, 2.5, -3, 0, True, np.int64(3), np.float64(2.5), np.float32(0.5))


class Unknown(Exception): pass


class Elem:
    """The element the lambda is applied to: a number with known attributes."""
    def __init__(self, has): self.has = has


class Bound:
    def __init__(self, name): self.name = name


class Read:
    """Value of a read of the number (key of EXPRS)."""
    def __init__(self, key): self.key = key


class Missing(Exception): pass


class Lam:
    def __init__(self, node, env): self.node, self.env = node, env


class Eval:
    """Abstract evaluation of a Python expression: constants are folded,
    reads of the number stay symbolic."""
    BUILT = dict(int=int, float=float, bool=bool, str=str, len=len, isinstance=isinstance, hasattr=hasattr, getattr=getattr, type=type, complex=complex, object=object, tuple=tuple, list=list)

    def __init__(self, names): self.names = names

    def name(self, n, env):
        if n in env: return env[n]
        if n in self.names: return self.names[n]
        if n in self.BUILT: return self.BUILT[n]
        raise Unknown("name " + n)

    def truth(self, x):
        if isinstance(x, (Elem, Read)): raise Unknown("truth of a number")
        return bool(x)

    def ev(self, n, env):
        if isinstance(n, ast.Expression): return self.ev(n.body, env)
        if isinstance(n, ast.Constant): return n.value
        if isinstance(n, ast.Name): return self.name(n.id, env)
        if isinstance(n, ast.Tuple): return tuple(self.ev(x, env) for x in n.elts)
        if isinstance(n, ast.List): return [self.ev(x, env) for x in n.elts]
        if isinstance(n, ast.Lambda): return Lam(n, env)
        if isinstance(n, ast.IfExp): return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)
        if isinstance(n, ast.BoolOp):
            for x in n.values:
                v = self.ev(x, env)
                if self.truth(v) != isinstance(n.op, ast.And): return v
            return v
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.Not): return not self.truth(v)
            if isinstance(v, (int, float)) and isinstance(n.op, ast.USub): return -v
            if isinstance(v, (Read, Elem)): raise Wrong("the result is changed by an operator")
            raise Unknown("operator")
        if isinstance(n, ast.Attribute):
            o = self.ev(n.value, env)
            return self.attribute(o, n.attr)
        if isinstance(n, ast.Call): return self.call(n, env)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left, env), self.ev(n.comparators[0], env)
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                r = a is b
                if isinstance(a, (Elem, Read)) and b is not None: raise Unknown("identity")
                return r == isinstance(n.ops[0], ast.Is)
            if any(isinstance(x, (Elem, Read, Lam, Bound)) for x in (a, b)): raise Unknown("comparison")
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(n.ops[0])]()
        raise Unknown(type(n).__name__)

    def attribute(self, o, name):
        if isinstance(o, Elem):
            if name.startswith("__"): raise Unknown(name)
            if not o.has.get(name, False):
                if name in o.has: raise Missing(name)
                raise Unknown("attribute " + name)
            return Read(name) if name in EXPRS else Bound(name)
        if isinstance(o, Read):
            if name == "copy": return Bound("." + o.key)
            raise Unknown("attribute of " + o.key)
        if isinstance(o, (Lam, Bound)): raise Unknown("attribute")
        try: return getattr(o, name)
        except AttributeError: raise Missing(name)

    def call(self, n, env):
        f = self.ev(n.func, env)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords): raise Unknown("starred argument")
        if isinstance(f, Bound):
            if f.name.startswith("."): return Read(f.name[1:])
            key = "%s(%s)" % (f.name, ", ".join([repr(self.ev(a, env)) for a in n.args] + ["%s=%r" % (k.arg, self.ev(k.value, env)) for k in n.keywords]))
            if key not in EXPRS: raise Unknown(key)
            return Read(key)
        a = [self.ev(x, env) for x in n.args]
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        if f is hasattr:
            if isinstance(a[0], Elem):
                if a[1] not in a[0].has: raise Unknown("attribute " + a[1])
                return a[0].has[a[1]]
            if isinstance(a[0], (Read, Lam, Bound)): raise Unknown("hasattr")
            return hasattr(*a)
        if f is getattr:
            try: return self.attribute(a[0], a[1])
            except Missing:
                if len(a) > 2: return a[2]
                raise
        if f is isinstance and isinstance(a[0], Elem):
            for c in a[1] if isinstance(a[1], tuple) else (a[1],):
                if c is object: return True
                if not isinstance(c, type): raise Unknown("class")
            return False
        if isinstance(f, Lam):
            return self.apply(f, a, kw)
        if f is float and isinstance(a[0], Read) and a[0].key == "f": return a[0]
        if f is np.vectorize:
            return Vec(a, kw)
        if getattr(f, "__module__", None) == "numpy" or isinstance(f, np.ufunc) or f in (np.array, np.asarray, np.zeros, np.empty, np.ones, np.full) or getattr(np, getattr(f, "__name__", "?"), None) is f:
            if a and isinstance(a[0], Read):
                if f in (np.array, np.asarray, np.copy, np.ascontiguousarray, np.asanyarray) and len(a) == 1 and set(kw) <= {"copy"}: return a[0]
                raise Unknown("numpy function of a number")
        elif f not in (int, float, bool, len, type, tuple, list): raise Unknown("call")
        if any(isinstance(x, (Elem, Read, Lam, Bound)) for x in a + list(kw.values())): raise Unknown("call with a number")
        return f(*a, **kw)

    def apply(self, f, a, kw=None):
        p = f.node.args
        if p.vararg or p.kwarg or p.kwonlyargs or len(a) > len(p.args): raise Unknown("parameters")
        env = dict(f.env)
        names = [x.arg for x in p.args]
        d = dict(zip(names[len(names) - len(p.defaults):], (self.ev(x, f.env) for x in p.defaults)))
        env |= d | dict(zip(names, a)) | (kw or {})
        if any(x not in env for x in names): raise Unknown("parameters")
        return self.ev(f.node.body, env)


class Wrong(Exception): pass


class Vec:
    """np.vectorize(...)"""
    def __init__(self, a, kw):
        names = ("pyfunc", "otypes", "doc", "excluded", "cache", "signature")
        self.p = dict(zip(names, a)) | kw
        if not set(self.p) <= set(names): raise Unknown("vectorize parameters")
        if self.p.get("excluded"): raise Unknown("vectorize with excluded arguments")
        self.f = self.p.get("pyfunc")
        self.sig = self.p.get("signature")
        self.otypes = self.p.get("otypes")
        if not isinstance(self.f, Lam): raise Unknown("vectorised object")


def core(sig):
    """Number of core dimensions of the result."""
    m = re.fullmatch(r"\(\)->\((\w+(?:,\w+)*)?\)", re.sub(r"\s", "", sig))
    if not m: raise Wrong("the signature %r does not map one element to one array" % sig)
    d = m[1].split(",") if m[1] else []
    return len(d)


def exact_type(t):
    """Can hold every double."""
    if isinstance(t, (list, tuple)):
        if len(t) != 1: raise Wrong("%d result types" % len(t))
        t = t[0]
    elif isinstance(t, str) and len(t) == 1: pass
    try: d = np.dtype(t)
    except TypeError: raise Unknown("result type")
    return d == object or np.can_cast(np.float64, d, "safe")


def run(chk):
    s = PySuite(chk)
    code = []
    for k, fn in enumerate(FUN):
        code.append("""{ Box *b = pv::get(module->attrs, "%s"); hj_outi(%d, b ? b->k == pv::Other ? 1 : 2 : pv::executed ? 3 : 0);
            if (b && b->k == pv::Other) { hj_outs(%d, b->s); if (b->base && b->base->k == pv::Dict) for (long i = 0; i < b->base->i; i += 2) if (b->base->e[i + 1]->k == pv::Module && b->base->e[i + 1]->s)
            { hj_outs(%d, b->base->e[i]->s); hj_outs(%d, b->base->e[i + 1]->s); } } }""" % (fn, 10 * k, 10 * k + 1, 10 * k + 2, 10 * k + 3))
    d = roster(False)[0]
    s.padd(d, "texts", " ".join(code), dict(name="definitions of f, d and dd", texts=True), 0)
    for ty in roster():
        for n in psizes(ty, chk, (0, 1, 2, 3, 5), (8, 17)):
            c = "".join(' hj_outi(%d, pv::getattr(a, "%s") ? 1 : 0);' % (10 + i, nm) for i, nm in enumerate(NAMES_))
            for i, (key, e) in enumerate(EXPRS.items()):
                nm = key.split("(")[0]
                c += ' if (pv::getattr(a, "%s")) show<T>(%d, run([&]() -> Box * { return %s; }));' % (nm, 100 + 10 * i, e)
            s.padd(ty, "facts", decl(ty, "a") + c, dict(name="%s%s" % (ty.name, " with %d variables" % n if ty.dyn else ""), ty=ty, n=n, scalar="double"), n)
    rs = s.runs()
    tr = [r for r, m in rs if m.get("texts")][0]
    chk.saw(tr)
    if tr.status != "return":
        chk.undec("definitions", tr.msg)
        return done(chk)
    defs = {}
    for k, fn in enumerate(FUN):
        how = tr.outi(10 * k)
        t = text(tr, 10 * k + 1)
        if how == 0:
            chk.fail("definition", "hyperjet." + fn, "python/src", "the module does not define hyperjet." + fn)
            continue
        if how != 1:
            chk.undec("hyperjet." + fn, "not defined by an expression")
            continue
        mods = dict(zip([o[3] for o in tr.out(10 * k + 2)], [o[3] for o in tr.out(10 * k + 3)]))
        names = {a: np for a, m in mods.items() if m == "numpy"} if mods else {"np": np, "numpy": np}
        try:
            E = Eval(names)
            v = E.ev(ast.parse(t.strip(), mode="eval"), {})
            if not isinstance(v, Vec): raise Unknown("not np.vectorize(...)")
            defs[fn] = (E, v, t)
        except SyntaxError as e: chk.fail("definition", "hyperjet." + fn, "python/src/main.cpp", "not a Python expression: %s" % e)
        except Wrong as e: chk.fail("definition", "hyperjet." + fn, "python/src/main.cpp", str(e))
        except Missing as e: chk.fail("definition", "hyperjet." + fn, "python/src/main.cpp", "no attribute %s" % e)
        except Unknown as e: chk.undec("hyperjet." + fn, "expression outside the evaluator: %s" % e)
        except Exception as e: chk.undec("hyperjet." + fn, "expression outside the evaluator: %s" % e)
    dims = {"f": 0, "d": 1, "dd": 2}
    for fn, (E, v, t) in defs.items():
        inst = "hyperjet.%s = %s" % (fn, t)
        where = "python/src/main.cpp (m.attr(\"%s\"))" % fn
        try: check_vec(chk, E, v, fn, inst, where, dims[fn])
        except Wrong as e: chk.fail("element-wise application", inst, where, str(e))
        except Unknown as e: chk.undec(inst, str(e))
        except Missing as e: chk.fail("plain numbers", inst, where, "AttributeError: " + str(e))
    # elements that are numbers
    todo = []
    for r, m in rs:
        if m.get("texts"): continue
        chk.saw(r)
        if r.status != "return":
            chk.undec(m["name"], r.msg)
            continue
        has = {nm: bool(r.outi(10 + i)) for i, nm in enumerate(NAMES_)}
        for fn, (E, v, t) in defs.items():
            inst = "hyperjet.%s of %s" % (fn, m["name"])
            where = "python/src/main.cpp (m.attr(\"%s\"))" % fn
            try: res = E.apply(v.f, [Elem(has)])
            except Unknown as e:
                chk.undec(inst, str(e))
                continue
            except (Wrong, Missing) as e:
                chk.fail("elements that are numbers", inst, where, "raises or changes: %s" % e)
                continue
            want = expected(fn, m["ty"], m["n"])
            if not isinstance(res, Read):
                # an empty array for numbers without that derivative
                if want is not None: chk.fail("elements that are numbers", inst, where, "is %r instead of the %s of the number" % (res, dict(f="value", d="gradient", dd="Hessian")[fn]))
                elif np.shape(res) != (0,) * dims[fn]: chk.fail("elements that are numbers", inst, where, "has shape %s" % (np.shape(res),))
                else: chk.ok()
                continue
            tag = 100 + 10 * list(EXPRS).index(res.key)
            if want is None:
                chk.fail("elements that are numbers", inst, where, "is %s, but such numbers have no such derivative" % res.key)
                continue
            kind, shape, vals = want
            o = [r.outi(tag + 2 + i) for i in range(3)]
            got = (r.outi(tag), tuple(o[1:1 + o[0]]) if kind == ARRAY and o[0] else ())
            if got != (kind, shape):
                chk.fail("elements that are numbers", inst, where, "%s is %s of shape %s instead of %s of shape %s" % (res.key, KIND.get(got[0], got[0]), got[1], KIND[kind], shape))
                continue
            todo.append((r, dict(name=inst, scalar="double", exact={tag + 1: lst(vals)} if vals else {}, label={tag + 1: res.key})))
    if todo: judge(chk, "elements that are numbers", [r for r, _ in todo], [m for _, m in todo], same_problem, kinds=MEMORY)
    return done(chk)


def check_vec(chk, E, v, fn, inst, where, nd):
    # shape of the result of one element
    if v.sig is None:
        if nd: raise Wrong("np.vectorize without a signature cannot return arrays element by element")
        fixed = None
        if v.otypes is not None:
            if not exact_type(v.otypes): raise Wrong("the result type %r cannot hold every value" % (v.otypes,))
    else:
        if core(v.sig) != nd: raise Wrong("the signature %r declares results of %d dimensions instead of %d" % (v.sig, core(v.sig), nd))
        if v.otypes is not None and not exact_type(v.otypes): raise Wrong("the result type %r cannot hold every value" % (v.otypes,))
    chk.ok()
    for p in PLAIN:
        r = E.apply(v.f, [p])
        if isinstance(r, (Elem, Read, Lam, Bound)): raise Unknown("result for a plain number")
        if nd == 0:
            if isinstance(r, np.ndarray) or not isinstance(r, (numbers.Number, np.generic)) or r != p: raise Wrong("for the plain number %r it is %r" % (p, r))
            if v.otypes is None and not isinstance(r, float): raise Wrong("without otypes the first element determines the type of the result: after a leading %s later values are truncated" % type(r).__name__)
        elif np.shape(r) != (0,) * nd: raise Wrong("for the plain number %r it has shape %s instead of %s" % (p, np.shape(r), (0,) * nd))
        chk.ok()


def expected(fn, ty, n):
    if fn == "f": return FLOAT, (), [("s", 0)]
    if ty.sparse or (fn == "dd" and ty.order == 1): return None
    if fn == "d": return ARRAY, (n,), [("s", 1 + i) for i in range(n)]
    return ARRAY, (n, n), [("s", hpos(n, i, j)) for i in range(n) for j in range(n)]


def done(chk):
    chk.rules = ["the element function of f, d and dd yields the value, gradient (n) or Hessian (n x n) of a number, the number itself or an empty array of the right dimension for a plain number or where there is no such derivative",
                 "np.vectorize is applied with a signature of the right number of core dimensions, or with a result type that holds every value"]
    chk.expected_min = 1
    return chk.finish(explanation="The expressions f, d and dd are taken from the module's state after initialisation, parsed, and evaluated abstractly: for every class with the attributes the class has, for plain numbers by constant folding. The reads of a number they select are compared, as derived terms, with its components.",
                      assumptions=["np.vectorize applies its function element by element as documented"])
