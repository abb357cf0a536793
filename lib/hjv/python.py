"""Shared parts of the checks on the Python module: the binding sources are
compiled against a model of pybind11 (stubs/py) and linked with the probes."""
import glob, os, subprocess, re
from concurrent.futures import ThreadPoolExecutor
from .sparse import *
from . import build, interp

PY = os.path.join(build.VERIF, "stubs", "py")
PFLAGS = ("-isystem", "/usr/include/eigen3", "-DEIGEN_DONT_VECTORIZE", '-DHYPERJET_VERSION="0"')
PRE = ("-I" + PY, "-I" + os.path.join(build.VERIF, "stubs", "io"))
PHEAD = '#include "hjpy.h"\nusing namespace hjy;\n'


class PyTy(Ty):
    """An exported class."""

    def __init__(self, order, size, sparse=False):
        if sparse:
            self.order, self.size, self.scalar, self.dyn, self.cpp, self.tag = 1, None, "double", False, "SScalar<double>", "ss"
            self.name = "SScalar"
        else:
            Ty.__init__(self, order, size)
            self.name = "D" * order + ("" if self.dyn else str(size)) + "Scalar"
        self.sparse = sparse


def roster(sparse=True):
    r = [PyTy(o, n) for o in (1, 2) for n in [None] + list(range(17))]
    return r + [PyTy(1, None, True)] * sparse


def sources():
    """The translation units of the extension module."""
    d = os.path.join(build.REPO, "python", "src")
    fs = sorted(f for f in glob.glob(d + "/**/*", recursive=True) if f.endswith((".cpp", ".cc", ".cxx")))
    if not any("PYBIND11_MODULE" in open(f, errors="replace").read() for f in fs): raise build.Broken("no PYBIND11_MODULE under python/src")
    return fs


class PySuite(Suite):
    """Entries that start from the initialised module."""

    def __init__(self, chk, tag="", head=PHEAD):
        Suite.__init__(self, chk, head, PFLAGS, "p" + tag, PRE)

    def padd(self, ty, name, code, meta, n=0, args=()):
        """code sees T, the class name C, n and the arguments A, B."""
        f = "%s_%s" % (re.sub(r"\W", "_", name), ty.name)
        u = "q%d" % (len(ty.name) % 3 if ty.sparse else (ty.size or 0) % 6)
        ne = "0" if ty.sparse else ty.nexpr(0) if ty.dyn else "(long)%d" % ty.size
        k = 1 if ty.dyn else 0
        a = [str(n)] * k + [str(x) for x in args]
        self.add_raw(u, f, "using T = %s; const char *const C = \"%s\"; const long n = %s; const long A = hj_arg(%d), B = hj_arg(%d); (void)C; (void)n; (void)A; (void)B; %s" % (ty.cpp, ty.name, ne, k, k + 1, code), meta, (a + ["0", "0"])[:k + 2])

    def runs(self):
        srcs = sources()
        jobs = [("".join(s), self.tag + u, self.flags, self.pre) for u, s in self.src.items()]
        first = '#include "hjpy.h"\nextern "C" void P_prelude() { hjy::prelude(); }\n'
        jobs.append((first, self.tag + "prelude", self.flags, self.pre))
        for f in srcs:
            jobs.append((None, self.tag + "_" + re.sub(r"\W", "_", os.path.relpath(f, build.REPO)), self.flags, self.pre, f))
        d = build.work()

        def one(j):
            if j[0] is None:
                bc = os.path.join(d, j[1] + ".bc")
                r = subprocess.run([*build.CXX, *j[3], *build.INC, "-I" + os.path.dirname(j[4]), *j[2], "-emit-llvm", "-c", j[4], "-o", bc + ".0"], capture_output=True, text=True)
                if r.returncode: raise build.CompileError(os.path.basename(j[4]) + " against the model of pybind11", r.stderr)
                return build.opt_ir(bc)
            return build.compile_ir(*j)
        with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, jobs))
        allbc = os.path.join(d, self.tag + "module.bc")
        r = subprocess.run(["llvm-link", *bcs, "-o", allbc], capture_output=True, text=True)
        if r.returncode: raise build.Broken("the module does not link: " + r.stderr[-1500:])
        for f in srcs: self.chk.units.append(os.path.relpath(f, build.REPO) + " with the model of pybind11")
        self.chk.units.append("probe units " + " ".join(sorted(self.src)))
        ents, metas = [], []
        for u in self.src:
            ents += self.ents[u]
            metas += self.metas[u]
        res = interp.run(allbc, ents, prelude="P_prelude")
        return list(zip(res, metas))

    def judge(self, rule, mk, **kw):
        rs = self.runs()
        judge(self.chk, rule, [r for r, _ in rs], [m for _, m in rs], mk, **kw)
        return rs


NONE, BOOL, INT, FLOAT, STR, LIST, TUPLE, DICT, ARRAY, OBJ = range(10)
KIND = {-1: "no result", 0: "None", 1: "bool", 2: "int", 3: "float", 4: "str", 5: "list", 8: "array", 9: "number"}
SM = (0b0011, 0b0110, 0b1001)   # names carried by the sparse operands a, b, c


def psizes(ty, chk, quick=(0, 2, 5), more=(1, 3, 8, 17)):
    """Numbers of variables of an instance."""
    if ty.sparse: return (0,)
    return tuple(quick) + (tuple(more) if chk.thorough else ()) if ty.dyn else (ty.size,)


def inst(ty, k):
    """Expression of an instance whose components are the symbols k*STEP, ..."""
    if ty.sparse: return "instance<T>(C, sj<T>(%d, %d))" % (k * STEP, SM[k])
    return "instance<T>(C, jet<T>(%d, n))" % (k * STEP)


def decl(ty, uses):
    return " ".join("Box *%s = %s;" % (c, inst(ty, "abc".index(c))) for c in uses if c in "abc") + (" const double s = hj_sym(%d);" % PARAM if "s" in uses else "") + " "


def operand(ty, c):
    if c == "s": return ("s", PARAM)
    if not isinstance(c, str): return ("c", c)
    k = "abc".index(c)
    return ("j", k * STEP, SM[k]) if ty.sparse else ("j", k * STEP)


def pmeta(name, fun, ty, n, ops, at=0, **kw):
    """The box shown at the tag is a number of the class: fun of the operands."""
    if ty.sparse: m = s_meta(name, fun, [operand(ty, o) for o in ops])
    else: m = jet_meta(name, fun, ty, n, [operand(ty, o) for o in ops])
    m["ints"] = {at: OBJ, at + 2: m["ints"][1], at + 3: m["ints"][2]}
    m["intnames"] = {at: "kind of the result", at + 2: "size of the result", at + 3: "number of components of the result"}
    m["tags"] = (at + 1,)
    m["label"] = {at + 1: "result"}
    m["sparse"] = ty.sparse
    m["scalar"] = "double"
    ints = kw.pop("ints", {})
    m.update(kw)
    m["ints"] = m["ints"] | ints
    return m


def pproblem(run, meta):
    return (s_problem if meta.get("sparse") else fun_problem)(run, meta)
