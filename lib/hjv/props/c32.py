from ..sparse import *

IO = os.path.join(build.VERIF, "stubs", "io")
STATE = "o.precision(3); o.setf(std::ios_base::fixed, std::ios_base::floatfield); o.setf(std::ios_base::showpoint); o.fill('*');"
DEFAULT, CUSTOM = "6,4098,0,32", "3,5126,0,42"   # precision, flags, width, fill
CODE = ("const T y = a; std::ostringstream o; %s freeze(a, 0); std::ostream &q = (o << a); hj_thaw(); hj_outi(10, &q == &o); hj_outs(20, o.str().c_str());"
        " hj_outi(11, o.precision()); hj_outi(12, o.flags()); hj_outi(13, o.fill()); hj_outi(14, o.rdstate()); hj_outi(15, o.width());"
        " std::ostringstream w; w << \"<\" << y << \">\"; hj_outs(21, w.str().c_str());"
        " T x = a; std::string t = x.to_string(); hj_outs(22, t.c_str()); T z = a; hj_outs(23, z.to_string().c_str()); t += x.to_string(); " % STATE)
INTS = {10: 1, 11: 3, 12: 5126, 13: 42, 14: 0, 15: 0}
NAMES_ = {10: "identity of the returned stream with the given one", 11: "precision of the stream afterwards", 12: "flags of the stream afterwards", 13: "fill character of the stream afterwards", 14: "error state of the stream afterwards", 15: "width of the stream afterwards"}
TEXTS = [(20, "<<", CUSTOM, "", ""), (21, "<< between other texts", DEFAULT, "<", ">"), (22, "to_string()", DEFAULT, "", ""), (23, "to_string() of an equal number", DEFAULT, "", "")]


def run(chk):
    fl = ("-I" + IO,)
    s = Suite(chk, head="#include <sstream>\n" + "#include <string>\n" + HEAD, pre=fl)
    for ty in all_types() + [Ty(2, 3, "float"), Ty(2, None, "float"), Ty(1, None, "float")]:
        for n in sizes(chk, ty):
            L = spec.comps(ty.order, n)
            m = dict(name="text of %s with %d variables" % (ty.cpp, n), order=ty.order, n=n, scalar=ty.scalar, ints=dict(INTS) | {1: n, 4: n}, intnames=NAMES_, label={0: "the number afterwards", 3: "the number after to_string"}, L=L)
            s.add(ty, "text", "const T a = jet<T>(0, n); " + CODE + "out(0, a); out(3, x);", m, n)
    s.judge("textual form", mk, kinds=MEMORY | PURITY, leaks=True)
    q = SSuite(chk, head="#include <sstream>\n" + SHEAD)
    q.pre = fl
    for ty in (STy(), STy("float")):
        for A in [0, 1, 2, 4, 8, 16, 3, 5, 24, 0b1000001] + [0b0011001, 7] * chk.thorough:
            m = dict(name="text of %s, variables %s" % (ty.cpp, show(A)), mask=A, ints=dict(INTS) | {1: bits(A), 4: bits(A)}, intnames=NAMES_, label={0: "the number afterwards", 3: "the number after to_string"})
            q.sadd(ty, "text", "const T a = sj<T>(0, A); " + CODE.replace("freeze(a, 0);", "hj_freeze(&a, sizeof a, 0); hj_freeze_heap(0);") + "sout(0, a, N); sout(3, x, N);", m, (A,))
    q.judge("textual form (sparse)", mk_sparse, kinds=MEMORY | PURITY, leaks=True)
    chk.rules = ["a dense number is written as its value followed by 'hj', whatever its size, storage and derivatives", "a sparse number is written as its value followed by each of its variables once, as ' +c*dNAME' or ' c*dNAME' according to the sign of the derivative c",
                 "the caller's formatting is used and left as it was; the number is not modified; to_string uses the default formatting"]
    chk.expected_min = 500
    return chk.finish(explanation="operator<< and to_string are interpreted with a stream model that records every written token, the value term behind each number token and the formatting state in force.")


def text(run, tag):
    o = run.out(tag)
    return o[0][3] if o and o[0][2] == "s" else None


def complain(run, what):
    run.findings.append(["text", what, None, list(run.guard)])


def own(run):
    # the counter of the stream model
    run.findings = [f for f in run.findings if "hj_numbers" not in f[1]]


def mk(run, meta):
    own(run)
    want = {t: lambda P: P.block(0, meta["L"]) for t in meta.get("kept", (0, 3))}
    for tag, nm, st, pre, post in meta.get("texts", TEXTS):
        t = text(run, tag)
        m = re.fullmatch(r"(.*)\{(\d+)\|([-\d,]*)\}(.*)", t or "", re.S)
        if not m or m[1] != pre or m[4] != "hj" + post: complain(run, "%s writes '%s' instead of the value followed by hj" % (nm, t))
        elif m[3] != st: complain(run, "%s writes the value with formatting (precision, flags, width, fill) %s instead of %s" % (nm, m[3], st))
        else: want[200 + int(m[2])] = lambda P: [P.sym(0)]
    f32 = meta["scalar"] != "double"
    return Problem(run, want, {0: spec.REAL}, special=[{0: v} for v in (0, -0.0, 1, -1)], f32ok=f32, tol=1e-6 if f32 else 0)


VARS = ["x", "y", "xy", "a_variable_with_a_long_name", "", "X", "a_variable_with_a_long_namf"]


def mk_sparse(run, meta):
    own(run)
    A = meta["mask"]
    zero = lambda P: np.zeros(P.shape, np.longdouble)
    want = {t: (lambda P: np.stack(sjet(P.sym, 0, A, NAMES, zero(P)))) for t in meta.get("kept", (0, 3))}
    for tag, nm, st, pre, post in meta.get("texts", TEXTS):
        t = text(run, tag) or ""
        if not (t.startswith(pre) and t.endswith(post)):
            complain(run, "%s writes '%s'" % (nm, t))
            continue
        body = t[len(pre):len(t) - len(post)]
        m = re.match(r"\{(\d+)\|%s\}" % st, body)
        rest = body[m.end():] if m else ""
        ents = re.findall(r" (\+?)\{(\d+)\|%s\}\*d(\w*)" % st, rest)
        if not m or "".join(" %s{%s|%s}*d%s" % (a, b, st, c) for a, b, c in ents) != rest:
            complain(run, "%s writes '%s' instead of the value and ' +c*dNAME' or ' c*dNAME' for each variable" % (nm, t))
            continue
        if sorted(e[2] for e in ents) != sorted(VARS[k] for k in range(NAMES) if A >> k & 1):
            complain(run, "%s names the variables %s" % (nm, [e[2] for e in ents]))
            continue
        want[200 + int(m[1])] = lambda P: [P.sym(0)]
        for sg, k, v in ents:
            i = 1 + VARS.index(v)
            # the printed sign has to agree with the derivative
            want[200 + int(k)] = (lambda i, sg: lambda P: [np.abs(P.sym(i)) if sg else -np.abs(P.sym(i))])(i, sg)
    f32 = meta["scalar"] != "double"
    zeros = [{1 + k} for k in range(NAMES) if A >> k & 1]
    return Problem(run, want, {0: spec.REAL} | {1 + k: spec.REAL for k in range(NAMES) if A >> k & 1}, special=[{0: v} for v in (0, 1, -1)], zeros=zeros, f32ok=f32, tol=1e-6 if f32 else 0)
