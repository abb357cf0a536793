#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in lib/hjv/props."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of LLVM IR (value-number terms, points-to, memory state), compared with the rule by random interpretation"
TECH = {
 "C06": "relational abstract interpretation and data-dependence cones over LLVM IR",
 "C07": "effect (write-set) analysis over the interpreted call tree of LLVM IR",
 "C08": "abstract interpretation of LLVM IR: outcome and effect of every mismatching call",
 "C09": "memory-state dataflow (bounds, liveness, initialisation, release) over LLVM IR",
 "C11": "abstract interpretation of LLVM IR: outcome of every impossible request",
 "C12": "address resolution by abstract interpretation of LLVM IR",
 "C14": "provenance (def-use) analysis of every component over LLVM IR",
 "C20": "relational value numbering of free function and member, overload-resolution witnesses",
 "C21": "name-to-registration resolution in the bindings' IR, result terms compared with the named function",
 "C22": "dispatch of every Python operator over the registrations found in the bindings' IR, result terms and effects",
 "C23": "enumeration of the registrations in the bindings' IR, abstract interpretation of the dispatch for every length and order",
 "C24": "overload and keyword resolution over the registrations in the bindings' IR, result terms",
 "C25": "component provenance through state export and import in the bindings' IR",
 "C26": "memory-bound and effect analysis of every binding over boundary arguments in the IR",
 "C27": "syntax-tree and IR analysis of the embedded helpers, abstract interpretation over every nesting shape",
 "C28": "points-to and lifetime (keep-alive) analysis of exposed arrays over the bindings' IR",
 "C29": "relational abstract interpretation of two configurations, no-throw IR query",
 "C30": "compile and compile-fail witnesses, linkage query on the IR",
 "C31": "relational abstract interpretation of Eigen expressions and their hand-written form, trait witnesses",
 "C32": "output provenance: the characters written by the IR as a function of the components",
 "C34": "allocation effect analysis over LLVM IR, layout witnesses",
 "C35": "exceptional-path analysis over LLVM IR: every allocation site of every operation taken as failing; effects, leaks and state afterwards",
 "C36": "compile-fail witnesses for every pair of kinds, overload resolution of plain operands, dispatch over the Python registrations",
 "C38": "exit-guard and value-term analysis over LLVM IR at poles, outside domains and on both sides of every branch",
 "C37": "precision dataflow over LLVM IR: narrowing conversions, operations and constants on the interpreted paths",
}
NOTE = ("Sound up to the abstract domains for the listed instantiations (orders 1 and 2, fixed sizes 0..16, run-time sizes up to 33; all operand values symbolic): every branch on operand "
        "values is followed on both sides and joined, nothing is executed. Equality of terms is decided by random interpretation with branch-boundary search, so a wrong equality is missed with negligible probability. "
        "Trusted: clang's lowering to IR, the models of libm and of the C++ runtime, the oracle's symbolic derivatives. Entries outside the domains are reported as undecided, not as violations.")
PYN = ("The binding code is interpreted from its IR against stand-in pybind11 headers which record every registration; pybind11 itself and CPython are trusted. " + NOTE)
NA = {
 "N01": "last-bit accuracy is a property of IEEE rounding in libm and of evaluation order over all operand values; no static error bound is available for the chain of libm calls, and the reals-based terms here deliberately ignore rounding",
 "N02": "absence of intermediate overflow/underflow quantifies over run-time magnitudes; the derived terms are over the reals and an interval analysis cannot relate intermediate to result magnitudes without bounds on the inputs",
 "N03": "a statement about generated machine code performance on hardware; static inspection of IR cannot decide run time",
 "N04": "concerns packaging tools, interpreters and platforms outside the source; deciding it needs an actual build and import",
}
checks = []
for f in sorted(os.listdir(os.path.join(R, "lib/hjv/props"))):
    if not f.startswith("c") or not f.endswith(".py"): continue
    p = f[:-3].upper()
    k = int(p[1:])
    checks.append(dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="VERIF_TIER=thorough ./check %s" % p, evidence_file="evidence/%s.json" % p,
                       technique=TECH.get(p, AI), level="other", level_note=PYN if 21 <= k <= 28 else NOTE))
have = {c["property"] for c in checks}
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
na = [dict(property=p, reason=NA.get(p, "not claimed yet: the check is under construction")) for p in props if p not in have]
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo. All checks read /repo's headers and binding sources at run time; known findings are in known_findings.txt."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
