"""Writes MANIFEST.json: one entry per check that exists, the others under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "workload of random constraint sets; every constraint functional of each constrained expression is evaluated in exact arithmetic for explicit free functions by an independent evaluator",
 "C02": "random get/set histories on CeSolver, monitored against a freshly built solver and against the constraints themselves",
 "C03": "printed code is executed and compared with 40-digit values of the expression; SymPy's printers are compared before and after",
 "C04": "basis matrices observed at the public API, compared entry by entry with an independent multi-precision oracle",
 "C05": "n-D basis matrices observed at the public API, compared entry by entry with an independent multi-precision oracle",
 "C06": "differential monitoring of both backends on the same workload, with multi-precision values for complex input",
 "C07": "basis matrices with removed functions compared with the columns of the full matrix, over all forms of nC",
 "C08": "eager, jit, vmap and abstract evaluations of many live instances monitored against each other",
 "C09": "automatic derivatives (jvp, jacfwd, jacrev, egrad, nested and mixed) monitored against the analytic basis matrices and an oracle",
 "C10": "collocation points and mapping observed over random domains and compared with their definition",
 "C11": "AddressSanitizer and UndefinedBehaviorSanitizer builds of the extension under hostile call sequences, with poisoned allocations and heap accounting",
 "C12": "ThreadSanitizer build of the extension driven by concurrent threads, and a release stress run whose results are checked per thread",
 "C13": "histories over many live objects; every call, kept result, argument and object state is snapshotted and compared bit by bit",
 "C14": "LS, LsClass and ScaledQrLs monitored against the minimiser of the matrix the residual was built from",
 "C15": "NLLS and NllsClass monitored step by step against a plain NumPy Gauss-Newton with the documented stopping rule",
 "C16": "partially evaluated functions monitored against the original function over random programs and argument structures; evaluations of the constant part counted by host callbacks",
 "C17": "random operation histories on TFCDict and TFCDictRobust against a list model",
 "C18": "graphs compared with an independent cycle search; the files SaveGraphs writes are parsed and compared",
 "C19": "egrad monitored against symbolic derivatives; step and its derivatives at and around the jump",
 "C20": "manufactured boundary and initial value problems solved through the whole workflow, monitored for constraint residuals and distance to the true solution",
 "C21": "matrices of HybridUtfc compared with those of its parts, eager, compiled and differentiated",
 "C22": "table text parsed by an independent reader and compared cell by cell",
 "C23": "figures and written files inspected and compared with what was asked",
 "C25": "stand-ins for criu and sudo record the commands criuCheckpoint runs, under hostile directory names",
 "C26": "a recording stand-in for Mayavi receives the calls of random histories, which are compared with the requests",
 "C24": "invalid and nearest valid requests; exceptions, exits and messages observed in guarded processes",
}
NOTE = {
 "C25": "Held on every execution observed; CRIU itself is replaced by a recorder, so no checkpoint is made.",
 "C26": "Held on every execution observed; Mayavi itself is replaced by a recorder, so nothing is drawn.",
 "C11": "Held on the executions driven; no claim about paths the workload does not reach, nor about intra-object overflows, which red zones miss.",
 "C12": "Held on the interleavings observed (several runs, injected delays); XLA's own locks are not instrumented, so the extension is called through synchronous dispatch.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "vf", "checks")) if f.startswith("c")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "runtime monitoring: " + T[i], "level": "exploration",
                       "level_note": NOTE.get(i, "Held on every execution observed in the run; the evidence file counts them. The oracle is exact or multi-precision; reach comes from the diversity of the generated workload.")})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks: the monitors sit at the public API, at host callbacks and in sanitizer builds of the unmodified sources, so no commit in /repo is guarded.", "source_commits": []},
     "notes": "Each check builds the extension from /repo's working tree into a scratch folder keyed by the sources. known_findings.json lists what was repaired in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
