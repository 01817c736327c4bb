"""Writes MANIFEST.json from the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DENSE = ("the real library is executed on generated workloads; an independent oracle evaluates operators, terms and expressions as "
         "matrices on a finite Fock space with random amplitudes modulo a 20-bit prime, exact arithmetic (a wrong identity escapes with probability "
         "about 1e-6 per compared entry)")
T = {
 "C01": ("runtime monitoring: Fock-space matrix oracle over recorded contractions", DENSE + "; up to about 8 modes and 12 operators."),
 "C02": ("runtime monitoring: correlated-state matrix oracle over recorded contractions",
         DENSE + "; random number-conserving density matrices supply the moments and cumulants."),
 "C03": ("runtime monitoring: metamorphic trace oracle over recorded contractions",
         "windows, cumulant limits, prefactors and sums are compared term by term with the unrestricted results."),
 "C04": ("runtime monitoring: differential oracle over execution modes with injected scheduling delays",
         "threads, print levels, reuse and history are varied around one contraction, with delays injected at synchronization calls; "
         "results are compared as text."),
 "C05": ("ThreadSanitizer and schedule perturbation",
         "threaded contractions run under ThreadSanitizer with injected delays; only schedules that ran are judged."),
 "C06": ("AddressSanitizer and UndefinedBehaviorSanitizer under hostile API sequences",
         "random valid and invalid call sequences in an instrumented build; state before and after failing calls is compared."),
 "C07": ("runtime monitoring: Fock-space matrix oracle", DENSE + "."),
 "C08": ("runtime monitoring: Fock-space matrix oracle and renaming metamorphic oracle", DENSE + "."),
 "C09": ("runtime monitoring: reference-model oracle over operation histories", "formal sums of terms with exact rationals are the model."),
 "C10": ("runtime monitoring: reference-model oracle over operation histories", "formal sums of operator products with exact rationals are the model."),
 "C11": ("runtime monitoring: exact-arithmetic oracle", "Python fractions are the model; also run under UndefinedBehaviorSanitizer."),
 "C12": ("runtime monitoring: round-trip oracle and independent printer", "random objects are printed, re-read and compared; an independent printer checks the text."),
 "C13": ("runtime monitoring: conservation oracle (multiset of terms)", "each equation is matched with exactly one term, keys and left-hand tensors are recomputed."),
 "C14": ("runtime monitoring: executes the generated code against an independent evaluator", "random arrays; relative tolerance 1e-11."),
 "C15": ("runtime monitoring: registry state-machine oracle", "a model of the registry is stepped along valid and invalid calls."),
 "C16": ("runtime monitoring: independent construction oracle", "the requested operators are enumerated independently and compared exactly."),
 "C17": ("runtime monitoring: independent LaTeX printer and reader", "the output is compared with an independent rendering."),
 "C18": ("runtime monitoring: exhaustive enumeration oracle", "all small inputs and random large ones."),
 "C19": ("runtime monitoring: differential oracle between two builds", "the same workload runs in both integer configurations and the transcripts are compared."),
 "C20": ("runtime monitoring: dense-matrix oracle for executed pipelines", "floating point matrices on a small Fock space; tolerance 1e-9."),
 "C21": ("runtime monitoring: connectivity and duplicate-diagram oracle", "every term of recorded commutator contractions is inspected; graph isomorphism decides equal diagrams."),
 "C22": ("runtime monitoring: order-axiom oracle over pairs and triples", "all pairs and triples of small sets and random large ones."),
}
checks = []
for p, (t, note) in sorted(T.items()):
    if os.path.exists(os.path.join(V, "wv", "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3-vt -m wv.main %s --tier quick" % p,
                       "thorough_cmd": "python3-vt -m wv.main %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
                       "level_note": note + " Assurance is limited to the executions observed; evidence states how many and how diverse."})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = {c["property"] for c in checks}
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in claimed]
json.dump({"version": 1, "setup_cmd": "python3-vt -m wv.build plain noboost asan tsan", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
