#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "TLA+ trace validation of the real simulators and blocks (TraceSim, TLC) with random scenarios"
GEN = " and scenarios enumerated by TLC"
API = "TLC-generated call sequences and random ones replayed into the real code, traces validated against the TLA+ specification (TraceApi)"
T = {
 "C01": SIM + GEN + "; MCSched model-checked (safety and liveness)",
 "C02": "TLA+ trace validation across simulators, declaration orders and nestings (equal results per group)" + GEN + "; confluence of MCSched model-checked",
 "C03": SIM, "C04": SIM + "; block semantics in TLA+ (PooyaBlocks)",
 "C05": SIM + "; MCDyn model-checked", "C06": SIM + "; MCDyn model-checked (delay against full history)", "C07": SIM + "; MCDyn model-checked",
 "C08": SIM + "; MCSystem model-checked", "C09": SIM + "; MCSystem model-checked", "C10": SIM + "; MCDyn model-checked",
 "C11": SIM + GEN + " (MCBusBlk)", "C12": SIM + GEN + " (MCRun)", "C13": SIM + "; MCSystem model-checked", "C14": SIM + "; MCSystem model-checked",
 "C15": "steppers driven with random right-hand sides, stages and results validated against the TLA+ tableau specification; MCStepper model-checked over rationals",
 "C16": "steppers driven with random right-hand sides, stages, result and suggestion validated against the TLA+ tableau specification; MCStepper model-checked over rationals",
 "C26": "TLA+ trace validation of checked and release builds side by side (equal results)", "C28": "interleavings enumerated by TLC (MCPar, also model-checked) imposed on real simulations in threads, each projection validated against the TLA+ specification (TraceSim, TraceApi); also free-running threads under the thread sanitizer",
 "C17": API + "; recordings of simulations validated by TraceSim", "C27": SIM + "; MCSystem (with hand-over) model-checked",
}
NOTE = ("The design is model-checked exhaustively within small constants; the code is bound to it by validating every event of the recorded executions "
        "(sanitized build, /repo's current sources) against the specification. Assurance on the code is for the executions explored, not a proof for all inputs. "
        "Trusts the driver's logging, TLC, and binary64 arithmetic of the JVM.")
checks = []
for p in sorted(props.PROPS):
    checks.append(dict(property=p, quick_cmd="python3 lib/check.py %s quick" % p, thorough_cmd="python3 lib/check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=T.get(p, API), level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the driver observes the library through its public interface (subclassed blocks, steppers, callbacks). Specifications are TLA+ in spec/, checked with TLC.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks))
