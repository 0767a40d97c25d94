#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "S01": ("monitor: compiled timeline vs independent timing solver", "Random constraint graphs; held on the executions counted in the evidence."),
 "S02": ("monitor: before/after snapshots and repeated-compilation comparison", "Histories of compilations; equivalence judged on compiled instructions."),
 "S03": ("monitor: equality/identity oracle over operation pairs and edit histories", "Every parameter of every library operation is varied."),
 "G01": ("monitor: unitary of compiled pulses vs product of gate matrices", "Random circuits; ideal rotating-frame model of the pulses."),
 "G02": ("monitor: pulse/acquisition parameters vs own device table", "Random devices with all-distinct parameters."),
 "C01": ("monitor: numeric integral of everything played per port", "Random schedules, loops and compensation settings."),
 "Q01": ("monitor: Q1ASM execution, output signal vs scheduled signal", "Trusts the Q1ASM interpreter in rtmon/q1sim.py."),
 "Q02": ("monitor: Q1ASM execution, elapsed time of all sequencers and paths", "Trusts the Q1ASM interpreter in rtmon/q1sim.py."),
 "Q03": ("monitor: Q1ASM execution, latched NCO state at each signal", "Trusts the Q1ASM interpreter in rtmon/q1sim.py."),
 "Q04": ("monitor: Q1ASM execution, acquire events vs expected acquisitions", "Trusts the Q1ASM interpreter in rtmon/q1sim.py."),
 "Q05": ("monitor: uniquely numbered hardware bins traced to dataset labels", "Hardware bins filled by a dummy; bins visited determined by executing the programs."),
 "Q06": ("monitor: vendor assembler verdict and operand/resource limits under limit stress", "Vendor assembler binary shipped with qblox_instruments."),
 "Q07": ("monitor: Q1ASM execution with a trigger-network model over all outcome vectors", "Trusts the trigger model in rtmon/q1sim.py."),
 "Q08": ("monitor: option placement in compiled settings vs own routing table", "Random asymmetric hardware configurations."),
 "Q09": ("monitor: Q1ASM execution, marker/digital trace vs scheduled windows", "Trusts the Q1ASM interpreter in rtmon/q1sim.py."),
 "Q10": ("monitor: corrected pulses mapped back through the configured model", "Random crosstalk matrices and distortion corrections."),
 "Q11": ("monitor: Q1ASM execution, output signal vs pulses and a model of the inline programs", "Trusts the Q1ASM interpreter in rtmon/q1sim.py."),
 "I01": ("monitor: call-log automaton with fault injection", "Recording components, faults in every call."),
 "I02": ("monitor: dummy-cluster parameter state after histories vs fresh cluster", "Vendor dummy cluster."),
 "E01": ("monitor: call log and returned data of gettables with faults", "Recording coordinator and components."),
 "J01": ("monitor: round-trip equality and recompilation", "Random objects of all public libraries."),
 "W01": ("monitor: sampled waveforms vs independent formulas", "Random parameters; agreement to 1e-9 relative."),
 "V01": ("monitor: sampled diagram data vs own rendering", "Random schedules."),
 "V02": ("monitor: drawn glyphs and table rows vs own layout", "Random schedules."),
 "L01": ("monitor: generated experiments vs documented operation list", "Random sweeps."),
 "A01": ("monitor: acquisition description vs own numbering", "Random acquisition schedules."),
}
checks = []
for k, (t, n) in T.items():
    if os.path.exists(os.path.join(V, "rtmon", "checks", k.lower() + ".py")):
        checks.append(dict(property=k, quick_cmd=f"./run.sh {k} quick", thorough_cmd=f"./run.sh {k} thorough", evidence_file=f"evidence/{k}.json",
                           technique="runtime monitoring; " + t, level="exploration", level_note=n + " Held on the executions observed, not proven."))
claimed = {c["property"] for c in checks}
na = [dict(property="Z01", reason="The Zurich Instruments backend refuses to import on the installed interpreter (needs Python 3.9 and zhinst packages), so no execution of it exists to monitor.")]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in claimed and p != "Z01": na.append(dict(property=p, reason="Not built: the mock read-out module is a demonstration backend of the documentation that plays nothing to observe (its traces are its own uploaded arrays); compiling for it is exercised by S02."))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, qblox_instruments' && mkdir -p evidence/replay",
         hooks=dict(guard="none", enable="No hooks are needed: the monitors observe public artefacts and wrap objects from the harness.", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
