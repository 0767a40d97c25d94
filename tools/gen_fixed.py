"""Fill known_findings.json 'fixed' from the fix: commits of /repo and the property each one was found under."""
import json, subprocess, os
PROP = {"frequency changes of a clock used by several": "Q03", "frequency changes of downconverted": "Q03", "operations added before a block": "Q01", "local oscillator frequencies that contradict": "Q03",
 "configured instrument and parameter names": "Q08", "order of operations that start when": "Q01", "duration of stacked square": "Q01", "stacking of overlapping": "Q01", "overlapping pulses in control flow": "Q01",
 "last part of a long ramp": "Q01", "phase and frequency changes in control flow": "Q03", "waits shorter than 4 ns": "Q06", "operations share the content": "S03", "inline assembly operation loses": "J01",
 "delay after a measurement": "S01", "operations that differ by -1": "S03", "timing of a schedule that is used in several": "S01", "additional timing constraint": "S01", "get_waveform returns": "W01",
 "soft square waveform of 4": "W01", "sudden net zero waveform": "W01", "drag waveform accepts": "W01", "staircase waveform": "W01"}
extra = os.path.join(os.path.dirname(__file__), "fixed_props.json")
if os.path.exists(extra): PROP.update(json.load(open(extra)))
p = os.path.join(os.path.dirname(__file__), "..", "known_findings.json"); d = json.load(open(p))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bcfa3f7..HEAD"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]; k = [v for q, v in PROP.items() if s.startswith(q)]
    if len(k) != 1: raise SystemExit(f"property of {s!r}?")
    out.append(f"fixed: property={k[0]} {h} {s}")
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1); print(len(out))
