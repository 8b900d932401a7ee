"""Writes SPACES.md from the checks (run by hand after a space is added)."""
import importlib, sys
sys.path[:0] = ["/verif", "/repo"]
out = ["# Spaces", "", "Every space is enumerated completely, within the bound given (quick tier; where thorough differs the bound says so or", "names the quick one). The number of cases is in the evidence files.", ""]
for i in range(1, 19):
    m = importlib.import_module(f"mc.checks.c{i:02d}")
    q, t = m.spaces("quick"), {s.name: s.bound for s in m.spaces("thorough")}
    out += [f"## C{i:02d}", ""]
    for s in q:
        b = s.bound + (f" -- thorough: {t[s.name]}" if s.name in t and t[s.name] != s.bound else "" if s.name in t else " -- quick only")
        out.append(f"* **{s.name}**: {b}")
    for n, b in t.items():
        if n not in {s.name for s in q}:
            out.append(f"* **{n}** (thorough only): {b}")
    if getattr(m, "ASSUMPTIONS", None):
        out += ["", "Assumptions: " + "; ".join(m.ASSUMPTIONS) + "."]
    out.append("")
open("/verif/SPACES.md", "w").write("\n".join(out))
