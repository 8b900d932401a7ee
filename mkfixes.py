"""Records the fix: commits of /repo in known_findings.txt.  usage: mkfixes.py Cxx  (property of the new ones)"""
import subprocess, sys
prop = sys.argv[1]
p = "/verif/known_findings.txt"
lines = open(p).read().split("\n")
txt = "\n".join(lines)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
new = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and h not in txt:
        new.append(f"fixed: property={prop} {h} (fix) {s[5:]}")
i = next((k for k, l in enumerate(lines) if l.startswith("KNOWN-FINDING")), len(lines))
lines[i:i] = new
open(p, "w").write("\n".join(lines))
print("\n".join(new))
