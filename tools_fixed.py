"""Development helper: rewrites the 'fixed:' lines of known_findings.txt from FIXED and the log of /repo."""
import subprocess

FIXED = [l.strip().split(" | ") for l in open("/verif/fixed_map.txt") if l.strip()]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()]
path = "/verif/known_findings.txt"
lines = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")]
out = []
for h, s in reversed(log):
    if not s.startswith("fix: "):
        continue
    m = [p for p, key in FIXED if key in s]
    assert len(m) == 1, (s, m)
    out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
with open(path, "w") as f:
    f.write("\n".join(out + lines) + "\n")
print(len(out))
