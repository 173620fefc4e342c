"""Development helper: appends findings to known_findings.txt.
   python tools_findings.py DUMP.json PROP 'glob' kind 'what fails'      (DUMP.json: run.sh PROP quick --dump)"""
import fnmatch
import json
import sys

dump, prop, pat, kind, what = sys.argv[1:6]
path = "/verif/known_findings.txt"
try:
    have = set(open(path).read().splitlines())
except FileNotFoundError:
    have = set()
n = 0
with open(path, "a") as f:
    for cid, k, _ in json.load(open(dump)):
        if k == kind and fnmatch.fnmatchcase(cid, pat):
            line = "finding: property=%s case=%s kind=%s :: %s" % (prop, cid, kind, what)
            if line not in have:
                f.write(line + "\n")
                n += 1
print(n, "findings")
