"""known_findings.txt = known findings (tools/known.jsonl) + one 'fixed:' line per fix commit"""
import json, subprocess, sys
M = json.load(open("/verif/tools/fixmap.json"))
out = [l.rstrip("\n") for l in open("/verif/tools/known.jsonl") if l.strip()]
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    k = [v for kk, v in M.items() if kk in s]
    if not k:
        sys.exit("no property for: " + s)
    out.append("fixed: property=%s %s %s" % (k[0], h, s[5:]))
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
