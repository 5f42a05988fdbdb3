"""rewrite the fixed: lines of known_findings.jsonl from tools/fixed.map (property and commit subject) and the log of /repo"""
import subprocess
KF = "/verif/known_findings.jsonl"
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
by = {l.split(" ", 2)[2]: l.split(" ", 1)[0] for l in log if " fix: " in l}
prop = {}
for l in open("/verif/tools/fixed.map"):
    p, s = l.rstrip("\n").split(" ", 1)
    prop[s] = p
keep = [l for l in open(KF) if l.strip() and not l.startswith("fixed:")]
with open(KF, "w") as f:
    f.writelines(keep)
    for s, h in by.items():
        if s not in prop:
            print("unmapped:", h, s)
        f.write("fixed: property=%s %s %s\n" % (prop.get(s, "?"), h, s))
