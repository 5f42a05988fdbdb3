"""developer helper: summarise /tmp/<P>.txt"""
import re, sys
from collections import OrderedDict
P, n = sys.argv[1], int(sys.argv[2])
def grp(lines, key):
    g = OrderedDict()
    for l in lines:
        g.setdefault(key(l), []).append(l)
    return sorted(g.values(), key=lambda v: -len(v))
v, inc, slow, fam = [], [], [], []
for l in open("/tmp/%s.txt" % P):
    l = l.rstrip("\n")
    (fam if l.startswith("#fam") else slow if l.startswith("#slow") else inc if l.startswith("#incon") else v).append(l)
def norm(s):
    s = re.sub(r"\[.*?\]|\(.*?\)", "#", s)
    return re.sub(r"-?\d+(\.\d+)?", "#", s)[:40]
def kv(l):
    k, d = l.split("\t", 1)
    return k.split("|")[0] + norm(d)
gs = grp(v, kv)
for g in gs[:n]:
    k, d = g[0].split("\t", 1)
    ops = sorted({int(x.split("|")[1][2:]) for x in g if re.match(r"op\d", x.split("|")[1])} if "|" in k else [])
    print(len(g), "".join(map(str, ops)) if 0 else ",".join(map(str, ops)), k, "::", d[:150])
if len(gs) > n: print("... %d more groups" % (len(gs) - n))
for g in grp(inc, lambda l: l.split("|")[0] + norm(re.split(r" (?=crash|unknown|spurious|unsupported|vacuous)", l, maxsplit=1)[-1]))[:n]:
    print("INC", len(g), g[0][:110], "...", g[0][-90:])
for s in slow[:5]: print(s)
print('; '.join(x[5:] for x in fam[:10]))
