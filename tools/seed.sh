#!/bin/bash
# developer tool: validate planted bug $1 in a private copy of /repo; with "test" as $2 also run the stable tests;
# "check" runs the property's quick check against the planted bug
ID=$1; MODE=${2:-demo}; D=/verif/seeded/$ID
S=/tmp/seed_$ID; rm -rf "$S"; mkdir -p "$S"
git -C /repo worktree prune; cp -a /repo "$S/repo"; git -C "$S/repo" checkout -q -- .
cp -a "$D" "$S/demo"; rm -f "$S"/demo/*.diff "$S"/demo/meta.json
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /verif "$S/verif"
cat > "$S/go.sh" <<X
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo/demo.sh > $S/d0 2>&1; echo "$ID demo unchanged: \$?"
git apply $D/patch.diff || echo "NO APPLY"
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash $S/demo/demo.sh > $S/d1 2>&1; echo "$ID demo patched: \$?"; tail -1 $S/d1 | cut -c1-200
case $MODE in *check*) VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python /verif/vf/run.py $P quick > $S/c 2>&1; echo "$ID check $P: \$?"; grep VIOLATION $S/c; grep -m1 -- " -- " $S/c | cut -c1-200;; esac
case $MODE in *test*) bash /opt/vp/test.sh $S/t.json > $S/tlog 2>&1; python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/t.json'))
def p(d):
    d=d.get('passed', d.get('stable', d)) if isinstance(d, dict) else d
    return set(d)
print("$ID lost tests:", sorted(p(b)-p(t))[:5], len(p(b)), len(p(t)))
Y
;; esac
X
unshare -m bash "$S/go.sh"
[ "${KEEP:-}" ] || rm -rf "$S"
