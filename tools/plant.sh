#!/bin/bash
# plant.sh ID [-t] [CHECK...]: verify a planted bug of seeded/ID in a scratch copy that is bind-mounted
# over /repo in a private mount namespace: it applies, builds, its demo passes without and fails with it,
# (-t) the stable tests pass; then run the given checks with it.
id=$1; shift
t=; [ "$1" = -t ] && { t=1; shift; }
d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
wt=$(mktemp -d /tmp/plant-XXXXXX)
cp -a /repo "$wt/repo"; mkdir "$wt/reports" "$wt/demo"; cp -a "$d"/. "$wt/demo"; /bin/rm -f "$wt/demo/patch.diff" "$wt/demo/meta.json"
export wt d t id
unshare -Urm bash -c '
mount --bind "$wt/repo" /repo; mount --bind "$wt/reports" /opt/vp/reports
cd /repo; git checkout -q -- . 2>/dev/null
bash /opt/vp/build.sh || echo "BUILD FAILED (clean)"
(bash "$wt/demo/demo.sh") >"$wt/clean.log" 2>&1; r=$?; [ $r = 0 ] && echo "demo clean: ok" || { echo "demo clean: FAILS $r"; tail -15 "$wt/clean.log"; }
git apply "$d/patch.diff" || { echo "does not apply"; exit; }
bash /opt/vp/build.sh || echo "BUILD FAILED"
(bash "$wt/demo/demo.sh") >"$wt/bug.log" 2>&1; r=$?; [ $r != 0 ] && echo "demo with bug: fails ($r), good" || { echo "demo with bug: PASSES"; tail -15 "$wt/bug.log"; }
if [ -n "$t" ]; then
 bash /opt/vp/test.sh "$wt/out.json" >/dev/null 2>&1
 python3 - "$wt/out.json" <<P
import json,sys
st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open(sys.argv[1]))
ps=set(o.get("passed",o.get("pass",[])))
m=sorted(st-ps); print("stable tests not passing:",len(m)); [print("  ",x[:200]) for x in m[:6]]
P
fi
for c in "$@"; do echo "== check $c"; VERIF_EVIDENCE=1 /verif/check.sh $c quick > "$wt/c.log" 2>&1; echo "exit $?"; grep -A3 -m3 VIOLATION "$wt/c.log" | cut -c1-220; tail -1 "$wt/c.log"; done
' _ "$@"
/bin/rm -rf "$wt"
