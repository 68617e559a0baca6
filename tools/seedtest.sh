#!/bin/bash
# usage: tools/seedtest.sh ID [tier] [PROPERTY...]   Plants seeded/ID in a private copy of /repo (a mount namespace shows it as
# /repo), and reports: build, stable tests, demo on the clean and the patched tree, and the check of its property.
cd "$(dirname "$0")/.." || exit 2
ID=$1; TIER=${2:-quick}; shift; shift
D=/verif/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedw.XXXXXX)
cp -a /repo "$W/repo"; cp -r "$D" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"; mkdir -p "$W/vp"; cp -a /opt/vp/. "$W/vp/"
out=""
git -C "$W/repo" apply --check "$D/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
run() { unshare -m bash -c "mount --bind $W/repo /repo && mount --bind $W/vp /opt/vp && cd /repo && $1"; }
run "bash $W/demo/demo.sh" > "$W/demo_clean.log" 2>&1; c=$?
git -C "$W/repo" apply "$D/patch.diff"
orig=$(cd "$W/repo" && python3 - "$D/patch.diff" <<'PY'
import re,subprocess,sys
base='f72f647'; f=None; bad=0; tot=0
for l in open(sys.argv[1], encoding='utf-8'):
    if l.startswith('--- a/'):
        f=l[6:].strip(); src=subprocess.run(['git','show',base+':'+f],capture_output=True,text=True).stdout.split('\n'); s={x.rstrip() for x in src}
    elif l.startswith('-') and not l.startswith('---'):
        tot+=1; bad+= l[1:].rstrip() not in s
print(f'{tot-bad}/{tot}')
PY
)
run "bash /opt/vp/build.sh" > "$W/build.log" 2>&1; b=$?
if [ -z "$SKIPTEST" ]; then
run "bash /opt/vp/test.sh $W/t.json" > "$W/test.log" 2>&1
m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=set(json.load(open('$W/t.json'))['passed']);x=[i for i in b['stable'] if i not in t];print(len(x),x[:2] if x else '')")
fi
run "bash $W/demo/demo.sh" > "$W/demo_bad.log" 2>&1; d=$?
echo "$ID demo_clean=$c demo_patched=$d build=$b missing_tests=$m orig_lines=$orig"
[ $c != 0 ] && tail -5 "$W/demo_clean.log"
tail -1 "$W/demo_bad.log"
if [ "$TIER" != none ]; then
for p in $PROPS; do
  s=$(date +%s); run "cd /verif && VERIF_SEED=\${VERIF_SEED:-1} bash check.sh $p $TIER" > "$W/check.log" 2>&1; r=$?; e=$(date +%s)
  echo "$ID check $p $TIER rc=$r $((e-s))s: $(grep -a -m1 VIOLATION "$W/check.log" | cut -c1-100) $(grep -a -m1 -A1 VIOLATION "$W/check.log" | tail -1 | cut -c1-300)"
done
fi
case "$W" in /tmp/seedw.*) rm -rf "$W";; esac
