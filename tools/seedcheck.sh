#!/bin/bash
# seedcheck.sh ID: validate a planted bug in a scratch copy (build, tests, demo, the property's quick check)
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); SR=${SEED_REPO:-/repo}; S=$V/seeded/$id; W=/tmp/wt_$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a "$SR" "$W" || exit 1
cd "$W" && git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
r="$id $prop:"
mkdir -p /tmp/sd_$id && cp "$S"/demo* /tmp/sd_$id/
unshare -m bash -c "mount --bind $W /repo; cd /repo; bash /opt/vp/test.sh /tmp/out_$id.json >/tmp/sb_$id.log 2>&1; bash /tmp/sd_$id/demo.sh >/tmp/demo_$id.log 2>&1; echo \$? > /tmp/demo_$id.rc"
r="$r tests $(python3 $V/tools/basecmp.py /tmp/out_$id.json 2>&1 | tail -1);"
r="$r demo patched rc $(cat /tmp/demo_$id.rc);"
unshare -m bash -c "mount --bind $SR /repo; cd /repo; bash /tmp/sd_$id/demo.sh >/tmp/democ_$id.log 2>&1; echo clean rc \$?" > /tmp/dc_$id
r="$r $(cat /tmp/dc_$id);"
if [ "$2" != nocheck ]; then
s=$(date +%s)
mkdir -p /tmp/vc_$id && cp -a $V/harness $V/*.py $V/*.json* /tmp/vc_$id/
(cd /tmp/vc_$id && VERIF_REPO=$W VERIF_SEED=1 python3 run.py $prop quick > /tmp/chk_$id.log 2>&1; echo "check rc $?") > /tmp/cc_$id
r="$r $(cat /tmp/cc_$id) $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/chk_$id.log) violations"
fi
echo "$r"
rm -rf "$W" "/tmp/sd_$id" "/tmp/vc_$id"
