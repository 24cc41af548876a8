#!/bin/bash
# plant.sh ID  : verify /verif/seeded/ID
id=$1; S=/verif/seeded/$id; W=/tmp/pl/$id
rm -rf $W; mkdir -p $W/demo; cp -a /repo $W/repo; cp -a $S/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
ns() { unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && $1"; }
git -C $W/repo status --short | head -3
ns "bash $W/demo/demo.sh" >$W/demo0.log 2>&1; d0=$?
git -C $W/repo apply $S/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
ns "bash $W/demo/demo.sh" >$W/demo1.log 2>&1; d1=$?
echo "$id demo clean=$d0 patched=$d1"
if [ $d0 != 0 -o $d1 = 0 ]; then tail -n 5 $W/demo0.log $W/demo1.log; fi
[ "$2" = demo ] && exit 0
ns "bash /opt/vp/build.sh && bash /opt/vp/test.sh $W/out.json" >$W/bt.log 2>&1; r=$?
python3 - $W/out.json $id <<'P'
import json,sys
try: o=json.load(open(sys.argv[1]))
except Exception as e: print(sys.argv[2],"BUILD/TEST FAILED",e); sys.exit()
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
k=[x for x in o if isinstance(o[x],list)]
p=set(o.get('passed',[])) or {x for x in o if o[x] is True}
print(sys.argv[2],"stable failing:",sorted(st-p)[:8], len(st-p))
P
rm -rf $W/repo
