#!/bin/bash
# seed.sh sync            : scratch copy of /repo (and /opt/vp, /verif) under /tmp/seed
# seed.sh sh CMD          : run CMD with the copies mounted at /repo, /opt/vp
# seed.sh run ID          : clean demo, then patch, build, stable tests, demo, the property's check; undo
S=/tmp/seed
ns() { unshare -Urm bash -c 'mount --bind /tmp/seed/repo /repo && mount --bind /tmp/seed/vp /opt/vp && mount --bind /tmp/seed/verif /verif && cd /repo && '"$1"; }
case $1 in
sync) mkdir -p $S/verif; for d in /repo:repo /opt/vp:vp; do
        s=${d%%:*}; t=$S/${d##*:}; if [ -d $t ]; then rsync -a --delete $s/ $t/ 2>/dev/null || { mv $t $t.old.$$; cp -a $s $t; }; else cp -a $s $t; fi; done
      if command -v rsync >/dev/null; then rsync -a --delete --exclude seeded --exclude .git /verif/ $S/verif/; else mv $S/verif $S/verif.old.$$; cp -a /verif $S/verif; fi;;
sh) shift; ns "$*";;
run) id=$2; D=/verif/seeded/$id; pid=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
     rm -rf /tmp/seed/demo; cp -a $D /tmp/seed/demo
     git -C $S/repo checkout -q -- crates
     ns 'bash /opt/vp/build.sh >/tmp/seed/b0.txt 2>&1; bash /tmp/seed/demo/demo.sh >/tmp/seed/d0.txt 2>&1; echo "clean demo rc=$?"'
     git -C $S/repo apply --check $D/patch.diff || exit 1
     git -C $S/repo apply $D/patch.diff
     ns 'bash /opt/vp/build.sh >/tmp/seed/b1.txt 2>&1 || { tail -20 /tmp/seed/b1.txt; exit 3; }; bash /opt/vp/test.sh /tmp/seed/t1.json >/tmp/seed/t1.txt 2>&1; tail -1 /tmp/seed/t1.txt; bash /tmp/seed/demo/demo.sh >/tmp/seed/d1.txt 2>&1; echo "patched demo rc=$?"; tail -3 /tmp/seed/d1.txt; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py '$pid' >/tmp/seed/c1.txt 2>/tmp/seed/c1.err; echo "check '$pid' rc=$?"; grep -a VIOL /tmp/seed/c1.txt; grep -a "violation:" /tmp/seed/c1.err | head -3'
     git -C $S/repo checkout -q -- crates ;;
esac
