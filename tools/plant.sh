#!/bin/bash
# plant.sh ID PROP "needs" "breaks" : the working tree of /repo holds a planted change;
# save it as seeded/ID, confirm that the demonstration and the named checks see it, undo it.
# seeded/ID/demo.c (or demo.sh) must exist already. Extra checks to run: $CHECKS
id=$1; prop=$2; d=/verif/seeded/$id
[ -f $d/demo.c ] || [ -f $d/demo.sh ] || { echo "no demo"; exit 1; }
if [ -f $d/patch.diff ] && git -C /repo diff --quiet; then git -C /repo apply $d/patch.diff || exit 1; fi
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
# cwd: /repo, already built. Compiles demo.c against the built library and runs it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -O1 -g -I include -I _build/lib/include "$d/demo.c" -o "$t/demo" _build/lib/librcpr.a -lpthread -lm || exit 90
cd "$t" && timeout 120 ./demo
D
chmod +x $d/demo.sh
[ -n "$3" ] && python3 - "$d/meta.json" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
cd /repo
bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/plant_build.log; git checkout -q -- .; exit 1; }
bash $d/demo.sh >/tmp/plant_demo.log 2>&1; echo "demo with patch: $? (want nonzero)  $(tail -1 /tmp/plant_demo.log)"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/plant_t.json 2>&1 | tail -1; fi
for c in $prop $CHECKS; do VERIF_SEED=1 python3 /verif/run.py $c --tier quick >/tmp/plant_$c.log 2>&1; echo "check $c: exit $? $(grep -m1 -A1 VIOLATION /tmp/plant_$c.log | cut -c1-200)"; done
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1
bash $d/demo.sh >/tmp/plant_demo.log 2>&1; echo "demo without: $? (want 0)  $(tail -1 /tmp/plant_demo.log)"
