# try.sh seed check...   run checks against a seed in an isolated copy
id=$1; shift
D=/tmp/seeds/run/$id
rm -rf $D; mkdir -p $D/verif/evidence
cp -a /repo $D/repo; cp -a /verif/mc /verif/check.sh /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json $D/verif/
sed -i "s#=> /repo#=> $D/repo#" $D/verif/mc/go.mod
P=/verif/seeded/$id/patch.diff; [ -f "$P" ] || P=/tmp/seeds/refactor/$id.diff
git -C $D/repo apply $P || exit 3
for c in $@; do s=$(date +%s); out=$(cd $D/verif; ./check.sh $c quick 2>&1); rc=$?; e=$(date +%s)
echo "$id $c rc=$rc $((e-s))s $(echo "$out" | grep -c VIOLATION)"; echo "$out" > /tmp/seeds/run/$id.$c.out; done
rm -rf $D
