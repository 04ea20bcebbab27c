#!/bin/bash
# tools/lab.sh PATCH CHECKS : runs checks against a patched copy of /repo, in $LAB (development aid; the registered checks run on /repo itself)
LAB=${LAB:-/tmp/lab}; mkdir -p $LAB && rsync -a --delete --exclude .git --exclude seeded --exclude evidence --exclude .work --exclude target ${SRC:-/verif}/ $LAB/verif/
mkdir -p $LAB/verif/.work
[ -d $LAB/verif/driver/target ] || cp -a ${SRC:-/verif}/driver/target $LAB/verif/driver/target 2>/dev/null
rsync -a --delete --exclude target /repo/ $LAB/repo/
sed -i "s#path = \"/repo\"#path = \"$LAB/repo\"#" $LAB/verif/harness/Cargo.toml
if [ -n "$1" ] && [ "$1" != - ]; then (cd $LAB/repo && git apply "$1") || exit 9; fi
cd $LAB/verif && rm -rf evidence; bash check.sh $2; echo "exit $?"
python3 - <<'P'
import json,glob,collections
for f in sorted(glob.glob('evidence/*.json')):
    d=json.load(open(f))['coverage']
    if d['undecided']:
        c=collections.Counter(x[1][:150] for x in d['undecided_detail'])
        for k,n in c.most_common(6): print('   ',f[9:12],n,k)
P
