#!/bin/bash
# tools/try.sh BUG CHECKS : applies a planted bug to /repo, runs checks, undoes it
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
cd /verif && bash check.sh $2; r=$?
git -C /repo checkout -- .
echo "exit $r"
