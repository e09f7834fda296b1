#!/bin/bash
# revert.sh PROP COMMIT...  : run check with commits reverted
P=$1; shift
W=/tmp/wt_$P_$$; git -C /repo worktree add -q --detach $W HEAD
for c in "$@"; do (cd $W && git revert -n $c >/dev/null 2>&1 || echo "CONFLICT $c"); 
cd /verif; VSIM_REPO=$W timeout 300 python3 check.py run $P quick 2>&1 | grep -E "^violation|VIOLATION|HARNESS|runs," | cut -c1-200 | sed "s/^/$c: /"
(cd $W && git reset -q --hard HEAD); done
git -C /repo worktree remove --force $W
