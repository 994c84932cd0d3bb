#!/bin/bash
# try.sh PROP COMMIT: runs PROP's check against /repo as of COMMIT (a scratch copy), to see whether a fixed defect would be caught again
d=/tmp/try.$$; git -C /repo worktree add -q --detach $d $2 || exit 1
(cd /verif && VERIF_REPO=$d VERIF_TIME=${3:-20} python3 check.py $1 2>&1 | tail -6 | cut -c1-400)
git -C /repo worktree remove --force $d
