#!/bin/bash
# revert.sh COMMIT PROP... : undo one repair in a scratch worktree and check that the properties' checks report it
c=$1; shift
w=/tmp/revert-$c
git -C /repo worktree add -q --detach $w HEAD || exit 2
if git -C $w revert -n $c >/dev/null 2>&1; then
  for p in "$@"; do
    VERIF_REPO_PYTHON=$w/python python3 /verif/run.py check $p > /tmp/revert-$c-$p.log 2>&1; r=$?
    echo "$c $p exit=$r $(git -C /repo log -1 --format=%s $c)"; grep -B1 VIOLATION /tmp/revert-$c-$p.log | cut -c1-220
  done
else
  echo "$c CONFLICT $(git -C /repo log -1 --format=%s $c)"
fi
git -C /repo worktree remove --force $w
