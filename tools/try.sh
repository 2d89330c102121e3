#!/bin/bash
# try.sh <patch file | -R commit> ID...: run checks against a scratch copy of /repo with the change applied
set -u
d=$(mktemp -d /tmp/vptry_XXXXXX)
git -C /repo worktree add -q --detach "$d/repo" HEAD || exit 9
if [ "$1" = -R ]; then (cd $d/repo && git revert --no-commit "$2" >/dev/null 2>&1) || echo "revert failed"; shift 2
else (cd $d/repo && git apply "$(cd /verif; realpath "$1")") || echo "apply failed"; shift; fi
rc=0
for id in "$@"; do
	VP_OUT=$d VP_REPO=$d/repo python3 /verif/check.py $id > $d/out 2>&1; r=$?
	echo "== $id exit $r"; grep -v '^OK' $d/out | head -${LINES_MAX:-8} | cut -c1-300
done
git -C /repo worktree remove --force "$d/repo"
rm -rf -- "$d"
