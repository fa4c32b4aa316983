#!/bin/bash
# try_patch.sh PATCH ID...   run checks against a scratch copy of /repo with PATCH applied (nothing is left in /repo)
set -u
patch=$(realpath "$1"); shift
here=$(dirname "$(dirname "$(realpath "$0")")")
d=/tmp/sa-try; mkdir -p "$d"
exec 9>"$d/lock"; flock 9
rm -rf /tmp/sa-try/repo; mkdir -p /tmp/sa-try/repo
git -C /repo archive HEAD | tar -x -C /tmp/sa-try/repo
if [ -s "$patch" ]; then (cd /tmp/sa-try/repo && git init -q . && git apply "$patch") || { echo "patch does not apply"; exit 3; }; fi
rm -rf /tmp/sa-try/repo/.git
for id in "$@"; do
  out=$(SA_REPO=/tmp/sa-try/repo SA_CACHE=/tmp/sa-try/cache python3 "$here/check.py" "$id" 2>&1); rc=$?
  echo "== $id rc=$rc"; [ $rc -ne 0 ] && echo "$out" | cut -c1-260 | head -${LINES_MAX:-14}
done
