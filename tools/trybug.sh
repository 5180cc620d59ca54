#!/bin/bash
# trybug.sh ID [PROP...]: tries the planted bug seeded/ID in a scratch copy of /repo:
# applies, builds, passes the tests, demo fails with it and passes without; then runs the checks.
set -u
id=$1; shift
d=/verif/seeded/$id; [ -d "$d" ] || d=${SEEDS:-/tmp/seeded2}/$id
w=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
cd "$w/repo" || exit 9
. /opt/vp/env.sh
fail() { echo "$id: $*"; exit 3; }
if [ -z "${NODEMO:-}" ]; then (timeout 300 bash "$d/demo.sh" >"$w/demo0" 2>&1) || { tail -5 "$w/demo0"; fail "demo fails on the unchanged tree"; }; fi
git apply "$d/patch.diff" || fail "does not apply"
go build ./... || fail "does not build"
(cd cli && go build ./...) || fail "cli does not build"
(go test ./... >"$w/t" 2>&1) || { grep -v '^ok\|no test files' "$w/t" | head -20; fail "tests fail"; }
if [ -z "${NODEMO:-}" ]; then (timeout 300 bash "$d/demo.sh" >"$w/demo1" 2>&1) && fail "demo passes with the patch"; fi
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $props; do
  GOTEXT_REPO=$w/repo EVIDENCE=$w/evidence python3 /verif/bin/check.py "$p" >"$w/out" 2>&1; rc=$?
  echo "$id: $p exit $rc $([ $rc = 1 ] && echo CAUGHT || echo MISSED)"
  [ -n "${V:-}" ] && tail -${V} "$w/out"
done
