#!/bin/bash
# withseed.sh ID ARGS...: runs govc ARGS against a scratch copy of /repo with planted bug ID (or a diff file)
. <(grep '^export' /verif/check.sh)
tmp=$(mktemp -d /tmp/rs.XXXX); cp -a /repo $tmp/repo
f=/verif/seeded/$1/patch.diff; [ -f "$1" ] && f=$1; shift
git -C $tmp/repo apply $f || exit 9
/verif/.build/govc -repo $tmp/repo "$@"; rc=$?
rm -rf "$tmp"; exit $rc
