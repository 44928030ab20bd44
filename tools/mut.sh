#!/bin/bash
# mut.sh CHECK[,CHECK] FILE 's/sed/expr/' : run checks against a scratch copy of /repo with one edit
set -u
D=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/. "$D/"
if [ "$2" = PATCH ]; then git -C "$D" apply "$3" || echo "PATCH FAILED"; else sed -i -E "$3" "$D/$2"; fi
git -C "$D" diff --stat | tail -1
for c in ${1//,/ }; do VERIF_REPO=$D timeout 900 "$(dirname "$0")/../check.sh" "$c" quick 2>&1 | tail -4 | cut -c1-600; done
case "$D" in /tmp/mut??????) rm -rf "$D";; esac
