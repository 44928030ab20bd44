#!/bin/sh
# Builds what the checks need from /repo's current tree (every check does so again by itself when the tree differs).
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/boozenv/bin/python -B harness/build.py
