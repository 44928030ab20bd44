#!/bin/bash
# check.sh ID [tier]  -- decides one property (see DESIGN.md)
# check.sh --replay FILE
exec /opt/boozenv/bin/python -B "$(dirname "$(readlink -f "$0")")/harness/run_check.py" "$@"
