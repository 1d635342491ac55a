#!/bin/sh
# check.sh <property> [quick|thorough]: decides one property against /repo's working tree.
exec /opt/venv/bin/python -S "$(dirname "$(readlink -f "$0")")/harness/main.py" "$@"
