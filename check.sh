#!/bin/bash
# check.sh PROPERTY : the check of one property against /repo's working tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -m harness.check "$@"
