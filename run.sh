#!/bin/bash
# usage: run.sh PROPERTY   (tier and seed from VERIF_TIER and VERIF_SEED)
cd "$(dirname "$0")" || exit 2
. harness/env.sh
/opt/venv/bin/python harness/check.py "$@"
rc=$?
rm -rf "$VERIF_SCRATCH"
exit $rc
