#!/bin/bash
# check.sh <PROPERTY-ID> [--replay FILE] : decides one property against /repo's working tree.
# Fresh scratch dir per run; nothing is written to /repo.  Exit 0 held, 1 violation, 3 harness error.
HERE=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset NXT_FILE_ROOTS NXT_SITE_DIR NXT_VERBOSE NXT_DCC
# a git repository's state must not matter, only the working tree's files
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_HOME=$HERE
SCRATCH=$(mktemp -d /tmp/nxtverif.XXXXXXXX) || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH=$SCRATCH NXT_USER_DIR=$SCRATCH/user TMPDIR=$SCRATCH/tmp HOME=$SCRATCH/home
export PYTHONPYCACHEPREFIX=$SCRATCH/pyc PYTHONPATH=$VERIF_REPO:$HERE
mkdir -p "$NXT_USER_DIR" "$TMPDIR" "$HOME" "$SCRATCH/work"
cd "$SCRATCH/work" || exit 3
/opt/venv/bin/python -W ignore -m pbt.main "$@" < /dev/null
rc=$?
exit $rc
