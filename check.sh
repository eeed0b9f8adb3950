#!/bin/bash
# check.sh <property> <tier>: builds the verifier if needed and checks one property against /repo's current tree.
. /opt/vp/env.sh
cd /verif || exit 1
bash /verif/setup.sh >/dev/null 2>&1
exec /verif/build/gvc check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
