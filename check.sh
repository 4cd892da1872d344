#!/bin/bash
# usage: check.sh PROPERTY TIER     (run in /verif; see MANIFEST.json)
# Rebuilds pyuvdata's extensions from /repo's working tree, then decides the
# property.  Exit 0: held; 1 + VIOLATION line: broken; anything else: machinery error.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
log=$(mktemp) || exit 3
if ! bash /opt/vp/build.sh --extensions >"$log" 2>&1; then
  echo "check.sh: the extensions do not build" >&2; tail -20 "$log" >&2; rm -f "$log"; exit 3
fi
rm -f "$log"
work=$(mktemp -d /tmp/vfwork.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME=$work/cache VF_WORK=$work PYTHONPATH=$here/lib:$here/drivers
mkdir -p "$XDG_CACHE_HOME/astropy"
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
cd "$work" || exit 3
"$PY" -W ignore -m vf.main "$1" "$VERIF_TIER"
