#!/bin/bash
# check.sh PROPERTY TIER : builds the verifier and decides one property on /repo's current tree
here=$(dirname "$(realpath "$0")")
. /opt/vp/env.sh
bin=$here/.cache/govc
"$here/build.sh" "$bin.$$" >&2 && mv -f "$bin.$$" "$bin" || { echo "cannot build govc"; exit 2; }
export GOVC_VERIF=$here
exec "$bin" check -prop "$1" -tier "${2:-quick}"
