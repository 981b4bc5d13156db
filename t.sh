#!/bin/bash
# dev helper: t.sh one|conform ARGS  (concise output)
. /opt/vp/env.sh
cd /verif
m=$1; shift
if [ $m = one ]; then timeout ${T:-600} .cache/govc one "$@" 2>&1 | grep -v '^OK' | cut -c1-${W:-260} | head -${H:-40}
else timeout ${T:-600} .cache/govc conform "$@" 2>&1 | grep -v '^agree.*tried [1-9][0-9]* *$' | cut -c1-${W:-400} | head -${H:-40}; fi
