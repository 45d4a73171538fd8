#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tier=${2:-${VERIF_TIER:-quick}}
bin=/verif/bin/vcgen
if [ ! -x $bin ] || [ -n "$(find /verif/engine -newer $bin -name '*.go' -print -quit)" ]; then
  /verif/tools/build.sh || { echo "engine does not build"; exit 3; }
fi
exec $bin -prop "$1" -tier "$tier" -evidence /verif/evidence/"$1".json -harness /verif/harness
