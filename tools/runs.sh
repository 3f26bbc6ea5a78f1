#!/bin/bash
# runs.sh VARIANT TIME entry... : build and run several entries
set -o pipefail; V=$1; T=$2; shift 2
/verif/build.sh $V 2>&1 | tail -30 || exit 1
for e in "$@"; do echo == $e; ( time /verif/run.sh $V entry_$e --jobs 8 --time $T $ARGS ) 2>&1 | grep -av '^user\|^sys\|^$' | cut -c1-${CUT:-700}; done
