#!/bin/bash
# tools/one.sh VARIANT:PROFILE:SEED [ev|cfg]  - run one seed with the current build
IFS=: read v p s <<<"$1"; shift
B=$(cd $(dirname $0)/.. && python3 -c "import build;print(build.build(['$v'])['$v'])")
exec $B run $p $s "$@"
