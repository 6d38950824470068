#!/bin/bash
# tools/soak.sh SEED ID... : long harness runs with another seed (looks for false alarms)
cd "$(dirname "$0")/.."
S=$1; shift
for i in "$@"; do VERIF_SEED=$S VERIF_TIER=thorough nice -n 19 bash run.sh $i --only harness; done
