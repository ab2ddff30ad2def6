#!/bin/bash
# mini.sh P01 scenario runseed-independent: finds first violation in a scenario [class filter via --known], minimises and shows it
P=$1; SC=$2; SEED=${3:-1}; shift; shift; shift
D=/tmp/mini; mkdir -p $D; rm -f $D/*
${VERIF_BUILD:-${VERIF_BUILD:-$(dirname "$0")/../build}}/sim_$P explore --prop $P --seed $SEED --seconds 60 --dir $D --out $D/o.json --replay $D/r.txt --scenario $SC --minimise 20 "$@"
echo exit $?
grep -v '^# *$' $D/r.txt | cut -c1-400
${VERIF_BUILD:-${VERIF_BUILD:-$(dirname "$0")/../build}}/sim_$P replay --file $D/r.txt --log $D/log | cut -c1-600
