#!/bin/bash
# mkseed.sh ID PROPERTY: makes seeded/ID from the edits present in /tmp/seedrepo (then reverts them)
d=/verif/seeded/$1; mkdir -p $d
[ "$1" ] && git -C /tmp/seedrepo diff > $d/patch.diff && git -C /tmp/seedrepo checkout -q -- .
cp /verif/tools/demo/demo.sh /verif/tools/demo/demo.h $d/
wc -l $d/patch.diff
