#!/bin/bash
# seedall.sh ID [regex] [secs]: build with the planted bug and run the configurations, every failed label counted
git -C /repo apply /verif/seeded/$1/patch.diff || exit 1
bash /verif/mc/build.sh /tmp/bb small big scale huge many > /dev/null; git -C /repo checkout -- .
B=/tmp/bb python3 /verif/tools/runall.py "${2:-.*}" ${3:-10} | grep CUT
