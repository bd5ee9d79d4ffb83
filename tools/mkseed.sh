#!/bin/bash
# tools/mkseed.sh ID PROPERTY SCRATCH_REPO : take the diff of a scratch copy as a planted bug (demo.sh and meta.json are written by hand)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C $3 diff > $d/patch.diff
git -C /repo apply --check $d/patch.diff && echo applies
