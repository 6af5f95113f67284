#!/bin/sh
# contract debugging: proof only, without the discharged obligations
PYVC_TRACE=1 /verif/bin/check "$@" --no-native -v 2>&1 | cut -c1-${W:-700} | grep -v '^   ok\|^   *\^\|^    \|^$\|^  File "/verif/pyvc/[elr]' | head -${L:-60}
