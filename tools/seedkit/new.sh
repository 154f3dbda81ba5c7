#!/bin/bash
# new.sh ID PROPERTY [bench]: from the edits in /tmp/sr (a scratch copy of /repo) writes the
# seed folder; demo.cpp (or demo.sh for bench) must be put there by hand before or after.
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/sr diff > $S/patch.diff
if [ "$3" != bench ]; then
  rm -rf $S/shim; cp -r /verif/shim $S/shim; cp /verif/tools/seedkit/lib.sh $S/
  [ -f $S/demo.sh ] || cp /verif/tools/seedkit/demo_core.sh $S/demo.sh
fi
chmod +x $S/demo.sh 2>/dev/null
echo "demo on patched:"; (cd /tmp/sr && $S/demo.sh; echo "exit $?")
git -C /tmp/sr checkout -q -- .
echo "demo on original:"; (cd /tmp/sr && $S/demo.sh; echo "exit $?")
