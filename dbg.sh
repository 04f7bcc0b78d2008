#!/bin/bash
# debug: run one replay file under gdb
f=$1; p=$(awk '/^property/{print $2}' $f); v=$(awk '/^variant/{print $2}' $f)
e=$(ls -t build/$p-$v-* | head -1)
mkdir -p /tmp/dbg
gdb -batch -ex "set follow-fork-mode child" -ex run -ex bt --args $e --replay $f --scratch /tmp/dbg --variant $v 2>&1 | tail -${2:-25}
