#!/bin/bash
# tlc.sh MODULE CFG: runs TLC on a scratch copy of the specifications.
d=$(mktemp -d); cp /verif/spec/*.tla /verif/spec/*.cfg "$d"; cd "$d"
time timeout ${T:-600} java -Xss64m -Xmx12g -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -nowarning -deadlock -workers ${W:-8} -config "$2" -metadir "$d/meta" "$1" | tail -${L:-25}
rm -r "$d"
