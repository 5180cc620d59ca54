#!/bin/bash
# trace.sh MODULE RECORDS: checks records against a Trace module on a scratch copy of the specifications.
d=$(mktemp -d); cp /verif/spec/*.tla /verif/spec/*.cfg "$d"; r=$(realpath "$2"); cd "$d"
c=$1.cfg; [ -f $c ] || { c=run.cfg; printf 'INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n' > $c; }
time RECS=$r timeout ${T:-600} java -Xss64m -Xmx12g -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -nowarning -deadlock -workers ${W:-8} -config $c -metadir "$d/meta" $1 | grep -v 'Linting\|Semantic\|Parsing\|^$' | tail -${L:-25}
rm -r "$d"
