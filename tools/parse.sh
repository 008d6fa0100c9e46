#!/bin/bash
# Parses every specification (a name defined twice shows only in the modules that extend both).
set -e
rm -rf /verif/work/parse
mkdir -p /verif/work/parse
find /verif/spec -name '*.tla' -exec cp {} /verif/work/parse \;
cd /verif/work/parse
bad=0
for f in *.tla; do
  java -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$f" >out.txt 2>&1 || { echo "$f"; grep -A5 -i "error" out.txt | head -12; bad=1; }
done
rm -rf /verif/work/parse
exit $bad
