#!/bin/sh
# Nothing needs building ahead of the checks (each builds what it needs from the working tree of the
# repository); this makes sure the toolchain is there and that the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "specifications parse"
