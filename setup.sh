#!/bin/bash
# parses every specification; nothing needs to be built
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
D=$(mktemp -d) || exit 1
cd spec || exit 1
for f in *.tla; do
  java -Djava.io.tmpdir="$D" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$D/out" 2>&1 &
  P=$!
  wait $P || { cat "$D/out"; exit 1; }
done
/opt/venv/bin/python -c "import GPyOpt" >/dev/null 2>&1 || true
rm -rf "$D"
echo "specifications parse"
