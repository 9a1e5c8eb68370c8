#!/bin/bash
# check.sh ID [quick|thorough] [--part NAME | --replay FILE]
# Compiles /repo's working tree and the harness, and runs the checks of one property.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VP_REPO:-/repo}
B=$V/build/$ID.$$
trap 'rm -rf "$B"' EXIT
mkdir -p "$B/core" "$B/main" "$B/props"
LOG4J=$(ls /root/.m2/repository/org/apache/logging/log4j/log4j-api/*/log4j-api-*.jar 2>/dev/null | grep -v sources | sort | tail -1)
ASM=$(ls /opt/veriftools/java/bytecode/asm-[0-9]*.jar | head -1)
[ -f "$LOG4J" ] && [ -f "$ASM" ] || { echo "missing libraries" >&2; exit 2; }
J=(-XDsuppressNotes -nowarn -proc:none -encoding UTF-8 -Xlint:none)
javac "${J[@]}" -cp "$LOG4J" -d "$B/main" $(find "$REPO/src/main/java" -name '*.java') >"$B/log" 2>&1 &
P1=$!
javac "${J[@]}" -cp "$LOG4J:$ASM" -d "$B/core" "$V"/harness/core/vp/core/*.java || exit 2
wait $P1 || { cat "$B/log" >&2; echo "the code under test does not compile" >&2; exit 2; }
javac "${J[@]}" -cp "$LOG4J:$B/core:$B/main" -d "$B/props" "$V"/harness/props/vp/props/*.java || exit 2
java -Xmx3g -Xss4m -XX:+UseParallelGC -XX:TieredStopAtLevel=${VP_TIER:-4} -Dlog4j2.loggerContextFactory=vp.core.CapLog \
  -cp "$B/core:$LOG4J:$ASM" vp.core.Engine "$V" "$B" "$ID" "$TIER" "$@"
exit $?
