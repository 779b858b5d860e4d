#!/bin/bash
# check.sh PROP [--tier quick|thorough] [more vmc options]: build from /repo and decide one property
# check.sh replay FILE: re-run a reported execution and print it step by step
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/vmc.XXXXXX)
trap 'kill $rb 2>/dev/null; rm -rf "$w"' EXIT
. /opt/vp/env.sh >/dev/null 2>&1 || true
if ! "$here/build.sh" "$w" plain > "$w/build.log" 2>&1; then
  cat "$w/build.log"; echo "build failed"; exit 3
fi
mkdir -p "$w/cwd" /verif/evidence
cd "$w/cwd"
if [ "$1" = replay ]; then
  b=vmc
  if grep -q '"Race": true' "$2"; then "$here/build.sh" "$w" race || exit 3; b=vmc-race; fi
  "$w/$b" replay "$2"
  exit $?
fi
( "$here/build.sh" "$w" race > "$w/race.log" 2>&1 && touch "$w/vmc-race.ok" || touch "$w/vmc-race.fail" ) &
rb=$!
"$w/vmc" check "$@" --race "$w/vmc-race" --scratch "$w" --out "${VERIF_OUT:-$here/../evidence}" --known "$here/../known_findings.json"
rc=$?
if [ $rc != 0 ] && [ $rc != 1 ] && [ "$1" = C26 ]; then
  # the program's own package initialisation may be what fails: no configuration file, empty directory
  mkdir -p "$w/fresh"
  if ! (cd "$w/fresh" && timeout 60 "$w/vmc" list C26 > "$w/start.log" 2>&1) && grep -q '^panic: ' "$w/start.log" && grep -q 'P2Pcrawler/config\.' "$w/start.log"; then
    r="${VERIF_OUT:-$here/../evidence}/replays"
    mkdir -p "$r"
    head -c 4000 "$w/start.log" > "$r/C26-start.txt"
    echo "VIOLATION property=C26 replay=$r/C26-start.txt"
    echo "  the program fails to start in an empty directory:"; head -20 "$w/start.log"
    rc=1
  fi
fi
[ -f "$w/vmc-race.fail" ] && cat "$w/race.log"
exit $rc
