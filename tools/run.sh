#!/bin/bash
# run.sh ID...: run checks (quick) in parallel and print the first lines of their verdicts
cd "$(dirname "$0")/.."; . ./env.sh; build_checker || exit 2
for p in "$@"; do ( r=$(timeout 900 ./bin/checker -repo "${REPO:-/repo}" -verif "$PWD" -prop $p -tier "${TIER:-quick}" 2>&1); echo "$p: $(echo "$r" | grep -v '^    at\|^       ' | cut -c1-330 | tail -${N:-6})" ) & done; wait
