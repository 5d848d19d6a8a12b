#!/bin/bash
# check.sh <property> <quick|thorough>: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_checker || exit 2
exec ./bin/checker -repo "${REPO:-/repo}" -verif "$PWD" -prop "$1" -tier "${2:-quick}"
