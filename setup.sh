#!/bin/bash
# Builds the analyser from the committed sources (offline; module cache only).
cd "$(dirname "$0")" || exit 1
. ./env.sh
build_checker
