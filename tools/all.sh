#!/bin/bash
# runs every registered check (4 at a time) and prints the ones that are not quiet
cd "$(dirname "$0")/.."
ls checks/c[0-9]*.py | sed 's/.*\/c\(..\)\.py/C\1/' | xargs -P 4 -I{} sh -c 'timeout 900 python3-vt check.py {} > /tmp/all.{} 2>&1; rc=$?; [ $rc = 0 ] || { echo "{} rc $rc"; tail -3 /tmp/all.{}; }'
