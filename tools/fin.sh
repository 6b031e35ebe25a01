#!/bin/bash
# fin.sh ID "msg" "known text"
cd /repo
if ! git diff --quiet; then /verif/tools/fixcommit.sh "$2" | tail -2; h=$(git log -1 --format=%h); echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt; fi
cd /verif; python3 tools/manifest.py; git add -A; git commit -qm "$1 driver"; git log -1 --oneline
