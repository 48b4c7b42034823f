#!/bin/bash
# dev helper: record new fix commits under property $1
cd "$(dirname "$0")"
git -C /repo log --reverse --format='%h %s' fe181fe..HEAD | grep ' fix: ' | while read h f rest; do grep -q "$h" known_findings.txt || echo "fixed: property=$1 $h $rest"; done > /tmp/new_fixed.txt
cat /tmp/new_fixed.txt >> known_findings.txt
