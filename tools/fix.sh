#!/bin/bash
# fix.sh PROP "commit message (without fix:)" "what failed"  - commits /repo's working tree as one fix and records it
set -e
git -C /repo commit -qam "fix: $2"
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $3" >> /verif/known-findings.txt
git -C /repo log --oneline | head -1
