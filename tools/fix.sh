#!/bin/bash
# fix.sh PROPS MSG
cd ${VERIF_REPO:-/repo} && git commit -qam "fix: $2" && h=$(git rev-parse --short HEAD) && for p in $1; do echo "fixed: property=$p $h $2" >> /verif/known_findings.jsonl; done; echo $h
