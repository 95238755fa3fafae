#!/bin/bash
# fix.sh PROPERTY "commit msg" "what failed"
set -e
cd /repo && gofmt -l $(git diff --name-only) ; export GOTOOLCHAIN=local; go build ./...
git commit -qam "fix: $2"
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
echo $h
