#!/bin/bash
# Checks that the harness builds offline from the committed files; every check
# builds it again against /repo's current tree.
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
cd "$(dirname "$0")/harness" || exit 1
go build -o /dev/null . && python3 -c 'import json; json.load(open("../MANIFEST.json"))'
