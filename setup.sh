#!/bin/bash
# Warms the build cache (every check builds what it needs from /repo's working tree by itself).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=$here/mc/go.work
cd "$here/mc" && go vet ./lib >/dev/null 2>&1
mkdir -p "$here/evidence"
exit 0
