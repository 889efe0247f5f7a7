#!/bin/bash
# run.sh <property> <package>: builds the check from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
set -u
id=$1 pkg=$2
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$here VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1} TZ=UTC
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOWORK=$here/mc/go.work MC_PROP=$id
unset GOROOT GOEXPERIMENT MONGO_USER MONGO_PASSWD
work=$(mktemp -d /tmp/mc.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$here/evidence"
limit=${MC_LIMIT_S:-840}
if [ "$VERIF_TIER" = thorough ]; then limit=${MC_LIMIT_S:-7200}; fi
overlay=()
if [ -x "$here/mc/$pkg/overlay.sh" ]; then
  "$here/mc/$pkg/overlay.sh" "$work" || { echo "instrumentation failed"; exit 3; }
  overlay=(-overlay "$work/overlay.json")
fi
cd "$here/mc/$pkg" || exit 3
go test -c "${overlay[@]}" -vet=off -o "$work/check" . || { echo "build failed"; exit 3; }
# how the stand-in for the network compares with the real one (goes into the evidence)
case $id in P12) part=TestGnet ;; P21) part=TestNet ;; *) part= ;; esac
if [ -n "$part" ] && (cd "$here/mc/conform" && go test -c -vet=off -o "$work/conform" .); then
  (cd "$work" && MC_CHILD= timeout -k 5 300 ./conform -test.run "^$part\$" >conform.out 2>&1)
  sed -n 's/^g*net \({.*}\)$/\1/p' "$work/conform.out" >"$work/conform.json"
  export MC_CONFORM=$work/conform.json
fi
mkdir -p "$work/cwd" && cd "$work/cwd" || exit 3
if [ -d "$here/mc/$pkg/cwd" ]; then cp -a "$here/mc/$pkg/cwd/." .; fi
timeout -k 10 "$limit" "$work/check" >"$work/out" 2>&1
rc=$?
grep -v -e '^PASS$' -e '^ok ' "$work/out" | tail -n 200
if [ $rc -ne 0 ] && grep -q "^VIOLATION property=$id " "$work/out"; then exit 1; fi
if [ $rc -eq 0 ]; then exit 0; fi
# the process died: a crash inside the code under test is a violation of its own
if grep -q -e '^panic: ' -e '^fatal error: ' -e '^SIGSEGV' "$work/out" && grep -q '^	/repo/' "$work/out"; then
  mkdir -p "$here/evidence/replay"
  tail -c 20000 "$work/out" > "$here/evidence/replay/$id.crash.txt"
  echo "VIOLATION property=$id replay=$here/evidence/replay/$id.crash.txt"
  exit 1
fi
echo "check ended with status $rc"
exit 4
