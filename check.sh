#!/bin/bash
# check.sh PROPERTY quick|thorough|replay [FILE|extra flags]: builds the harness of the
# property against /repo's working tree and runs it.
id="$1"; tier="${2:-quick}"; shift 2
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root" HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOFLAGS="-mod=mod"
case "$id" in
  B*) pkg=bidi;;
  F*) pkg=fc;;
  P*) pkg=pg;;
  *) echo "unknown property $id" >&2; exit 2;;
esac
race=""; if [ "$id" = F15 ] || [ "$id" = P24 ]; then race="-race"; export GORACE="halt_on_error=1 exitcode=66"; fi
bin="$(mktemp -d /tmp/verif-bin-XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
( cd "$root/h" && go build $race -o "$bin/$pkg" ./$pkg ) || { echo "build failed" >&2; exit 3; }
case "$tier" in
  replay) f="$1"; shift; "$bin/$pkg" -prop "$id" -replay "$f" "$@";;
  *) "$bin/$pkg" -prop "$id" -tier "$tier" "$@";;
esac
exit $?
