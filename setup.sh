#!/bin/bash
# Builds every harness once (warms the build cache); the checks rebuild on their own.
root="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cd "$root/h" && for p in bidi fc pg; do [ -d $p ] && { go build -o /dev/null ./$p || exit 1; }; done
exit 0
