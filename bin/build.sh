#!/bin/sh
# builds the verifier from /verif/govc
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/bin/env.sh"
mkdir -p "$V/.build"
cd "$V/govc" && go build -o "$V/.build/govc.$$" . && mv "$V/.build/govc.$$" "$V/.build/govc"
