#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin"
cd "$here/analyzer"
GOFLAGS=-mod=vendor go build -o "$here/bin/analyzer.tmp.$$" .
mv -f "$here/bin/analyzer.tmp.$$" "$here/bin/analyzer"
