#!/bin/bash
# Nothing is kept between runs: every check builds the harness from /repo.
# This only makes sure that the tools are there and work.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
cp -r harness "$t/src"
(cd "$t/src" && go build -o "$t/h" .)
cd spec
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Trace.tla > "$t/sany" || { cat "$t/sany"; exit 1; }
