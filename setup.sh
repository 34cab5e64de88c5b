#!/bin/sh
# nothing to install: checks build the driver from /repo themselves; this verifies the tools and one build
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
T=$(mktemp -d /tmp/vsetup.XXXXXX)
./build.sh "$T/b" ompi4
test -x "$T/b/run"
rm -rf "$T"
mkdir -p evidence out
