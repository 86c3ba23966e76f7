#!/bin/bash
# check.sh PROPERTY...: build the analyser if needed and decide the properties on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/bin/gosbcheck
build() {
  cd "$here/analyzer" || return 1
  . ./env.sh
  mkdir -p "$here/bin"
  go build -o "$bin.$$" . && mv "$bin.$$" "$bin"
}
# the binary is rebuilt by go whenever the analyser's sources changed
if ! out=$( (build) 2>&1 ); then
  echo "the analyser does not build: $out"
  exit 3
fi
[ "$1" = -build ] && exit 0
. "$here/analyzer/env.sh"
cd "$here" && exec "$bin" -root="$here" "$@"
