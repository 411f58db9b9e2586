#!/bin/bash
# run.sh PROPERTY: rebuild the checker against /repo's working tree and run the check (tier from VERIF_TIER).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
tmp="$(mktemp -d /tmp/mcrun.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 2
if ! go build -o "$tmp/mc" ./cmd/mc >"$tmp/build.log" 2>&1; then
  head -c 4000 "$tmp/build.log" >&2
  exit 2
fi
export MC_ROOT="$here" TMPDIR="$tmp"
if [ "$1" = replay ]; then "$tmp/mc" replay "$2"; exit $?; fi
"$tmp/mc" check "$1"
