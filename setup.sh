#!/bin/bash
# builds the checker once (offline) so that a broken framework shows early and the build cache is warm
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/mc" && exec go build -o /dev/null ./cmd/mc
