#!/bin/bash
# Builds the harness once so that the first check finds a warm build cache.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
. "$here/tools/env.sh"
build
build_variants
