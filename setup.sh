#!/bin/bash
# builds the harness from the working tree of /repo
set -e
cd "$(dirname "$0")"
. ./env.sh
(cd harness && cargo build --offline --quiet)
# only C18 needs it, which says so when it does not build
(cd binding && cargo build --offline --quiet) >/dev/null 2>&1 || true
