#!/bin/bash
# Builds all checkers once.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/harness"
mkdir -p target
cargo build --release --offline --locked --bins
sources_hash >target/.repo_stamp
