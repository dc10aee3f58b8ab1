#!/bin/bash
# usage: check.sh <property id> [--quick|--thorough] [--replay FILE] [--only JOB]
# Rebuilds the checker of one property against /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: violation; 2: error of the check or the build.
set -u
id="${1:?property id}"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.check.lock
flock 9
stamp="$(sources_hash)"
if [ "$(cat target/.repo_stamp 2>/dev/null)" != "$stamp" ]; then
  # never trust file times for the code under test
  cargo clean --release --offline -p rustc_apfloat >/dev/null 2>&1
  rm -f target/.repo_stamp
fi
if ! cargo build --release --offline --locked --bin "$bin" >"target/build_$bin.log" 2>&1; then
  tail -n 40 "target/build_$bin.log" >&2
  echo "build of $bin failed" >&2
  exit 2
fi
echo "$stamp" >target/.repo_stamp
flock -u 9
exec "target/release/$bin" "$@"
