#!/bin/bash
# Exit 0 if the behaviour in scenario.rs holds on /repo's working tree. Everything happens in a scratch directory.
set -eu
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")"
trap 'rm -rf "$S"' EXIT
tar -C "$S" -xzf "$D/kit.tgz"
bash "$S/kit/run.sh" "$D/scenario.rs" "$S"
