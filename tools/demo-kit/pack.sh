#!/bin/bash
# pack.sh: writes kit.tgz (the simulated runtime, for demonstrations) into every /verif/seeded/*/
set -eu
H="$(cd "$(dirname "${BASH_SOURCE[0]}")/../.." && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/kit/sim"
for m in abi abuse case foreign gen hist mig mocks refmath refmodel sim tape vary world; do cp "$H/harness/src/$m.rs" "$T/kit/sim/"; done
cp "$H"/tools/demo-kit/{help,released}.rs "$T/kit/sim/"; cp -r "$H/shims" "$T/kit/shims"; find "$T/kit" -name target -prune -exec rm -rf {} +
cp "$H/tools/demo-kit/run.sh" "$T/kit/"
tar --sort=name --mtime=@0 --owner=0 --group=0 -C "$T" -cf - kit | gzip -n9 > "$T/kit.tgz"
for d in "$H"/seeded/*/; do [ -f "$d/scenario.rs" ] && cp "$T/kit.tgz" "$d/kit.tgz"; done
ls -la "$T/kit.tgz"
