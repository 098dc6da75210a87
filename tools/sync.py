#!/usr/bin/env python3
"""Copies /repo's current tree (what cargo needs of it) to /verif/build/src so that it builds offline.

Cargo cannot load /repo itself here: two git dependencies are missing. The copy is the working tree with one change:
the two dependency lines of the program's manifest point to the stand-ins in /verif/shims, and the lock file is left
out (the harness has its own). Files are written only when their content differs, so cargo rebuilds what changed.

sync.py --fallback: the two source files that /repo's own build never compiles are replaced by the versions of the
pinned commit (tools/pinned), for a tree in which they do not compile.
"""
import os, re, shutil, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DBC_REPO", "/repo")
DST = os.path.join(os.environ.get("DBC_BUILD", os.path.join(HERE, "build")), "src")
TOP = ["Cargo.toml", "programs", "dynamic-bonding-curve-sdk", "libs", "idls"]
SKIP = {".git", "target", "node_modules"}
PROG = "programs/dynamic-bonding-curve/"
UNCOMPILED = [
    PROG + "src/instructions/operator/ix_zap_protocol_fee.rs",
    PROG + "src/instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs",
]


def transform(rel, data):
    if rel == PROG + "Cargo.toml":
        t = data.decode()
        shims = os.path.join(HERE, "shims")
        for dep, d in (("protocol-zap", "protocol-zap"), ("unchecked_account", "unchecked_account")):
            t = re.sub(r"(?m)^%s\s*=.*git.*$" % re.escape(dep), '%s = { path = "%s/%s" }' % (dep, shims, d), t)
        return t.encode()
    return data


def main():
    fallback = "--fallback" in sys.argv
    files = {}
    for top in TOP:
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files[top] = p
            continue
        for d, dirs, names in os.walk(p):
            dirs[:] = [x for x in dirs if x not in SKIP]
            for n in names:
                f = os.path.join(d, n)
                if os.path.isfile(f):
                    files[os.path.relpath(f, REPO)] = f
    changed = []
    for rel, f in sorted(files.items()):
        if fallback and rel in UNCOMPILED:
            f = os.path.join(HERE, "tools", "pinned", os.path.basename(rel))
        with open(f, "rb") as h:
            data = transform(rel, h.read())
        dst = os.path.join(DST, rel)
        try:
            with open(dst, "rb") as h:
                if h.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as h:
            h.write(data)
        changed.append(rel)
    for d, dirs, names in os.walk(DST):
        dirs[:] = [x for x in dirs if x != "target"]
        for n in names:
            f = os.path.join(d, n)
            rel = os.path.relpath(f, DST)
            if rel not in files and rel != "Cargo.lock":
                os.unlink(f)
                changed.append(rel)
    # declare_program! reads the idls without telling cargo
    if any(c.startswith("idls/") for c in changed):
        now = time.time()
        for lib in ("damm-v2", "dynamic-amm", "locker"):
            f = os.path.join(DST, "libs", lib, "src", "lib.rs")
            if os.path.exists(f):
                os.utime(f, (now, now))
    if changed:
        print("sync: %d files" % len(changed), file=sys.stderr)


main()
