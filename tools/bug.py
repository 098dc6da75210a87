#!/usr/bin/env python3
"""bug.py ID SPEC.json|- : makes /verif/seeded/ID from a spec {property, needs, what_it_breaks, edits:[[file,old,new]], scenario}
and confirms it in scratch copies: builds, existing tests pass, demo passes unpatched and fails patched. bug.py ID only re-confirms.
bug.py --check ID [prop]: runs the property's check on a scratch copy with the patch."""
import json, os, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "/tmp/bug"
SRC = "programs/dynamic-bonding-curve/src/"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh(name):
    d = os.path.join(B, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(B, exist_ok=True)
    subprocess.check_call("git clone -q /repo " + d, shell=True)
    return d
def make(id, spec):
    d = os.path.join(H, "seeded", id)
    os.makedirs(d, exist_ok=True)
    r = fresh("mk")
    for f, old, new in spec["edits"]:
        p = os.path.join(r, f if f.startswith(("programs", "dynamic", "libs")) else SRC + f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output("git diff", shell=True, cwd=r, text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/scenario.rs", "w").write(spec["scenario"])
    shutil.copy(H + "/tools/demo-kit/demo.sh", d + "/demo.sh")
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
def mirror_tests(repo):
    m = B + "/mirror"
    if not os.path.exists(m):
        os.makedirs(m)
        sh("cp -a /opt/vp/mirror/target %s/target" % m)
        s = open("/opt/vp/lib/mirror.py").read().replace('"/repo", "/opt/vp/mirror/src"', '"%s", "%s/src"' % (B + "/repo", m))
        open(m + "/mirror.py", "w").write(s)
    return sh(". /opt/vp/lib/env.sh; export CARGO_TARGET_DIR=%s/target; mkdir -p %s/src; python3 %s/mirror.py && cd %s/src && cargo test --workspace --no-fail-fast --offline --lib --bins --tests -- --skip tests::test_migration_fee:: --skip tests::test_total_supply::" % (m, m, m, m))
def confirm(id):
    d = os.path.join(H, "seeded", id)
    sh("bash %s/tools/demo-kit/pack.sh" % H)
    r = fresh("repo")
    p = sh("bash %s/demo.sh" % d, env=dict(os.environ, DBC_REPO=r))
    ok = p.returncode == 0
    print(id, "unpatched demo", "ok" if ok else "FAILS\n" + report(p.stdout))
    if not ok:
        return False
    a = sh("git apply %s/patch.diff" % d, cwd=r)
    assert a.returncode == 0, a.stdout
    t = mirror_tests(r)
    print(id, "tests", "pass" if t.returncode == 0 else "FAIL " + "\n".join(x for x in t.stdout.split("\n") if re.search(r"^error|FAILED|panicked|-->", x))[:2000])
    p = sh("bash %s/demo.sh" % d, env=dict(os.environ, DBC_REPO=r))
    comp = "could not compile" in p.stdout
    print(id, "patched demo", "DOES NOT FAIL" if p.returncode == 0 else ("DOES NOT COMPILE" if comp else "fails, as it should: ") + report(p.stdout)[:500])
    return ok and t.returncode == 0 and p.returncode != 0 and not comp
def report(o):
    L = o.split("\n")
    i = next((k for k, x in enumerate(L) if re.match("error", x) or "panicked at" in x), 0)
    return "\n".join(L[i:i + 25])[:2500]
def check(id, prop=None, cases=None):
    d = os.path.join(H, "seeded", id)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    r = fresh("crepo")
    assert sh("git apply %s/patch.diff" % d, cwd=r).returncode == 0
    v = B + "/verif"
    os.makedirs(v, exist_ok=True)
    sh("rsync -a --delete --exclude .git --exclude build --exclude evidence --exclude replays --exclude seeded %s/ %s/" % (H, v)) if shutil.which("rsync") else sh("cd %s && tar cf - --exclude=.git --exclude=./build --exclude=./evidence --exclude=./replays --exclude=./seeded . | tar xf - -C %s" % (H, v))
    if not os.path.exists(v + "/build"):
        sh("cp -a %s/build %s/build" % (H, v))
    t = time.time()
    env = dict(os.environ, DBC_REPO=r)
    p = sh("./check.sh %s quick" % prop, cwd=v, env=env)
    out = [x for x in p.stdout.split("\n") if "VIOLATION" in x or "minimal" in x or "!!" in x or "error" in x]
    print(id, prop, "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode, "%.0f s" % (time.time() - t), "; ".join(out)[:500])
    rp = v + "/replays/%s.json" % prop
    if p.returncode == 1 and os.path.exists(rp):
        print("   ", json.load(open(rp)).get("message", "")[:400])
    return p.returncode == 1
if sys.argv[1] == "--check":
    check(*sys.argv[2:])
else:
    if len(sys.argv) > 2:
        make(sys.argv[1], json.load(open(sys.argv[2])) if sys.argv[2] != "-" else json.load(sys.stdin))
    confirm(sys.argv[1])
