#!/usr/bin/env python3
"""Mutation sweep, a development aid (no check uses it).

mutate.py list OUT.jsonl                   writes one line per mutant of /repo's program and SDK sources
mutate.py run OUT.jsonl RES.jsonl W N      worker W of N: builds each mutant in a private copy of /verif and runs all checks
"""
import json, os, random, re, shutil, subprocess, sys, time
REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = subprocess.check_output(["git", "ls-files", "programs", "dynamic-bonding-curve-sdk"], cwd=REPO, text=True).split()
FILES = [f for f in FILES if f.endswith(".rs") and "/tests/" not in f and not f.endswith(("error.rs", "safe_math.rs", "/tests.rs"))
         and "/tests" not in f and "macros" not in f]

SWAPS = [
    (r"Rounding::Up", ["Rounding::Down"]), (r"Rounding::Down", ["Rounding::Up"]),
    (r"(?<=\s)<=(?=\s)", ["<"]), (r"(?<=\s)>=(?=\s)", [">"]), (r"(?<=\s)<(?=\s)", ["<="]), (r"(?<=\s)>(?=\s)", [">="]),
    (r"(?<=\s)==(?=\s)", ["!="]), (r"(?<=\s)!=(?=\s)", ["=="]),
    (r"\.safe_add\(", [".safe_sub("]), (r"\.safe_sub\(", [".safe_add("]), (r"\.safe_mul\(", [".safe_add("]),
    (r"(?<=\s)&&(?=\s)", ["||"]), (r"(?<=\s)\|\|(?=\s)", ["&&"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]),
    (r"\bpartner_", ["creator_"]), (r"\bcreator_", ["partner_"]),
    (r"\bbase_", ["quote_"]), (r"\bquote_", ["base_"]),
    (r"quote_fee\b", ["base_fee"]), (r"base_fee\b", ["quote_fee"]),
    (r"\b(?<!\.)(\d[\d_]*)(?![\d_.]*[a-z])\b", ["NUM"]),
    (r"saturating_sub", ["wrapping_sub"]),
    (r"div_ceil|checked_div_ceil", ["div"]),
]


def mutants(f, src):
    lines = src.split("\n")
    depth_test = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            depth_test = True
        if depth_test or s.startswith(("//", "use ", "#[msg", "pub mod", "mod ", "const_assert", "msg!", "#[derive", "#[error", "pub use")):
            continue
        code = l.split("//")[0]
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for rep in reps:
                    if rep == "NUM":
                        if s.startswith(("pub _padding", "pub padding", "const _")) or "[u8;" in code or "[u64;" in code or "padding" in code or "{" + m[0] + "}" in code:
                            continue
                        v = int(m[0].replace("_", ""))
                        rep2 = str(v + 1)
                        yield i, code[:m.start()] + rep2 + code[m.end():], "num"
                    else:
                        yield i, code[:m.start()] + rep + code[m.end():], pat
        # constraints
        if re.search(r"^(has_one|constraint|address|mut|seeds::program|token::|associated_token|signer)\b.*,?$", s) and not s.endswith("("):
            yield i, "", "drop constraint"
        # whole statements on one line
        if s.endswith(";") and not s.startswith(("let ", "pub ", "return", "const ", "}", "declare", "type", ")", "static")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            yield i, "", "drop statement"
    # multi-line statements: require!(...), foo(\n...)?;
    for m in re.finditer(r"(?m)^( *)(require!|require_eq!|require_keys_eq!|require_gt!|require_gte!|[a-z_:.]+)\($", src):
        if depth_test and m.start() > src.find("#[cfg(test)]"):
            continue
        ind = m[1]
        e = re.compile(r"(?m)^%s\)\??;$" % ind).search(src, m.end())
        if not e:
            continue
        body = src[m.start():e.end()]
        if "\n" + ind + "}" in body or len(body) > 900:
            continue
        a = src.count("\n", 0, m.start())
        b = src.count("\n", 0, e.end())
        yield (a, b), "", "drop " + m[2]


def listing(out):
    rng = random.Random(int(os.environ.get("MSEED", "7")))
    rows = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        seen = set()
        for pos, new, kind in mutants(f, src):
            key = (str(pos), new)
            if key in seen:
                continue
            seen.add(key)
            rows.append({"file": f, "pos": pos, "new": new, "kind": kind})
    rng.shuffle(rows)
    with open(out, "w") as h:
        for k, r in enumerate(rows):
            r["n"] = k
            h.write(json.dumps(r) + "\n")
    print(len(rows))


def apply(root, r):
    p = os.path.join(root, r["file"])
    lines = open(p).read().split("\n")
    if isinstance(r["pos"], list):
        a, b = r["pos"]
        r["old"] = "\n".join(lines[a:b + 1])
        for i in range(a, b + 1):
            lines[i] = ""
    else:
        r["old"] = lines[r["pos"]]
        lines[r["pos"]] = r["new"]
    open(p, "w").write("\n".join(lines))


def run(inp, out, w, n):
    rows = [json.loads(l) for l in open(inp)]
    done = set()
    for f in os.listdir(os.path.dirname(out)):
        if f.startswith("res"):
            done |= {json.loads(l)["n"] for l in open(os.path.join(os.path.dirname(out), f))}
    base = "/tmp/mut/w%d" % w
    repo, ver = base + "/repo", base + "/verif"
    if not os.path.exists(ver):
        os.makedirs(base, exist_ok=True)
        subprocess.check_call(["cp", "-a", VERIF, ver])
    env = dict(os.environ, DBC_REPO=repo, VERIF_SEED="5")
    cases = os.environ.get("MCASES", "1500")
    ids = subprocess.check_output([VERIF + "/build/target/debug/dbc-verif", "list"], text=True).split()
    ids = [i for i in ids if re.match(r"^[A-Z]\d+$", i)]
    stop = os.path.join("/tmp/mut", "stop")
    for r in rows:
        if r["n"] % n != w or r["n"] in done:
            continue
        if os.path.exists(stop):
            break
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git", "node_modules", "target"))
        apply(repo, r)
        t = time.time()
        e2 = dict(env, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=ver + "/build/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
        subprocess.run(["python3", ver + "/tools/sync.py"], env=e2, stderr=subprocess.DEVNULL)
        b = subprocess.run(["cargo", "build", "--offline"], cwd=ver + "/harness", env=e2, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        r["build_s"] = round(time.time() - t, 1)
        if b.returncode:
            r["result"] = "nobuild"
        else:
            r["caught"], r["error"] = [], []
            binp = ver + "/build/target/debug/dbc-verif"
            random.Random(r["n"]).shuffle(ids)
            for i in ids:
                tmp = "/tmp/mut/t%d" % w
                try:
                    p = subprocess.run([binp, "run", i, "--seed", "5", "--cases", cases, "--shards", os.environ.get("MSHARDS", "3"), "--evidence", tmp + "-ev.json",
                                        "--replay-out", tmp + "-rp.json", "--tmp", tmp], env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                    if p.returncode == 1:
                        r["caught"].append(i)
                        if os.environ.get("MFIRST"):
                            break
                    elif p.returncode:
                        r["error"].append(i)
                except subprocess.TimeoutExpired:
                    r["error"].append(i + " timeout")
            r["result"] = "caught" if r["caught"] else "SURVIVED"
        r["s"] = round(time.time() - t, 1)
        with open(out, "a") as h:
            h.write(json.dumps(r) + "\n")


if sys.argv[1] == "list":
    listing(sys.argv[2])
else:
    run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
