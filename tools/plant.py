#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a bug description in tools/bugs/<id>.py and (unless --no-check) validates it.
A description sets: prop, crate ('base' or 'full'), edits [(file, old, new)...], needs, breaks, demo (Rust main.rs),
optionally modules (base: list of (module path, file)) and shell (extra lines before running the demo binary)."""
import os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def git(*a, **k):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True, check=True, **k).stdout

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -a "$here/demo" "$t/demo"
cd "$t/demo" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$t/target"
cargo build --offline --locked -q || exit 3
mkdir "$t/work" && cd "$t/work" || exit 2
%s"$t/target/debug/demo"
'''

def write(id):
    g = {}
    exec(open(f"{here}/tools/bugs/{id}.py").read(), g)
    assert not git("status", "--short").strip(), "/repo is not clean"
    for f, old, new in g["edits"]:
        s = open(f"{REPO}/{f}").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f"{REPO}/{f}", "w").write(s.replace(old, new))
    diff = git("diff")
    git("checkout", "--", ".")
    d = f"{here}/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/demo/src")
    open(f"{d}/patch.diff", "w").write(diff)
    import json
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    crate = g["crate"]
    cargo = open(f"{here}/tools/demo/{crate}.toml").read()
    open(f"{d}/demo/Cargo.toml", "w").write(cargo)
    shutil.copy(f"{here}/tools/demo/{crate}.lock", f"{d}/demo/Cargo.lock")
    main = g["demo"]
    if crate == "base":
        mods = {}
        for f in sorted({f for f, _, _ in g["edits"]} | set(g.get("modules", []))):
            parts = f[len("src/"):-3].split("/")
            mods.setdefault(tuple(parts[:-1]), []).append((parts[-1], f))
        pre = ""
        for path, items in mods.items():
            body = "".join(f'#[path="/repo/{f}"] pub mod {n};\n' for n, f in items)
            for p in reversed(path):
                body = f"pub mod {p} {{\n{body}}}\n"
            pre += body
        main = "#![allow(dead_code)]\n" + pre + main
    else:
        shutil.copytree(f"{here}/stubs", f"{d}/demo/stubs")
    open(f"{d}/demo/src/main.rs", "w").write(main)
    open(f"{d}/demo.sh", "w").write(DEMO_SH % g.get("shell", ""))
    os.chmod(f"{d}/demo.sh", 0o755)
    return g

def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def apply(id, reverse=False):
    if reverse:
        git("checkout", "--", ".")
    else:
        git("apply", f"{here}/seeded/{id}/patch.diff")

def ours(id):
    """removed lines that a commit of ours wrote"""
    bad = []
    base = git("rev-list", "--max-parents=0", "HEAD").strip()
    f = n = None
    for l in open(f"{here}/seeded/{id}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if not git("blame", "-l", "--root", f"-L{n},{n}", "HEAD", "--", f).lstrip("^").startswith(base[:39]):
                bad.append((f, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad

def validate(id, g):
    if ours(id):
        print(f"{id}: changes lines of ours: {ours(id)}")
    demo = f"{here}/seeded/{id}/demo.sh"
    a = run(["bash", demo], cwd=REPO)
    apply(id)
    try:
        b = run(["bash", "/opt/vp/build.sh"])
        t = run(["bash", "/opt/vp/test.sh", "/tmp/plant.test.json"])
        c = run(["bash", demo], cwd=REPO)
    finally:
        apply(id, True)
    ok = a.returncode == 0 and b.returncode == 0 and t.returncode == 0 and c.returncode not in (0, 2, 3)
    print(f"{id}: clean={a.returncode} build={b.returncode} tests={t.returncode} patched={c.returncode} {'OK' if ok else 'BAD'}")
    if not ok:
        for r in (a, c):
            print((r.stdout + r.stderr)[:900])
    else:
        m = re.search(r"panicked at.*\n.*\n.*\n.*", c.stdout + c.stderr)
        print("   ", (m.group(0) if m else (c.stdout + c.stderr)[-200:]).replace("\n", "\n    "))
    return ok

def check(id, g, seeds=(1,)):
    props = g.get("also", []) + [g["prop"]]
    apply(id)
    try:
        for p in props:
            crate = "base" if p in "P17 P18 P19 P20 P21 P28 P29 P30".split() else "full"
            for s in seeds:
                r = run(["bash", f"{here}/run.sh", crate, "run", p], cwd=here, env=dict(os.environ, VERIF_SEED=str(s), VERIF_TIER="quick"))
                print(f"    {p} seed {s}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'}: {(r.stdout + r.stderr).strip()[:400]}")
    finally:
        apply(id, True)

if __name__ == "__main__":
    args = sys.argv[1:]
    for id in [a for a in args if not a.startswith("-")]:
        g = write(id) if "--keep" not in args else (lambda g: (exec(open(f"{here}/tools/bugs/{id}.py").read(), g), g)[1])({})
        if "--no-demo" not in args:
            validate(id, g)
        if "--no-check" not in args:
            check(id, g, (1, 2) if "--seeds" in args else (1,))
