#!/usr/bin/env python3
"""mkseed.py <defs.py>: writes /verif/seeded/<id>/ from definitions and confirms them.

A definitions file has SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<rust>)].
Confirmation: the patch applies, builds, keeps the stable tests, and the demo tells the trees apart."""
import json, os, shutil, subprocess, sys
V = "/verif"; R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is intact; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
cat > "$tmp/mk.py" <<EOF
import sys
sys.path.insert(0, "$here")
import view
open("$tmp/main.rs", "w").write("fn main() { synedrion::demo::run() }\\n")
view.make("$tmp/v", extra_deps='serde_json = "1"\\n', mounts=[("demo", "$here/demo.rs", None)],
          extra_toml='\\n[[bin]]\\nname = "demo"\\npath = "$tmp/main.rs"\\n[profile.dev]\\nopt-level = 1\\ndebug = 0\\n')
EOF
python3 "$tmp/mk.py" || exit 99
cd "$tmp/v" && cargo run -q --offline --features dev,bip32 --bin demo
"""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    head = sh("git -C /repo stash list; git -C /repo status --porcelain --untracked-files=no").stdout
    assert not head.strip(), head
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                n = 1
                if old.startswith("@all:"):
                    old = old[5:]; n = t.count(old)
                assert t.count(old) == n > 0, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        finally:
            sh("git -C /repo checkout -- .")
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        shutil.copy(os.path.join(V, "lib", "view.py"), os.path.join(d, "view.py"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        clean = sh("bash %s/demo.sh" % d, cwd=R)
        try:
            a = sh("git -C /repo apply %s/patch.diff" % d)
            b = sh("bash /opt/vp/build.sh")
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            try:
                o = json.load(open("/tmp/seed_out.json"))
                tests = "%d passed, %s failed" % (len(o["passed"]), o["failed"])
            except Exception as e:
                tests = "no tests: %s" % e
            bad = sh("bash %s/demo.sh" % d, cwd=R)
        finally:
            sh("git -C /repo checkout -- .")
        print("%s: apply %d build %d tests [%s] demo clean=%d patched=%d" %
              (s["id"], a.returncode, b.returncode, tests, clean.returncode, bad.returncode), flush=True)
        if clean.returncode or b.returncode:
            print(clean.stdout[-1500:], b.stdout[-1500:])
        print("   ", bad.stdout[-200:].replace("\n", " | "), flush=True)


main()
