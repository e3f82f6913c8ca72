#!/usr/bin/env python3
"""Makes a *view* of /repo that can be compiled here.

`manul` (a git dependency) is not available offline, so cargo cannot resolve the
manifest of /repo.  A view is a directory whose src/ consists of symlinks into /repo/src
(nothing is copied, so it always shows the current working tree), with a generated
Cargo.toml / lib.rs / tools.rs.  Two kinds exist:

  core : the modules that need manul are cut out (as /opt/vp does for the test-suite);
  full : everything is compiled, against the stub `manul` crate in /verif/manul_stub.

Harness modules (living in /verif) are mounted into the crate by `#[path]`, so they reach
pub(crate) items and no hook in /repo is needed.
"""
import os
import re
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DROP_LIB = ["entities", "protocols", "tests"]
DROP_TOOLS = ["protocol_shortcuts", "sss", "protocol_shortcuts_dev"]
ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"


def rd(p):
    with open(os.path.join(REPO, p)) as f:
        return f.read()


def wr(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def drop(text, names):
    for n in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + n + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + n + r"::[^;]*;[^\n]*\n",
                      "", text, flags=re.M)
    return text


def make(out, kind="core", mounts=(), lib_edit=None, extra_deps="", extra_toml="", crate_name="synedrion", inject=None):
    """mounts: list of (module name, absolute path of the file, cfg or None); inject: {file under src/<dir>/: text appended}."""
    src = os.path.join(out, "src")
    os.makedirs(src, exist_ok=True)
    lib = rd("src/lib.rs")
    tools = rd("src/tools.rs")
    toml = rd("Cargo.toml")
    lock = rd("Cargo.lock")
    real = {"lib.rs", "tools.rs"}
    if kind == "core":
        lib = drop(lib, DROP_LIB)
        tools = drop(tools, DROP_TOOLS)
        real |= {"tests.rs", "tests", "protocols.rs", "protocols", "entities.rs", "entities"}
        toml = re.sub(r"^manul[ \t]*=.*\n", "", toml, flags=re.M)
    else:
        lib = drop(lib, ["tests"])
        tools = drop(tools, ["protocol_shortcuts_dev"])
        real |= {"tests.rs", "tests"}
        toml = re.sub(r"^manul[ \t]*=.*\n", 'manul = { path = "%s/manul_stub" }\n' % VERIF, toml, count=1, flags=re.M)
        toml = re.sub(r"^manul[ \t]*=[ \t]*\{[ \t]*git.*\n", "", toml, flags=re.M)
    toml = re.sub(r"^\[\[(?:bench|example|bin|test)\]\]\n(?:(?!\[)[^\n]*\n?)*", "", toml, flags=re.M)
    toml = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[)[^\n]*\n?)*", "", toml, flags=re.M)
    toml = toml.replace("[dependencies]\n", "[dependencies]\n" + extra_deps, 1)
    toml = re.sub(r'^readme = .*\n', "", toml, flags=re.M)
    toml = re.sub(r'^name = "synedrion"', 'name = "%s"' % crate_name, toml, count=1, flags=re.M)
    toml = re.sub(r'^(version = .*\n)', r'\1autobins = false\nautoexamples = false\nautobenches = false\nautotests = false\n',
                  toml, count=1, flags=re.M)
    toml += "\n[workspace]\n" + extra_toml
    blocks = re.split(r"\n(?=\[\[package\]\]\n)", lock)
    blocks = [b for b in blocks if 'name = "manul"' not in b]
    lock = "\n".join(blocks).replace(' "manul",\n', "")
    lock = lock.replace('name = "synedrion"', 'name = "%s"' % crate_name)

    # the README is included as documentation by lib.rs
    lib = re.sub(r"^#!\[doc[ \t]*=[ \t]*include_str!.*\n", "", lib, flags=re.M)
    lib = re.sub(r"^#!\[(?:deny|warn|forbid)\((?:[^\[\]]|\n)*?\)\]\n", "", lib, flags=re.M)
    lib = re.sub(r"^#!\[cfg_attr\(not\(test\), *warn\([^\n]*\n", "", lib, flags=re.M)
    lib = re.sub(r"^#!\[cfg_attr\([^\n]*no_std\)\]\n", "", lib, flags=re.M)
    lib = "#![allow(warnings)]\n" + lib
    if lib_edit:
        lib = lib_edit(lib)
    for name, path, cfg in mounts:
        lib += '\n%s#[path = "%s"]\npub mod %s;\n' % ("#[cfg(%s)]\n" % cfg if cfg else "", path, name)
    wr(os.path.join(src, "lib.rs"), lib)
    wr(os.path.join(src, "tools.rs"), tools)
    wr(os.path.join(out, "Cargo.toml"), toml)
    lp = os.path.join(out, "Cargo.lock")
    stamp = os.path.join(out, ".lock_src")
    if not os.path.exists(lp) or not os.path.exists(stamp) or open(stamp).read() != lock + toml:
        wr(lp, lock)
        wr(stamp, lock + toml)

    inject = inject or {}
    split = {os.path.dirname(x) for x in inject}
    want = {x for x in os.listdir(os.path.join(REPO, "src")) if x not in real and x not in split}
    for old in os.listdir(src):
        p = os.path.join(src, old)
        if os.path.islink(p) and old not in want:
            os.remove(p)
    link_all(src, os.path.join(REPO, "src"), want)
    for d in split:
        # a directory of links, with the injected files as generated copies
        q, r = os.path.join(src, d), os.path.join(REPO, "src", d)
        if os.path.islink(q):
            os.remove(q)
        os.makedirs(q, exist_ok=True)
        names = set(os.listdir(r))
        for old in os.listdir(q):
            if old not in names:
                os.remove(os.path.join(q, old))
        link_all(q, r, {x for x in names if os.path.join(d, x) not in inject})
    for f, text in inject.items():
        wr(os.path.join(src, f), rd(os.path.join("src", f)) + "\n" + text)
    return out


def link_all(src, repo, want):
    for name in want:
        p = os.path.join(src, name)
        t = os.path.join(repo, name)
        if os.path.islink(p) and os.readlink(p) == t:
            continue
        if os.path.lexists(p):
            os.remove(p) if not os.path.isdir(p) or os.path.islink(p) else shutil.rmtree(p)
        os.symlink(t, p)
