"""Engine K: runs Kani harnesses (in /verif/kani) compiled into a view of /repo's current tree."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import view  # noqa: E402

VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")


class CheckError(Exception):
    """The check could not decide (not a violation)."""


def env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    if extra:
        e.update(extra)
    return e


FEATURES = "dev,bip32"


def prepare():
    out = os.path.join(BUILD, "kview")
    view.make(out, mounts=[("verif_kani", os.path.join(VERIF, "kani", "mod_.rs"), "kani")])
    return out


def kani(out, harnesses, jobs, timeout, extra, export, wall, exact=True):
    cmd = ["cargo", "kani", "--features", FEATURES, "--target-dir", os.path.join(BUILD, "kani_target"),
           "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", "%ds" % timeout]
    for h in harnesses:
        cmd += ["--harness", h]
    if exact:
        cmd += ["--exact"]
    cmd += extra
    if export:
        cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", export]
    try:
        p = subprocess.run(cmd, cwd=out, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=wall)
    except subprocess.TimeoutExpired as e:
        raise CheckError("kani exceeded %d s: %s" % (wall, (e.stdout or b"")[-2000:]))
    return p.returncode, p.stdout


def harness_names(prop, tier, only=None):
    """Harnesses of one property, from the sources: fn cNN_name(); *_deep only in the thorough tier."""
    pre = prop.lower() + "_"
    names = []
    d = os.path.join(VERIF, "kani")
    for f in sorted(os.listdir(d)):
        mod = f[:-3]
        for m in re.finditer(r"^fn (%s\w+)\(\)" % pre, open(os.path.join(d, f)).read(), re.M):
            n = m.group(1)
            if n.endswith("_deep") and tier != "thorough":
                continue
            if only and not re.search(only, n):
                continue
            names.append("verif_kani::%s::%s" % (mod, n))
    return names


def playback_values(text):
    m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S)
    if not m:
        return None
    vals = []
    for v in re.finditer(r"^\s*vec!\[([0-9, ]*)\]", m.group(1), re.M):
        vals.append([int(x) for x in v.group(1).split(",") if x.strip()])
    return vals


def replay(harness, vals, release=False):
    """Runs the harness natively on the counterexample.  Returns (reproduced, output)."""
    out = os.path.join(BUILD, "kreplay")
    binsrc = os.path.join(BUILD, "kreplay_main.rs")
    os.makedirs(BUILD, exist_ok=True)
    view.wr(binsrc, "fn main() { synedrion::verif_kani::replay_main() }\n")
    view.make(out, mounts=[("verif_kani", os.path.join(VERIF, "kani", "mod_.rs"), None)],
              extra_toml='\n[[bin]]\nname = "kreplay"\npath = "%s"\n' % binsrc)
    name = harness.split("::")[-1]
    arg = ";".join(",".join(str(b) for b in v) for v in vals)
    cmd = ["cargo", "run", "-q", "--offline", "--features", FEATURES, "--bin", "kreplay"]
    if release:
        cmd.append("--release")
    cmd += ["--", name, arg]
    p = subprocess.run(cmd, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500,
                       env=env({"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
                                "CARGO_TARGET_DIR": os.path.join(BUILD, "kreplay_target")}))
    if "REPLAY-FAILED" in p.stdout:
        return True, p.stdout[-3000:]
    if "REPLAY-HELD" in p.stdout or "REPLAY-ASSUMPTION-FALSE" in p.stdout:
        return False, p.stdout[-3000:]
    raise CheckError("replay did not run: " + p.stdout[-3000:])


def run(prop, tier, only=None, log=print):
    """Returns dict with violations (list of (name, detail, replay path)) and measured coverage."""
    t0 = time.time()
    out = prepare()
    names = harness_names(prop, tier, only)
    if not names:
        raise CheckError("no harnesses for " + prop)
    export = os.path.join(BUILD, "kani_%s.json" % prop)
    if os.path.exists(export):
        os.remove(export)
    per = 240 if tier == "quick" else 3000
    wall = 800 if tier == "quick" else 6 * 3600
    rc, text = kani(out, names, 8, per, [], export, wall)
    if not os.path.exists(export):
        raise CheckError("kani produced no result:\n" + text[-6000:])
    d = json.load(open(export))
    res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
    stats = {r["harness_id"]: r.get("cbmc_stats") or {} for r in d.get("cbmc", [])}
    details = {r["harness_id"]: r.get("property_details") or {} for r in d.get("property_details", [])}
    problems, violations = [], []
    functions, vccs, checks_total, solver = set(), 0, 0, 0.0
    per_harness = []
    for n in names:
        r = res.get(n)
        if r is None:
            problems.append("%s: no result" % n)
            continue
        covers_bad = []
        failed = []
        undetermined = 0
        for c in r["checks"]:
            cat, st = c.get("category", ""), c.get("status", "")
            f = c.get("location", {}).get("file", "")
            if re.match(r"src/|.*/kview/src/|/repo/src/", f):
                fn = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", c.get("function", ""))))
                functions.add(re.sub(r"^.*?src/", "src/", f) + ": " + fn)
            if cat == "cover":
                if st.lower() not in ("satisfied",):
                    covers_bad.append(c.get("description"))
                continue
            if st == "Failure":
                failed.append(c)
            elif st in ("Undetermined", "Unknown", "Error"):
                undetermined += 1
        s = stats.get(n, {})
        vccs += s.get("vccs_generated", 0)
        solver += s.get("runtime_decision_procedure_s", 0.0)
        checks_total += len(r["checks"])
        per_harness.append({"harness": n, "status": r["status"], "ms": r["duration_ms"],
                            "vccs": s.get("vccs_generated"), "solver_s": s.get("runtime_decision_procedure_s")})
        if r["status"] == "Success":
            if covers_bad:
                problems.append("%s: vacuous, unreachable witness %s" % (n, covers_bad))
            continue
        unw = [c for c in failed if "unwind" in c.get("category", "") or "unwinding" in c.get("description", "")]
        real = [c for c in failed if c not in unw]
        if not real:
            problems.append("%s: undecided (%s)" % (n, "loop bound" if unw else "timeout or resource limit"))
            continue
        # obtain the counterexample and replay it against the real code
        desc = "; ".join(sorted({"%s (%s:%s)" % (c["description"], os.path.basename(c["location"]["file"]),
                                                 c["location"]["line"]) for c in real}))[:600]
        _, t2 = kani(out, [n], 1, per, ["-Z", "concrete-playback", "--concrete-playback=print"], None, wall)
        vals = playback_values(t2)
        if vals is None:
            problems.append("%s: failed (%s) without a concrete counterexample" % (n, desc))
            continue
        ok, rep = replay(n, vals)
        if not ok:
            problems.append("%s: counterexample does not reproduce natively (%s)" % (n, desc))
            continue
        path = os.path.join(VERIF, "evidence", "replay_%s_%s.json" % (prop, n.split("::")[-1]))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump({"property": prop, "engine": "kani", "harness": n, "failed": desc, "values": vals,
                   "replay_output": rep,
                   "how": "python3 /verif/lib/kani_run.py replay %s" % path}, open(path, "w"), indent=1)
        violations.append((n.split("::")[-1], desc, path))
    return {"violations": violations, "problems": problems,
            "coverage": {"harnesses": len(names), "harness_results": per_harness,
                         "functions_encoded": sorted(functions), "obligations_discharged": checks_total,
                         "vccs": vccs, "solver_s": round(solver, 2)},
            "wall": time.time() - t0}


if __name__ == "__main__" and len(sys.argv) == 3 and sys.argv[1] == "replay":
    d = json.load(open(sys.argv[2]))
    ok, o = replay(d["harness"], d["values"])
    print(o)
    sys.exit(1 if ok else 0)
