#!/usr/bin/env python3
"""Runs one property's check against /repo's current working tree.

    check.py <ID> [quick|thorough]     explore; exit 0 held, 1 violation found, 2 no answer
    check.py replay <file>             judge one saved case again; exit 0 holds, 1 fails
    check.py setup                     see that the tools are there and that the harness builds

The check's binary is rebuilt from /repo on every call (build products live in .build/, ignored by
git). Most properties are explored twice: with the library's debug assertions on, and with them off.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
HARNESS = os.path.join(ROOT, "harness")
NDA = []
for _p in ("oauth1-request", "oauth-credentials"):
    NDA += ["--config", "profile.dev.package.%s.debug-assertions=false" % _p,
            "--config", "profile.dev.package.%s.overflow-checks=false" % _p]

# Which builds of the library a property is explored in.
ONE = {"C09", "C10", "C13", "C16", "C17", "C18", "C21", "C25", "C26", "C28", "C29", "C30"}
VARIANTS = {"da": [], "nda": NDA}

ASSUMPTIONS = [
    "The generators draw from the domain DESIGN.md states; nothing is claimed outside it.",
    "rustc, cargo, proptest and the independent reference in harness/src/rfc.rs are trusted "
    "(the reference is checked against the RFC 2202, RFC 5849 and FIPS 180 vectors).",
    "Exploration never shows absence of violations in cases that were not generated.",
]


def env(extra=None):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             CARGO_TERM_COLOR="never", VH_ROOT=ROOT, VH_BUILD=BUILD)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def die(msg, code=2):
    print("check error: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def build(binary, variant):
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--manifest-path",
           os.path.join(HARNESS, "Cargo.toml"), "--bin", binary] + VARIANTS[variant]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("building the harness failed\n" + p.stdout[-6000:])
    src = os.path.join(BUILD, "target", "debug", binary)
    dst = os.path.join(BUILD, "%s-%s" % (binary, variant))
    shutil.copy2(src, dst)
    return dst


def execute(exe, args, variant, tier, seed, limit, extra=None):
    e = env({"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VH_DA": "1" if variant == "da" else "0"})
    e.update(extra or {})
    p = subprocess.Popen([exe] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        p.returncode = None
    shutil.rmtree(os.path.join(BUILD, "programs-%d" % p.pid), ignore_errors=True)
    return p.returncode, out


def known(prop, case):
    """Whether the case is a finding listed in KNOWN_FINDINGS.json."""
    path = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return None
    with open(path) as f:
        doc = json.load(f)
    for k in doc.get("findings", []):
        if k["property"] == prop and k["case"] == case:
            return k["what"]
    return None


def save_replay(prop, variant, seed, tier, failure):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    doc = dict(property=prop, variant=variant, seed=seed, tier=tier, **failure)
    text = json.dumps(doc, indent=1, ensure_ascii=False)
    h = hashlib.sha1(text.encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, variant, h))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def crashed(exe, prop, variant, tier, seed, out, rc, limit):
    """The process died: find the case by running again with a journal, sequentially."""
    journal = os.path.join(BUILD, "journal-%s.json" % prop)
    if os.path.exists(journal):
        os.unlink(journal)
    rc2, out2 = execute(exe, ["run", os.path.join(BUILD, "crash-report.json")], variant, tier, seed,
                        limit, {"VH_JOURNAL": journal})
    if rc2 is None or rc2 >= 0 or not os.path.exists(journal):
        die("the harness died (%s) but not again when run sequentially\n%s" % (rc, out[-3000:]))
    with open(journal) as f:
        case = json.load(f)
    return {"message": "the process was killed by signal %d while judging this case" % -rc2,
            "case": case, "original": case, "shrink_steps": 0}


def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    binary = prop.lower()
    variants = ["da"] if prop in ONE else ["da", "nda"]
    limit = 780 if tier == "quick" else 6 * 3600
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    t0 = time.time()
    reports, failure = [], None
    for v in variants:
        exe = build(binary, v)
        left = limit - (time.time() - t0) if tier == "quick" else limit
        out_path = os.path.join(BUILD, "report-%s-%s.json" % (prop, v))
        if os.path.exists(out_path):
            os.unlink(out_path)
        prev = [os.path.join(BUILD, "report-%s-%s.json.hashes" % (prop, u))
                for u in variants[:variants.index(v)]]
        rc, out = execute(exe, ["run", out_path], v, tier, seed, max(left, 60),
                          {"VH_PREV": prev[0]} if prev else None)
        if out.strip():
            print(out[-4000:])
        if rc is None:
            die("time limit reached without an answer")
        if rc < 0:
            failure = (v, crashed(exe, prop, v, tier, seed, out, rc, max(left, 60)))
            break
        if rc not in (0, 1):
            die("harness exited with %d" % rc)
        with open(out_path) as f:
            rep = json.load(f)
        reports.append((v, rep))
        if rc == 1:
            if rep["failure"] is None:
                die("harness reported failure without a case")
            failure = (v, rep["failure"])
            break

    quiet = None
    if failure:
        quiet = known(prop, failure[1]["case"])
    cov = {
        "evaluations": sum(r["evaluations"] for _, r in reports),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for _, r in reports),
        "rule": reports[0][1]["rule"] if reports else "the run died before reporting",
        "samples": [s for _, r in reports[:1] for s in r["samples"]],
        "builds": {v: {k: r[k] for k in
                       ("evaluations", "fixed_cases", "nontrivial", "distinct_nontrivial", "labels",
                        "wall_s") if k in r}
                   for v, r in reports},
    }
    for _, r in reports:
        for k, val in r.get("extra", {}).items():
            cov.setdefault(k, val)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 3),
        "violations": 1 if failure and not quiet else 0,
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if quiet:
        print("KNOWN-FINDING: property=%s %s" % (prop, quiet))
        return 0
    if failure:
        path = save_replay(prop, failure[0], seed, tier, failure[1])
        print("found with the %s build after %d shrinking steps:" % (failure[0], failure[1]["shrink_steps"]))
        print(failure[1]["message"][:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    os.makedirs(BUILD, exist_ok=True)
    exe = build(doc["property"].lower(), doc["variant"])
    rc, out = execute(exe, ["replay", os.path.abspath(path)], doc["variant"], "quick", doc["seed"], 780)
    print(out[-6000:])
    if rc is not None and rc < 0:
        print("the process was killed by signal %d" % -rc)
        return 1
    return rc if rc in (0, 1) else 2


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build("c18", "da")
        return
    if len(sys.argv) < 2 or not re.fullmatch(r"C\d\d", sys.argv[1]):
        die(__doc__)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    sys.exit(run(sys.argv[1], tier))


if __name__ == "__main__":
    main()
