#!/usr/bin/env python3
"""check.py ID [--facts DIR]: decide one property from /repo's current source.

Extracts the compiler's typed MIR of /repo's crates (through /verif/driver), explores it with the
rules of /verif/rules, writes evidence/ID.json and prints VIOLATION / KNOWN-FINDING lines."""
import argparse
import fcntl
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(HERE, ".cache")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
CRATES = ("paladin", "paladin_opkind_derive", "probe")


def sh(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("error: %s failed in %s" % (" ".join(cmd), cwd))
        sys.exit(2)
    return r.stdout


def environment():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k not in ("CARGO_HOME",):
            del e[k]
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = root + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
    return e


def build_driver(env):
    t = os.path.join(CACHE, "driver")
    sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", t], os.path.join(HERE, "driver"), env)
    return os.path.join(t, "release", "paladin-facts")


def extract(env, driver, profile=()):
    """The facts of the current tree, always extracted anew."""
    out = os.path.join(CACHE, "facts")
    target = os.path.join(CACHE, "target")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # cargo must not consider the analysed crates fresh: the driver would not see them
    for d, ds, _ in os.walk(target):
        for x in list(ds):
            p = os.path.join(d, x)
            mine = any(s.startswith(("paladin", "probe")) for s in os.path.relpath(p, target).split(os.sep))
            if x in ("fingerprint", ".fingerprint") and mine:
                shutil.rmtree(p, ignore_errors=True)
                ds.remove(x)
            elif d.endswith(".fingerprint") and mine:
                shutil.rmtree(p, ignore_errors=True)
                ds.remove(x)
    env = dict(env, PALADIN_FACTS_DIR=out, RUSTC_WRAPPER=driver)
    sh(["cargo", "+nightly", "check", "--offline", "--target-dir", target, *profile], os.path.join(HERE, "probe"), env)
    for n in CRATES:
        p = os.path.join(out, n + ".json")
        if not os.path.exists(p):
            print("error: no facts of crate %s were extracted" % n)
            sys.exit(2)
    return out


def source_digest():
    h = hashlib.sha256()
    n = 0
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                n += 1
                with open(os.path.join(d, f), "rb") as g:
                    h.update(f.encode() + b"\0" + g.read())
    return h.hexdigest()[:16], n


def rules():
    t = {}
    for f in sorted(glob.glob(os.path.join(HERE, "rules", "*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        t.update(getattr(m, "RULES", {}))
    return t


def known(pid):
    """{key: what fails} of the findings recorded for a property."""
    r = {}
    with open(os.path.join(HERE, "known-findings.json")) as f:
        for k in json.load(f)["findings"]:
            if k["property"] == pid:
                r[k["key"]] = k["what"]
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--facts", help="use already extracted facts (development only)")
    a = ap.parse_args()
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    if a.facts:
        out = a.facts
    else:
        env = environment()
        out = extract(env, build_driver(env))
    t1 = time.time()
    if a.setup:
        print("the driver is built and the facts of %d crates were extracted in %.0f s" % (len(CRATES), t1 - t0))
        return 0
    import facts
    import lib
    from absint import Limit

    prog = facts.Program(out)
    nb = {n: len(c.raw_bodies) for n, c in prog.crates.items()}
    if min(nb.values()) == 0:
        print("error: a crate without bodies: %s" % nb)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    c = lib.Check(prog, a.id, tier if tier in ("quick", "thorough") else "quick")
    try:
        rules()[a.id](c)
    except (lib.Broken, Limit) as e:
        c.violations.append(("cannot be established", "", "the property cannot be established any more: %s" % e))
    except (LookupError, AttributeError, TypeError, ValueError, StopIteration, RecursionError, AssertionError, MemoryError) as e:
        # what a rule is about does not have the shape any more in which the rule can decide it
        import traceback

        at = traceback.extract_tb(e.__traceback__)[-1]
        c.violations.append(("cannot be established", "", "the property cannot be established any more: %s at %s:%s" % (repr(e)[:200], os.path.basename(at.filename), at.lineno)))
    kf = known(a.id)
    fresh = [v for v in c.violations if v[0] not in kf]
    old = [v for v in c.violations if v[0] in kf]
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    report = os.path.join(ev_dir, a.id + ".report.txt")
    with open(report, "w") as f:
        for k, loc, msg in c.violations:
            f.write("%s\n  at %s\n  %s\n  key: %s\n\n" % ("KNOWN" if k in kf else "VIOLATION", loc, msg, k))
    digest, nfiles = source_digest()
    done = sum(1 for o in c.obligations if o["ok"])
    ev = {
        "property": a.id,
        "tier": c.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the typed MIR which rustc produces for /repo's current source. Each rule is an obligation over every "
            "control-flow path (calls entered, traits and futures resolved) of the listed entry points, or over every function of the crates.",
            "source_digest": digest,
            "source_files": nfiles,
            "functions_in_program": nb,
            "functions_analysed": sorted(c.fns)[:400],
            "functions_analysed_count": len(c.fns),
            "paths": c.npaths,
            "abstract_states": c.nstates,
            "call_events": c.ncalls,
            "awaits": c.nawaits,
            "runs": c.runs[:200],
            "obligations": len(c.obligations),
            "discharged": done,
            "obligation_list": c.obligations[:400],
            "known_findings": [v[0] for v in old],
            "violations": [{"key": v[0], "at": v[1], "what": v[2][:2000]} for v in fresh],
            "notes": c.notes,
            "extraction_s": round(t1 - t0, 1),
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(ev_dir, a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.id, kf[k[0]], k[1]))
    for k, loc, msg in fresh:
        print("VIOLATION property=%s replay=%s %s: %s" % (a.id, report, loc, msg[:700]))
    print("%s: %d of %d obligations hold; %d functions, %d paths, %d call sites analysed (%.1f s)" % (a.id, done, len(c.obligations), len(c.fns), c.npaths, c.ncalls, time.time() - t0))
    return 1 if fresh else 0


if __name__ == "__main__":
    from absint import run_in_thread

    r = run_in_thread(main)
    sys.stdout.flush()
    os._exit(r if isinstance(r, int) else 2)
