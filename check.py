#!/usr/bin/env python3
"""Decide one property:  check.py ID   (tier from VERIF_TIER, seed from VERIF_SEED).

1. The contracts (contracts/*.vrs) are put on the functions extracted from /repo's working tree and
   Verus discharges every obligation.
2. The same contracts are executed as oracles on the real crate (replay/), to find failing inputs.
Verdict: see DESIGN.md, "Verdicts".
"""
import concurrent.futures, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import units, verify

REPO = os.environ.get("ZARR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SKELETONS = os.path.join(VERIF, "contracts", "skeletons.json")


def cargo_env(target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k != "CARGO_HOME":
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    return e


def cargo(crate, target, flags):
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + flags, cwd=os.path.join(VERIF, crate), env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else p.stdout[-4000:]


def build_replay(pure=False):
    """Build the replay crate against /repo's working tree; returns (binary, error)."""
    target = os.path.join(BUILD, "replay-pure" if pure else "replay")
    err = cargo("replay", target, ["--features", "pure"] if pure else [])
    return (None, err) if err else (os.path.join(target, "debug", "replay"), None)


def build_extract():
    target = os.path.join(BUILD, "extract")
    err = cargo("extract", target, ["--release"])
    return (None, err) if err else (os.path.join(target, "release", "extract"), None)


def known_findings(prop):
    """Classes of recorded defects: lines `finding: property=ID class=CLASS text`."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % prop):
                rest = line.split("class=", 1)[1].strip()
                cls, text = rest.split(" ", 1)
                out[cls] = text
    return out


def run_replay(binary, prop, tier, seed, findings, timeout):
    cmd = [binary, "run", prop, "--tier", tier, "--seed", str(seed)]
    for f in findings:
        cmd += ["--finding", f]
    env = dict(os.environ, REPLAY_BASE=os.environ.get("REPLAY_BASE", "/tmp"))
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    try:
        return json.loads(p.stdout), None
    except ValueError:
        return None, "replay ended with status %d\n%s" % (p.returncode, (p.stdout + p.stderr)[-4000:])


def write_replay_file(prop, tier, seed, name, content):
    d = os.path.join(BUILD, "violations")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, name))
    content = dict({"property": prop, "tier": tier, "seed": seed}, **content)
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
    return path


def prove(prop, tier):
    """The outcome of the contracts of the property's units."""
    names = units.UNITS.get(prop, [])
    if not names:
        return []
    binary, err = build_extract()
    if err:
        print("cannot build the extractor:\n" + err)
        sys.exit(2)
    with tempfile.TemporaryDirectory(prefix="verif-") as work:
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            return list(ex.map(lambda n: verify.verify(n, binary, REPO, work), names))


class Replays:
    def __init__(self, prop, seed, findings):
        self.prop, self.seed, self.findings, self.reports, self.crashes, self.binaries = prop, seed, findings, [], [], []

    def build(self):
        for pure in ([False, True] if self.prop == "C08" else [False]):
            b, err = build_replay(pure)
            if err:
                print("cannot build the replay crate against %s:\n%s" % (REPO, err))
                return False
            self.binaries.append(("lz_pure" if pure else "default", b))
        return True

    def run(self, tier, timeout):
        for variant, b in self.binaries:
            rep, err = run_replay(b, self.prop, tier, self.seed, self.findings, timeout)
            if err == "timeout":
                # More cases than fit; what was explored is not known.  Not a failure.
                self.reports.append({"evaluations": 0, "nontrivial": 0, "samples": [], "groups": [], "failures": [], "found": [], "notes": ["%s tier did not finish in %d s" % (tier, timeout)], "variant": variant, "tier": tier})
            elif err:
                self.crashes.append({"variant": variant, "tier": tier, "output": err})
            else:
                rep.update(variant=variant, tier=tier, binary=b)
                self.reports.append(rep)

    def failures(self):
        return [dict(f, variant=r["variant"], binary=r["binary"]) for r in self.reports for f in r["failures"]]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    findings = known_findings(prop)
    reps = Replays(prop, seed, findings)

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        proof = ex.submit(prove, prop, tier)
        ok = reps.build()
        if ok:
            reps.run(tier, 400 if tier == "quick" else 7200)
        us = proof.result()
    if not ok:
        sys.exit(2)

    recorded = {}
    if os.path.exists(SKELETONS):
        with open(SKELETONS) as f:
            recorded = json.load(f)

    # Sort the functions of the units: ours, failed, undecided.
    failed, undecided, ours = [], {}, []
    for u in us:
        for i in u.items:
            if i["kind"] == "fn" and prop in i.get("properties", []):
                ours.append((u, i))
        if u.lost_unit:
            undecided["unit " + u.name] = u.lost_unit
        for n, why in u.undecided.items():
            undecided[n] = why
        for n, obs in u.failed.items():
            it = next(i for i in u.items if i["name"] == n)
            # A function that needs no proof text is decided from its contract alone, whatever its shape.
            same = recorded.get(u.name, {}).get(n) == it.get("skeleton") or it.get("auto")
            mine = prop in it.get("properties", [])
            if mine and same:
                failed.append((u, it, obs))
            else:
                undecided[n] = ("the proof does not go through after the function was restructured" if mine else "the contract of a function this property relies on is not established") + ": " + obs[0]["obligation"]
        if u.vacuous:
            undecided["vacuity"] = "contradictory assumptions in " + ", ".join(u.vacuous)

    standin = None
    if (failed or undecided) and not reps.failures() and not reps.crashes and tier == "quick":
        # Look for a failing input, or stand in for the undecided functions: the bounded exploration, deeper.
        standin = "the replay crate's thorough tier, seed %d" % seed
        reps.run("thorough", 300)

    violations = 0
    fails = reps.failures()
    obligations = [{"unit": u.name, "function": it["locator"], "file": it["file"], "obligations": obs} for u, it, obs in failed]
    for u, it, obs in failed:
        for o in obs:
            print("OBLIGATION FAILED property=%s %s %s line %s: %s" % (prop, it["file"], it["locator"], o["line"], o["obligation"]))
    for n, why in sorted(undecided.items()):
        print("UNDECIDED property=%s %s: %s" % (prop, n, why[:300]))
    for c in reps.crashes:
        path = write_replay_file(prop, tier, seed, "crash", {"case": None, "output": c["output"], "variant": c["variant"], "failed_obligations": obligations})
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violations += 1
    for i, f in enumerate(fails[:5]):
        path = write_replay_file(prop, tier, seed, "%s%d" % ("pure-" if f["variant"] == "lz_pure" else "", i), dict(f, replay="%s case <this file>" % f["binary"], failed_obligations=obligations))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   %s\n   %s" % (f["case"], f["detail"][:500]))
        violations += 1
    if failed and not violations:
        path = write_replay_file(prop, tier, seed, "obligation", {"failed_obligations": obligations})
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        violations += 1
    for c in sorted({f["class"] for r in reps.reports for f in r["found"]}):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, c, findings[c]))

    rs = reps.reports
    bounded = {
        "evaluations": sum(r["evaluations"] for r in rs),
        "distinct_nontrivial": sum(r["nontrivial"] for r in rs),
        "rule": "cases of the replay crate, each an execution of the real crate against an oracle; non-trivial unless marked empty; distinct by their description",
        "samples": [s for r in rs for s in r["samples"]][:24],
        "groups": [dict(g, variant=r["variant"], tier=r["tier"]) for r in rs for g in r["groups"]],
        "notes": [n for r in rs for n in r["notes"]],
    }
    gaps = units.GAPS.get(prop, [])
    proved = bool(us) and not failed and not undecided and ours
    level = "proof" if proved and prop not in units.PARTIAL else "exploration"
    if us:
        done = sum(u.verified for u in us)
        total = sum(u.verified + u.errors for u in us)
        coverage = {
            "obligations": total, "discharged": done,
            "obligation_unit": "one per function, closure or lemma of the units (all its assertions, calls, loop and overflow conditions together)",
            "checker_cmd": "; ".join(u.cmd for u in us), "back_end": "Verus, Z3",
            "trusted_base": units.trusted_base([u.name for u in us]),
            "functions_under_contract": sorted({"%s %s" % (i["file"], i["locator"]) for u, i in ours if i["status"] == "extracted"}),
            "functions_under_contract_relied_on": sorted({"%s %s" % (i["file"], i["locator"]) for u in us for i in u.items if i["kind"] == "fn" and i["status"] == "extracted" and prop not in i.get("properties", [])}),
            "solver_seeds_tried_again": sorted({s for u in us for s in u.seeds}), "solver_ms": round(sum(u.smt_ms for u in us), 1), "verifier_s": round(sum(u.wall for u in us), 1),
            "solver_ms_by_function": {f["function"]: round(f["ms"], 1) for u in us for f in sorted(u.functions, key=lambda f: -f["ms"])[:40]},
            "vacuity_probes": sum(u.probed for u in us), "vacuous": [n for u in us for n in u.vacuous],
            "failed": obligations, "undecided": undecided, "stand_in": standin,
            "not_reached_by_contracts": gaps,
            "bounded": dict(bounded, label="bounded: never counted as proved"),
        }
        if level == "exploration":
            coverage.update({k: bounded[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
    else:
        coverage = bounded
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": (units.trusted_base([u.name for u in us]) if us else []) + gaps, "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)
    sys.exit(1 if violations else 0)


def record():
    """Record the shape of every function under contract on the unchanged tree."""
    binary, err = build_extract()
    assert not err, err
    out = {}
    with tempfile.TemporaryDirectory() as work:
        for n in sorted({u for v in units.UNITS.values() for u in v}):
            _, items = verify.run_extract(binary, REPO, n, work, set(), False)
            out[n] = {i["name"]: i["skeleton"] for i in items if i.get("skeleton")}
    with open(SKELETONS, "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    record() if sys.argv[1] == "--record" else main()
