"""Run the deductive verifier on the contracts of one unit, over the functions of /repo's working tree."""
import concurrent.futures, json, os, re, subprocess, time

VERIF = os.path.dirname(os.path.abspath(__file__))
UNKNOWN = ("rlimit", "resource limit", "timed out", "timeout", "solver")


def run_extract(binary, repo, unit, work, external, probe):
    tag = unit + ("-probe" if probe else "")
    rs, js = os.path.join(work, tag + ".rs"), os.path.join(work, tag + ".json")
    cmd = [binary, repo, os.path.join(VERIF, "contracts", unit + ".vrs"), rs, js]
    for e in sorted(external):
        cmd += ["--external", e]
    if probe:
        cmd.append("--probe")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("extractor: " + p.stdout[-2000:])
    with open(js) as f:
        return rs, json.load(f)["items"]


def run_verus(rs, timeout, extra=()):
    cmd = ["verus", os.path.basename(rs), "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent", "--multiple-errors", "5", "--num-threads", "4"] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(rs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"results": None, "errors": [], "timeout": True, "wall": time.time() - t0, "cmd": " ".join(cmd), "functions": []}
    res, funcs, smt = None, [], 0
    try:
        j = json.loads(p.stdout)
        res = j.get("verification-results")
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                funcs.append({"function": f.get("function"), "mode": f.get("mode:") or f.get("mode"), "ms": f.get("time-micros", 0) / 1000.0, "rlimit": f.get("rlimit"), "success": f.get("success")})
    except ValueError:
        pass
    errors = []
    for l in p.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("spans"):
            errors.append({"message": m.get("message", ""), "code": (m.get("code") or {}).get("code"), "lines": [s["line_start"] for s in m["spans"] if s.get("is_primary")] or [m["spans"][0]["line_start"]],
                           "spans": [{"line": s["line_start"], "label": s.get("label"), "text": (s.get("text") or [{}])[0].get("text", "").strip()} for s in m["spans"]],
                           "rendered": m.get("rendered", "")[:3000]})
        elif m.get("level") == "error" and "aborting" not in m.get("message", ""):
            errors.append({"message": m.get("message", ""), "lines": [], "spans": [], "rendered": m.get("rendered", "")[:3000]})
    return {"results": res, "errors": errors, "timeout": False, "wall": time.time() - t0, "cmd": " ".join(cmd), "functions": funcs, "stderr": p.stderr[-3000:] if not errors else ""}


def item_at(items, line):
    best = None
    for i in items:
        g = i.get("gen")
        if g and g[0] <= line < g[1] and (best is None or g[0] > best["gen"][0]):
            best = i
    return best


def src_line(rs, line):
    with open(rs) as f:
        text = f.read().splitlines()
    for k in range(min(line, len(text)) - 1, max(0, line - 60), -1):
        m = re.findall(r"/\*src:(\d+)\*/", text[k])
        if m:
            return int(m[-1])
    return None


class Unit:
    """The outcome for one unit: items under contract, which failed, which could not be decided."""

    def __init__(self, name):
        self.name, self.items, self.failed, self.undecided = name, [], {}, {}
        self.lost_unit, self.verified, self.errors, self.smt_ms, self.cmd, self.wall, self.functions = None, 0, 0, 0.0, "", 0.0, []
        self.vacuous, self.seeds = [], []
        self.probed = 0


def verify(unit, binary, repo, work, timeout=420, probe=True):
    u = Unit(unit)
    t0 = time.time()
    external = set()
    for _ in range(12):
        rs, items = run_extract(binary, repo, unit, work, external, False)
        v = run_verus(rs, timeout)
        if v["timeout"]:
            u.lost_unit = "the verifier did not finish in %d s" % timeout
            break
        r = v["results"]
        if r is not None and not r.get("encountered-vir-error") and (r.get("verified", 0) + r.get("errors", 0)) > 0 and not any(is_front(e) for e in v["errors"]):
            break
        # The front end rejected the text: set the functions it complains about aside.
        bad = set()
        for e in v["errors"]:
            for l in e["lines"]:
                it = item_at(items, l)
                if it is not None and it["kind"] == "fn" and it["status"] == "extracted":
                    bad.add(it["name"])
                    u.undecided[it["name"]] = "not accepted by the verifier's front end: " + e["message"][:300]
        if not bad - external:
            u.lost_unit = "the verifier rejected the unit: " + "; ".join(e["message"] for e in v["errors"])[:600] + v.get("stderr", "")[:300]
            break
        external |= bad
    else:
        u.lost_unit = "the verifier rejected the unit"
    u.items = items
    for i in items:
        if i["status"] != "extracted":
            u.undecided.setdefault(i["name"], i.get("reason", "lost"))
            if i["kind"] != "fn":
                u.lost_unit = u.lost_unit or "%s %s: %s" % (i["kind"], i["name"], i.get("reason"))
    u.wall, u.cmd, u.functions = v["wall"], v["cmd"], v["functions"]
    if u.lost_unit:
        return u
    u.smt_ms = sum(f["ms"] for f in v["functions"])
    # An obligation proved once is proved: what fails is tried again with other seeds of the solver.
    def key(e):
        for l in e["lines"] + [s["line"] for s in e["spans"]]:
            c = item_at(items, l)
            if c is not None and c["kind"] == "fn" and c["status"] == "extracted":
                return c["name"]
        return tuple(e["lines"])
    for seed in (7, 23):
        if not v["errors"]:
            break
        w = run_verus(rs, timeout, ["--rlimit", "25", "--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed])
        if w["timeout"] or w["results"] is None or any(is_front(e) for e in w["errors"]):
            continue
        u.seeds.append(seed)
        u.smt_ms += sum(f["ms"] for f in w["functions"])
        still = {key(e) for e in w["errors"]}
        v["errors"] = [e for e in v["errors"] if key(e) in still]
    failing = len({key(e) for e in v["errors"]})
    u.verified, u.errors = r["verified"] + r["errors"] - failing, failing
    for e in v["errors"]:
        it = None
        for l in [s["line"] for s in e["spans"]]:
            c = item_at(items, l)
            if c is not None and c["kind"] == "fn" and c["status"] == "extracted":
                it = c
                break
        # A failed precondition is reported at the call; prefer the primary span.
        for l in e["lines"]:
            c = item_at(items, l)
            if c is not None and c["kind"] == "fn" and c["status"] == "extracted":
                it = c
        unknown = any(k in e["message"].lower() for k in UNKNOWN)
        if it is None:
            u.lost_unit = "a lemma of the contracts fails: " + e["message"] + " " + json.dumps(e["spans"])[:400]
            continue
        if unknown:
            u.undecided[it["name"]] = "the solver gave up: " + e["message"]
        else:
            u.failed.setdefault(it["name"], []).append({"obligation": e["message"], "file": it["file"], "function": it["locator"], "line": src_line(rs, (e["lines"] or [0])[0]), "spans": e["spans"], "output": e["rendered"]})
    if u.errors and not u.failed and not u.undecided and not u.lost_unit:
        u.lost_unit = "errors without a location"
    if probe and not u.lost_unit and not u.failed:
        prs, pitems = run_extract(binary, repo, unit, work, external, True)
        # Every extracted function with an impossible postcondition must be rejected.
        pv = run_verus(prs, timeout)
        rejected = set()
        for e in pv["errors"]:
            for s in e["spans"]:
                it = item_at(pitems, s["line"])
                if it is not None:
                    rejected.add(it["name"])
        if not pv["timeout"]:
            ext = [i["name"] for i in pitems if i["kind"] == "fn" and i["status"] == "extracted"]
            u.probed = len(ext)
            u.vacuous = [n for n in ext if n not in rejected]
    u.wall = time.time() - t0
    return u


def is_front(e):
    """An error of rustc's front end (it carries a code) rather than a failed obligation."""
    return bool(e.get("code"))
