#!/usr/bin/env python3
"""Decide one property: extract the functions under contract from /repo, discharge every obligation with
Verus, run the bounded replay search on the real code, write evidence, report.

usage: check.py PROPERTY [--tier quick|thorough]        (exit 0 held, exit 1 + VIOLATION line, 2 internal error)
       check.py --setup                                 (build the tools)
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPECS = os.path.join(VERIF, "specs")
VX = os.path.join(BUILD, "tool", "debug", "vx")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
ENV.pop("RUSTC_WRAPPER", None)
JOBS = 8
RLIMIT = "30"

OBLIGATION = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift underflow/overflow",
    "decreases not satisfied", "loop invariant not", "unable to prove", "cannot show", "constructed value may fail",
    "possible overflow", "requires not satisfied", "could not prove termination", "index out of bounds", "may panic",
    "not all errors may have been reported",
]
UNDECIDED = ["rlimit", "resource limit"]


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, capture_output=True, **kw)


def build_tool():
    r = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "tool")],
           cwd=os.path.join(VERIF, "tool"), env=ENV)
    if r.returncode != 0:
        print(r.stderr[-4000:])
        print("ERROR: extraction tool does not build")
        sys.exit(2)


def load_cfg():
    return json.load(open(os.path.join(VERIF, "checks.json")))


def tag_of(msg, spans, meta):
    """which aspect a failed obligation concerns"""
    text = " ".join(t["text"] for s in spans for t in s.get("text", []))
    for t in ("size", "term", "wake"):
        if "[%s]" % t in text:
            return t
    fn = None
    for s in spans:
        for f in meta["functions"]:
            if f["out_first"] <= s["line_start"] <= f["out_last"]:
                fn = f
    if fn:
        base = fn["name"].split("::")[-1]
        if base == "size_hint":
            return "size"
        if base == "is_terminated":
            return "term"
    return "core"


def run_verus(unit, work, vac=False):
    """emit + verify one unit. returns dict"""
    out = os.path.join(work, unit + ("_vac" if vac else "") + ".rs")
    meta_p = out[:-3] + ".json"
    t0 = time.time()
    cmd = [VX, "emit", unit, "--repo", REPO, "--specs", SPECS, "--out", out, "--meta", meta_p]
    if vac:
        cmd += ["--vacuity", "1"]
    r = sh(cmd)
    res = {"unit": unit, "status": "ok", "failed": [], "undecided": [], "verified": 0, "errors": 0, "functions": [],
           "trusted": [], "notes": [], "smt_ms": 0, "wall_s": 0.0, "reason": ""}
    if r.returncode != 0:
        res["status"] = "unsupported"
        res["reason"] = (r.stderr or r.stdout).strip()[:600]
        return res
    meta = json.load(open(meta_p))
    res["functions"] = meta["functions"]
    res["notes"] = meta["notes"]
    src = open(out).read().split("\n")
    for i, l in enumerate(src):
        if not l.strip().startswith("//") and re.search(r"external_body|external_fn_specification|assume_specification|\badmit\(|\bassume\(|external_type_specification|\baxiom fn\b", l):
            d = l.strip()
            for j in range(i + 1, min(i + 4, len(src))):
                if re.search(r"\b(fn|struct|trait)\b", src[j]):
                    d = src[j].strip()
                    break
            res["trusted"].append(d[:140])
    cmd = ["verus", os.path.basename(out), "--output-json", "--time", "--rlimit", RLIMIT, "--num-threads", "2",
           "--multiple-errors", "4", "--", "--error-format=json"]
    try:
        p = sh(cmd, cwd=work, timeout=400)
    except subprocess.TimeoutExpired:
        res["status"] = "undecided"
        res["reason"] = "verifier timeout (400 s)"
        return res
    res["wall_s"] = round(time.time() - t0, 2)
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
        vr = js.get("verification-results", {})
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        res["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0) if isinstance(js.get("times-ms"), dict) else 0
        ok = vr.get("success", False)
    except Exception:
        ok = False
    hard = []
    for l in p.stderr.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("level") != "error":
            continue
        m = d["message"]
        if m.startswith("aborting due to"):
            continue
        if any(u in m.lower() for u in UNDECIDED):
            fn = fn_at(d, meta)
            res["undecided"].append({"fn": fn, "message": m})
            continue
        if d.get("code") is None and any(o in m for o in OBLIGATION):
            clause = ""
            for s in d["spans"]:
                if s.get("label") and ("failed" in s["label"]) or s.get("is_primary"):
                    clause = " ".join(t["text"].strip() for t in s.get("text", []))
                    break
            res["failed"].append({"fn": fn_at(d, meta), "message": m, "clause": clause[:300],
                                  "tag": tag_of(m, d["spans"], meta), "rendered": d.get("rendered", "")[:3000]})
        else:
            hard.append(d.get("rendered", m)[:500])
    if hard:
        res["status"] = "unsupported"
        res["reason"] = "verifier front end: " + hard[0]
    elif res["failed"]:
        misfit = [n for n in res["notes"] if "no counterpart" in n]
        if misfit:
            res["status"] = "unsupported"
            res["reason"] = "contract no longer fits: " + "; ".join(misfit)
        else:
            res["status"] = "failed"
    elif res["undecided"]:
        res["status"] = "undecided"
        res["reason"] = "; ".join("%s: %s" % (u["fn"], u["message"]) for u in res["undecided"])
    elif not ok:
        res["status"] = "unsupported"
        res["reason"] = "verifier gave no result: " + p.stderr[-400:]
    return res


def fn_at(d, meta):
    for s in d["spans"]:
        for f in meta["functions"]:
            if f["out_first"] <= s["line_start"] <= f["out_last"]:
                return "%s (%s:%d)" % (f["name"], f["file"], f["line"])
    for s in d["spans"]:
        return "line %d" % s["line_start"]
    return "?"


def build_replay(pkg, features=None):
    """build a replay crate against /repo's working tree; returns path of the binary or None"""
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "replay")]
    r = sh(cmd, cwd=os.path.join(VERIF, "replay", pkg), env=ENV)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return os.path.join(BUILD, "replay", "debug", pkg), ""


def run_replay(pkg, fam, tier, seed, work):
    b, err = build_replay(pkg)
    if b is None:
        return {"error": "replay crate does not build: " + err}
    outp = os.path.join(work, "replay-%s-%s.json" % (pkg, fam))
    if os.path.exists(outp):
        os.remove(outp)
    try:
        p = sh([b, fam, "--tier", tier, "--seed", str(seed), "--out", outp], cwd=work, env=ENV,
               timeout=420 if tier == "quick" else 3000)
    except subprocess.TimeoutExpired:
        return {"error": "replay search exceeded its time limit", "timeout": True}
    if os.path.exists(outp):
        return json.load(open(outp))
    return {"error": "replay run ended with %s: %s" % (p.returncode, (p.stdout[-800:] + p.stderr[-2500:])), "crash": True}


def main():
    if "--setup" in sys.argv:
        build_tool()
        for k in sorted(os.listdir(os.path.join(VERIF, "replay"))):
            if os.path.exists(os.path.join(VERIF, "replay", k, "Cargo.toml")):
                b, err = build_replay(k)
                if b is None:
                    print("warning: %s: %s" % (k, err))
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = load_cfg()
    c = cfg[prop]
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_tool()
    units = c["units"]
    tags = set(c.get("tags", ["core", "term", "wake", "size"]))
    ex = cf.ThreadPoolExecutor(JOBS)
    # replay crates build while the verifier runs
    rex = cf.ThreadPoolExecutor(1)
    fut_r = [(rp, rex.submit(run_replay, rp["pkg"], rp["family"], tier, seed, work)) for rp in c.get("replay", [])]
    futs = [ex.submit(run_verus, u, work) for u in units]
    vfuts = [ex.submit(run_verus, u, work, True) for u in units]
    res = [f.result() for f in futs]
    vac = {}
    for f in vfuts:
        r = f.result()
        vac[r["unit"]] = r
    reps = [(rp, f.result()) for rp, f in fut_r]

    failed, standin = [], []
    for r in res:
        if r["status"] == "failed":
            for f in r["failed"]:
                if f["tag"] in tags:
                    failed.append((r["unit"], f))
        elif r["status"] in ("unsupported", "undecided"):
            standin.append((r["unit"], r["reason"]))
    # vacuity guard: with `assert(false)` planted at every entry, every function under contract must fail
    vacuous = []
    for r in res:
        if r["status"] != "ok":
            continue
        v = vac[r["unit"]]
        if v["status"] != "failed":
            vacuous.append("%s: guard run gave %s %s" % (r["unit"], v["status"], v["reason"][:200]))
            continue
        hit = set(f["fn"] for f in v["failed"])
        for f in v["functions"]:
            k = "%s (%s:%d)" % (f["name"], f["file"], f["line"])
            if k not in hit and not any(a in f["name"] for a in c.get("vacuity_skip", [])):
                vacuous.append(k)
        if r["verified"] == 0:
            vacuous.append(r["unit"] + ": no obligation generated")

    for v in vacuous:
        standin.append(("vacuity guard", v))
    viol_inputs, reperr, evals, distinct, samples, rules = [], [], 0, 0, [], []
    for rp, r in reps:
        if "error" in r:
            reperr.append("%s/%s: %s" % (rp["pkg"], rp["family"], r["error"]))
            if r.get("crash"):
                viol_inputs.append({"family": rp["family"], "what": "replay process died while executing the real code",
                                    "input": r["error"], "key": "crash:" + rp["family"]})
            elif r.get("timeout"):
                viol_inputs.append({"family": rp["family"], "what": "real code did not come to an end on a bounded script",
                                    "input": r["error"], "key": "hang:" + rp["family"]})
            continue
        evals += r["evaluations"]
        distinct += r["distinct_nontrivial"]
        samples += r["samples"][:3]
        rules.append(r["rule"])
        for v in r["violations"]:
            if v.get("tag", "core") in tags:
                viol_inputs.append(v)

    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    fresh = []
    shown = set()
    for v in viol_inputs:
        k = next((k for k in known if k[0] == v.get("key")), None)
        if k:
            if k not in shown:
                shown.add(k)
                print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
        else:
            fresh.append(v)

    obligations = sum(r["verified"] + r["errors"] for r in res)
    discharged = sum(r["verified"] for r in res)
    fns = {}
    for r in res:
        for f in r["functions"]:
            fns["%s %s" % (f["file"], f["name"])] = {
                "line": f["line"], "unit": r["unit"],
                "status": "proved" if r["status"] == "ok" else ("failed" if r["status"] == "failed" else "bounded stand-in"),
                "rewrites": f["rewrites"]}
    trusted = sorted(set(t for r in res for t in r["trusted"]))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "vx emit <unit> (mechanical extraction from /repo) && verus <unit>.rs --rlimit %s  [units: %s]" % (RLIMIT, " ".join(units)),
        "trusted_base": trusted + cfg.get("_trusted", []) + c.get("trusted", []),
        "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": sum(r["smt_ms"] or 0 for r in res),
        "verifier_wall_s": round(sum(r["wall_s"] for r in res), 1),
        "functions_under_contract": fns,
        "vacuity_guard": "assert(false) at every function entry fails as it must" if not vacuous else vacuous,
        "bounded_standins": [{"unit": u, "reason": w, "covered_by": [rp["family"] for rp in c.get("replay", [])]} for u, w in standin],
        "evaluations": evals, "distinct_nontrivial": distinct, "rule": " || ".join(rules) or "no replay search",
        "samples": samples[:6],
        "replay_note": "bounded search over the real code; supplies failing inputs and stands in for functions outside the verifier's reach; never counted as proved",
    }
    if reperr:
        cov["replay_errors"] = reperr
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "proof"), "coverage": cov,
          "assumptions": cfg.get("_assumptions", []) + c.get("assumptions", []), "wall_s": 0.0, "violations": 0}

    code = 0
    if fresh or failed:
        code = 1
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % prop)
        with open(rp, "w") as f:
            f.write("property %s\n\n" % prop)
            if failed:
                f.write("FAILED OBLIGATIONS (accepted on the unchanged tree)\n")
                for u, x in failed:
                    f.write("- unit %s, %s\n  %s [%s]\n  clause: %s\n%s\n" % (u, x["fn"], x["message"], x["tag"], x["clause"], x["rendered"]))
            if fresh:
                f.write("FAILING INPUTS, executed against the real code in %s\n" % REPO)
                for v in fresh[:20]:
                    f.write("- %s\n" % json.dumps(v, indent=1))
                f.write("\nreplay: %s\n" % " ; ".join("%s %s --tier %s --seed %d" % (os.path.join(BUILD, "replay/debug", r["pkg"]), r["family"], tier, seed) for r in c.get("replay", [])))
            else:
                f.write("\nno failing input found by the replay search (%d executions)\n" % evals)
        for u, x in failed[:10]:
            print("obligation failed: unit %s: %s: %s: %s" % (u, x["fn"], x["message"], x["clause"]))
        for v in fresh[:5]:
            print("failing input: %s" % json.dumps(v)[:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fresh else " no-failing-input-found"))
        ev["violations"] = len(fresh) + len(failed)
    else:
        for u, w in standin:
            print("stand-in: unit %s is outside the verifier's reach on this tree (%s); decided by the bounded check" % (u, w[:300]))
        if vacuous:
            print("note: vacuity guard: %s" % vacuous)
        if standin and not c.get("replay"):
            code = 2
        if any(True for _ in reperr) and code == 0:
            print("note: %s" % reperr)
            if standin:
                code = 2
        print("property %s: %d obligations, %d discharged, %d functions under contract, %d replay executions" % (prop, obligations, discharged, len(fns), evals))
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True) if code == 0 else None
    return code


sys.exit(main())
