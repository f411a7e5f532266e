#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: extracts the functions of /repo it depends on, together with their contracts
(specs/*.vs), into Verus files, has Verus discharge every obligation, and runs the counterexample
search (harness) against the real crates.  See DESIGN.md, "Verdicts".
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
EX = f"{V}/target/extract/release/vp-extract"
HARNESS = {False: "harness", True: "harness_sync"}  # the second: the crates with their feature `sync`


def sh(cmd, cwd=V, env=None, timeout=None):
    e = dict(os.environ)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_MIN_STACK"] = str(1 << 30)  # the front end of the verifier recurses over long functions
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
        return -999, o, er


def build_extract():
    rc, o, e = sh(["cargo", "build", "--release", "--offline"], cwd=f"{V}/extract", env={"CARGO_TARGET_DIR": f"{V}/target/extract"})
    return rc == 0, e


def harness(sync):
    return f"{V}/target/{HARNESS[sync]}/debug/vp-harness"


def build_harness(sync=False):
    # time stamps of /repo are not to be trusted (checkouts): forget the crates of /repo
    fp = f"{V}/target/{HARNESS[sync]}/debug/.fingerprint"
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("i18n") or d.startswith("vp-harness"):
                shutil.rmtree(f"{fp}/{d}", ignore_errors=True)
    rc, o, e = sh(["cargo", "build", "--offline"] + (["--features", "sync"] if sync else []), cwd=f"{V}/harness", env={"CARGO_TARGET_DIR": f"{V}/target/{HARNESS[sync]}"})
    return rc == 0, e


def not_shareable(prop, types):
    """the compiler's errors, if it refuses to share a value of one of the types between threads (p_sync.rs, shared_types)"""
    rc, o, e = sh(["cargo", "build", "--offline", "--features", "sync", "--message-format=json"], cwd=f"{V}/harness", env={"CARGO_TARGET_DIR": f"{V}/target/{HARNESS[True]}"})
    out = []
    for l in o.split("\n"):
        try:
            m = json.loads(l).get("message") or {}
        except Exception:
            continue
        if (m.get("code") or {}).get("code") != "E0277" or "between threads safely" not in m.get("message", ""):
            continue
        ours = [sp for sp in m["spans"] if sp["is_primary"] and sp["file_name"].endswith("p_sync.rs")]
        # refused here, or already where the crate itself needs the type to be shared
        if any(f"shared::<{t}>()" in x["text"] for t in types for sp in ours for x in sp["text"]) or not ours and any(f"within `{t}`" in (m.get("rendered") or "") for t in types):
            out.append(m.get("rendered") or m["message"])
    return out


# ---- the verifier ---------------------------------------------------------------------------
def trusted_of(text):
    """every assumption in the verified text"""
    out, lines = [], text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "external_fn_specification" in s or "verifier::external" in s:
            j = i + 1
            while j < len(lines) and (lines[j].strip().startswith("#[") or lines[j].strip().startswith("//")):
                j += 1
            out.append("trusted: " + lines[j].strip().split("{")[0].strip()[:150] if j < len(lines) else s)
        elif "assume_specification" in s:
            out.append("assumed std contract: " + s.split("assume_specification")[1].strip()[:150])
        elif re.search(r"\b(assume|admit)\s*\(", s) and "// vp-arm: decided in run" not in s:
            out.append("ASSUME: " + s[:150])
        elif "uninterp spec fn" in s:
            out.append("abstract: " + s.split("uninterp spec fn")[1].strip()[:120])
    return sorted(set(out))


def tags(lines, a, b):
    """property tags of the clause whose text spans lines a..b (1-based)"""
    k = b - 1
    for _ in range(12):
        if 0 <= k < len(lines):
            m = re.search(r"//\s*((\[([A-Z]\d\d|\?)\]\s*)+)", lines[k])
            if m:
                return ["?"] if "?" in m.group(1) else re.findall(r"[A-Z]\d\d", m.group(1))
            code = lines[k].split("//")[0].rstrip()
            if code.endswith(",") or code.endswith("{"):
                return []
        k += 1
    return []


def run_verus(path, extra, timeout):
    return sh(["verus", path, "--output-json", "--time", "--error-format=json", "--multiple-errors", "10", "--num-threads", "6"] + extra, timeout=timeout)


TIMING = ("rlimit", "Resource limit", "timed out", "timeout")
OBLIG = re.compile(r"postcondition|precondition|assertion failed|invariant not satisfied|overflow|underflow|decreases|termination|index out of|bounds|possible division by zero|cannot show|recommendation|unreachable|loop ensures|requires not satisfied", re.I)


def verify_unit(unit, plan, tier):
    """returns dict(status = proved|failed|structural, ...)"""
    u = plan["units"][unit]
    out, js = f"{V}/gen/{unit}.rs", f"{V}/gen/{unit}.json"
    os.makedirs(f"{V}/gen", exist_ok=True)
    t = time.time()
    r = {"unit": unit, "status": "structural", "why": "", "failed": [], "obligations": 0, "discharged": 0, "functions": [], "trusted": [], "smt_s": 0.0,
         "checker_cmd": f"vp-extract {REPO} specs/{unit}.vs gen/{unit}.rs gen/{unit}.json && verus gen/{unit}.rs"}
    rc, o, e = sh([EX, REPO, f"{V}/specs/{unit}.vs", out, js])
    if rc != 0:
        r["why"] = "extraction: " + e.strip()[-600:]
        return r
    meta = json.load(open(js))
    text = open(out).read()
    lines = text.split("\n")
    r["trusted"] = trusted_of(text)
    r["functions"] = [f["fn"] for f in meta["functions"] if not f["helper"]]
    r["rewrites"] = meta["rewrites"]
    helpers = [f["fn"] for f in meta["functions"] if f["helper"]]
    r["uncontracted_helpers"] = helpers
    extra = ["--rlimit", str(u.get("rlimit", 60))]
    # functions decided one match arm at a time: run 0 decides arm 0 and everything else
    runs = [(out, extra)]
    for sh_ in meta["shape"]:
        for k in range(1, sh_.get("arms", 0)):
            ok = f"{V}/gen/{unit}_arm{k}.rs"
            if sh([EX, REPO, f"{V}/specs/{unit}.vs", ok, f"{V}/gen/{unit}_arm{k}.json", "--arm", str(k)])[0] != 0:
                r["why"] = "extraction of an arm"
                return r
            runs.append((ok, extra + ["--verify-root", "--verify-function", sh_["fn"]]))
    r["runs"] = len(runs)
    with ThreadPoolExecutor(4) as ex:
        got = list(ex.map(lambda x: run_verus(x[0], x[1], 420), runs))
    r["wall_s"] = round(time.time() - t, 1)
    if any(g[0] == -999 for g in got):
        r["why"] = "verifier timed out"
        return r
    rc, e, vr = 0, "", {"success": True}
    for g in got:
        try:
            res = json.loads(g[1][g[1].index("{"):])
        except Exception:
            r["why"] = "verifier gave no result: " + (g[2] or g[1])[-600:]
            return r
        v1 = res.get("verification-results", {})
        rc, e = rc or g[0], e + "\n" + g[2]
        r["smt_s"] += res.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000.0
        vr["success"] = vr["success"] and g[0] == 0 and not v1.get("errors") and (v1.get("verified") or 0) > 0 and (bool(v1.get("success")) or g is not got[0])
        for k in ("encountered-vir-error", "encountered-error"):
            vr[k] = vr.get(k) or v1.get(k)
        for k in ("verified", "errors"):
            vr[k] = vr.get(k, 0) + (v1.get(k) or 0)
    r["discharged"] = vr.get("verified", 0)
    r["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
    other = [d for d in diags if d.get("level") == "error" and not d.get("spans") and not d.get("message", "").startswith("aborting")]
    if rc == 0 and vr.get("success") and not errs:
        if r["obligations"] == 0 or len(r["functions"]) == 0:
            r["why"] = "no obligations"
            return r
        r["status"] = "proved"
        return r
    if vr.get("encountered-vir-error") or vr.get("encountered-error") and not vr.get("errors") or any(d.get("code") for d in errs):
        r["why"] = "not accepted by the verifier front end: " + "; ".join(d["message"] for d in errs + other)[:600]
        return r
    rendered = "\n".join(d.get("rendered") or d["message"] for d in errs + other)
    r["output"] = rendered[-8000:]
    if not errs or any(any(k in d["message"] for k in TIMING) for d in errs) or any(not OBLIG.search(d["message"]) for d in errs):
        r["why"] = "verifier limit or unsupported construct: " + "; ".join(d["message"] for d in errs + other)[:600]
        return r
    soft = []
    for d in errs:
        props, fn = [], None
        for sp in d["spans"]:
            for f in meta["functions"]:
                if f["start"] <= sp["line_start"] <= f["end"] and (fn is None or sp.get("is_primary")):
                    fn = f
            lab = sp.get("label") or ""
            if "failed" in lab or "postcondition" in d["message"] or "invariant" in d["message"]:
                props += tags(lines, sp["line_start"], sp["line_end"])
        # a clause marked [?] fixes a text that only a trusted contract gives a meaning to (a query): other texts may be
        # as good, so the search against the real database decides
        if "?" in props:
            soft.append(d["message"] + " at " + (fn["fn"] if fn else "?"))
            continue
        if u.get("own"):
            props = u["properties"]  # the specification is shared with a unit of other properties
        if not props:
            props = (fn or {}).get("props") or u["properties"]
        sp = next((s for s in d["spans"] if s.get("is_primary")), d["spans"][0])
        r["failed"].append({"message": d["message"], "fn": fn["fn"] if fn else None, "properties": sorted(set(props)),
                            "text": (sp["text"][0]["text"].strip() if sp.get("text") else ""), "line": sp["line_start"]})
    if helpers:
        r["status"], r["why"] = "structural", "functions without a contract are called: " + ", ".join(helpers)
        return r
    # invariants are attached to the loops of the function as they were written: for a loop of another kind they say nothing
    base = json.load(open(f"{V}/specs/shape.json")).get(unit, {})
    moved = sorted({s["fn"] for s in meta["shape"] if not s["helper"] and s["kinds"] != base.get(s["fn"], s["kinds"])} & {f["fn"] for f in r["failed"]})
    if moved:
        r["status"], r["why"] = "structural", "loops rewritten, invariants do not apply: " + ", ".join(moved)
        return r
    if not r["failed"]:
        r["status"], r["why"] = "structural", "text outside the trusted contracts: " + "; ".join(soft)
        return r
    r["status"] = "failed"
    return r


def vacuity_unit(unit, plan):
    """with `assert(false)` at the entry of every contracted function, each must be reported"""
    out, js = f"{V}/gen/{unit}_vac.rs", f"{V}/gen/{unit}_vac.json"
    rc, o, e = sh([EX, REPO, f"{V}/specs/{unit}.vs", out, js, "--vacuity"])
    if rc != 0:
        return None
    meta = json.load(open(js))
    rc, o, e = run_verus(out, ["--rlimit", "30"], 420)
    hit = set()
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            for sp in d.get("spans", []):
                if d.get("level") == "error" and sp.get("is_primary") and sp.get("text") and "VACUITY" in sp["text"][0]["text"]:
                    for f in meta["functions"]:
                        if f["start"] <= sp["line_start"] <= f["end"]:
                            hit.add(f["fn"])
    want = {f["fn"] for f in meta["functions"] if not f["helper"]}
    return {"reachable": len(hit), "expected": len(want), "vacuous": sorted(want - hit)}


# ---- the counterexample search -----------------------------------------------------------------
def search(prop, secs, seed, replay, HA):
    rc, o, e = sh([HA, "run", prop, "--seed", str(seed), "--secs", str(secs), "--out", replay], timeout=secs + 150)
    try:
        return json.loads(o.strip().split("\n")[-1])
    except Exception:
        pass
    # the process died (stack overflow, abort): find the case
    tr = replay + ".trace"
    rc2, o2, e2 = sh([HA, "run", prop, "--seed", str(seed), "--secs", str(min(3 * secs, 120)), "--out", replay, "--trace", tr], timeout=secs * 3 + 150)
    if rc2 in (0, 1):
        try:
            return json.loads(o2.strip().split("\n")[-1])
        except Exception:
            pass
    if os.path.exists(tr):
        d = json.load(open(tr))
        os.remove(tr)
        d["message"] = f"the process ends abnormally (exit status {rc2}): {e2.strip()[-300:]}"
        d["replay_command"] = f"{HA} replay {replay}"
        json.dump(d, open(replay, "w"), indent=1)
        return {"property": prop, "violation": d, "evaluations": 1, "distinct_nontrivial": 1, "samples": [d["case"]], "rule": "abnormal end"}
    return {"error": f"harness exit {rc}: {e[-400:]}"}


def known(prop):
    out, p = [], f"{V}/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:") and f"property={prop} " in l:
                out.append(l[len("known:"):].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = json.load(open(f"{V}/plan.json"))
    pl = plan["properties"][prop]
    units = pl.get("units", [])
    sync = "shared" in pl
    for d in ("evidence", "replays", "gen"):
        os.makedirs(f"{V}/{d}", exist_ok=True)
    replay = f"{V}/replays/{prop}.json"
    if os.path.exists(replay):
        os.remove(replay)
    with ThreadPoolExecutor(8) as ex:
        fh = ex.submit(build_harness, sync)
        results, vac = [], {}
        if units:
            ok, err = build_extract()
            if ok:
                fs = [ex.submit(verify_unit, u, plan, tier) for u in units]
                fv = {u: ex.submit(vacuity_unit, u, plan) for u in units}
                results = [f.result() for f in fs]
                vac = {u: f.result() for u, f in fv.items()}
            else:
                results = [{"unit": u, "status": "structural", "why": "extractor: " + err[-300:], "failed": [], "obligations": 0, "discharged": 0,
                            "functions": [], "trusted": [], "smt_s": 0.0, "checker_cmd": ""} for u in units]
        hok, herr = fh.result()
    for r in results:
        v = vac.get(r["unit"])
        if r["status"] == "proved" and (v is None or v["vacuous"]):
            r["status"], r["why"] = "structural", f"vacuity check: {v}"
    mine = [(r, f) for r in results for f in r["failed"] if prop in f["properties"]]
    structural = [r for r in results if r["status"] == "structural"]
    # a failed obligation counts as one for this property only where it is decided by the verifier
    failed = [(r, f) for r, f in mine if r["status"] == "failed"]
    proved = bool(units) and not failed and not structural
    secs = {"quick": pl.get("quick_s", 20), "thorough": pl.get("thorough_s", 240)}[tier]
    if units and not proved:
        secs = max(secs, 75)
    s = None
    if hok:
        s = search(prop, secs, seed, replay, harness(sync))
    else:
        print("note: the harness does not build: " + herr.strip()[-400:])
        refused = not_shareable(prop, pl["shared"]) if sync else []
        if refused:
            d = {"property": prop, "kind": "program that does not compile", "case": "a program that shares a value of one of " + ", ".join(pl["shared"]) + " between threads (harness/src/p_sync.rs, shared_types)",
                 "message": refused, "command": "cd harness && cargo build --offline --features sync"}
            json.dump(d, open(replay, "w"), indent=1)
            s = {"violation": {"message": refused[0]}, "evaluations": 1, "distinct_nontrivial": 1, "rule": "compiling a program that shares the type", "samples": [d["case"]]}
    known_lines = known(prop)
    code, line = 0, None
    if s and s.get("violation"):
        code, line = 1, f"VIOLATION property={prop} replay={replay}"
    elif failed:
        json.dump({"property": prop, "kind": "failed obligation", "obligations": [f for _, f in failed],
                   "verifier_output": {r["unit"]: r.get("output", "") for r, _ in failed},
                   "command": [r["checker_cmd"] for r, _ in failed],
                   "note": "the verifier discharges this obligation on the unchanged tree; no failing input was found"}, open(replay, "w"), indent=1)
        code, line = 1, f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    elif not proved and not (s and "evaluations" in s):
        print("error: neither the verifier nor the search gave an answer:", (s or {}).get("error", ""), "; ".join(r["why"] for r in structural))
        code = 2
    level = pl["level"] if proved or not units else "exploration"
    cov = {}
    if units:
        cov.update({
            "obligations": sum(r["obligations"] for r in results), "discharged": sum(r["discharged"] for r in results),
            "checker_cmd": " ; ".join(r["checker_cmd"] for r in results) or "verus",
            "trusted_base": sorted({t for r in results for t in r["trusted"]}),
            "functions_under_contract": {r["unit"]: r["functions"] for r in results},
            "backend": "Verus 0.2026.09.13 (Z3)", "smt_s": round(sum(r["smt_s"] for r in results), 2),
            "units": {r["unit"]: {"status": r["status"], "why": r["why"], "obligations": r["obligations"], "discharged": r["discharged"],
                                  "failed": r["failed"], "vacuity": vac.get(r["unit"]), "extraction_rules": r.get("rewrites", [])} for r in results},
            "decided_by_proof": pl.get("proved", ""), "not_under_contract": pl.get("bounded", ""),
        })
    if s and "evaluations" in s:
        b = {k: s.get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "samples")}
        if units and level == "proof":
            cov["bounded_supplement"] = dict(b, label="bounded, not counted as proved", seconds=secs)
        else:
            cov.update(b)
            if units:
                cov["note"] = "obligations undecided on this tree; the bounded search below stands in" if structural else ""
    if not cov:
        cov = {"explanation": "no answer"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": pl.get("assumptions", []) + plan.get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": 1 if code == 1 else 0}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    for k in known_lines:
        print("KNOWN-FINDING: " + k)
    for r in results:
        print(f"unit {r['unit']}: {r['status']} {r['discharged']}/{r['obligations']} obligations, {len(r['functions'])} functions under contract, smt {r['smt_s']:.1f} s" + (f" ({r['why'][:300]})" if r["why"] else ""))
        for f in r["failed"]:
            print(f"  failed: {f['fn']}: {f['message']}: {f['text'][:120]} {f['properties']}")
    if s and "evaluations" in s:
        print(f"search: {s['evaluations']} cases, {s['distinct_nontrivial']} distinct non-trivial" + (f"; FAILS: {s['violation']['message'][:400]}" if s.get("violation") else ""))
    elif s:
        print("search: " + s["error"])
    if line:
        print(line)
    sys.exit(code)


main()
