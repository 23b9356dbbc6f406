#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: extracts the real functions of /repo together with their contracts, has Verus
discharge every obligation, probes the contracts for vacuity, and runs the same contract executably
(bounded) against the real crates in search of a concrete failing input."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RV_REPO", "/repo")
TGT = os.path.join(V, "target")
sys.path.insert(0, os.path.join(V, "tools"))
from props_config import PROPS  # noqa: E402

UNDECIDED_MSG = re.compile(r"resource limit|rlimit|could not be verified due to|not supported|unsupported|while loop: Resource", re.I)


def run(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")


def build_extractor():
    rc, o, e = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "extract"),
                   env={"CARGO_TARGET_DIR": os.path.join(TGT, "extract"), "CARGO_NET_OFFLINE": "true"}, timeout=600)
    return rc, o + e


def build_harness():
    rc, o, e = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"),
                   env={"CARGO_TARGET_DIR": os.path.join(TGT, "harness"), "CARGO_NET_OFFLINE": "true",
                        "RUSTUP_TOOLCHAIN": "1.78.0", "RUSTFLAGS": "-Awarnings"}, timeout=800)
    return rc, o + e


def extract(unit, vacuity=False):
    d = os.path.join(TGT, "units", str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, unit + ("_vac" if vacuity else ""))
    rc, o, e = run([os.path.join(TGT, "extract/debug/rv-extract"), os.path.join(V, "contracts", f"u_{unit}.vc"), REPO,
                    base + ".rs", base + ".json"], env={"RV_VACUITY": "1"} if vacuity else None, timeout=60)
    if rc != 0:
        return None, base + ".rs", o + e
    return json.load(open(base + ".json")), base + ".rs", ""


def narrow(rs, ex, prop):
    """The vacuity probes of this property's functions only; what the main run verifies is not verified again (line numbers stay)."""
    mine = {n for n, ps in ex["props"].items() if prop in ps}
    out = []
    for l in open(rs).read().splitlines():
        if "//vac: " in l and l.split("//vac: ")[1].strip() not in mine:
            l = l.replace("assert(false);", "assume(false);").split("//vac: ")[0]
        elif re.match(r"(pub )?(broadcast )?proof fn ", l):
            l = "#[verifier::external_body] " + l
        out.append(l)
    open(rs, "w").write("\n".join(out) + "\n")


def verus(rs, errors="4", rlimit="30", timeout=700):
    cmd = ["verus", os.path.basename(rs), "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", errors, "--rlimit", rlimit, "--num-threads", "4"]
    t = time.time()
    rc, out, err = run(cmd, cwd=os.path.dirname(rs), timeout=timeout)
    wall = time.time() - t
    try:
        j = json.loads(out)
    except Exception:
        j = {}
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    return {"rc": rc, "json": j, "diags": diags, "stderr": err, "wall": wall, "cmd": "verus " + " ".join(cmd[1:])}


def breakdown(vr):
    res = []
    t = vr["json"].get("times-ms", {}).get("smt", {})
    for m in t.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            res.append(f)
    return res


def fn_at(fns, line):
    best = None
    for n, a, b in fns:
        if a <= line <= b and (best is None or a >= best[1]):
            best = (n, a, b)
    return best[0] if best else None


def text_fn_at(lines, line):
    """Name of the lemma or spec function of the contract text that contains a line."""
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:open |closed )?(?:proof|spec|exec)? ?fn (\w+)", lines[i])
        if m:
            return m.group(1)
    return None


try:
    SHAPES = json.load(open(os.path.join(V, "contracts", "shape.json")))
except OSError:
    SHAPES = {}


def analyse(unit, prop, ex, rs, vr):
    """Splits the outcome of a Verus run into failed obligations of this property and reasons for no decision."""
    failed, undecided = [], []
    if ex is None:
        return failed, ["extraction failed: " + vr]
    for l in ex["lost"]:
        undecided.append("lost anchor: " + l)
    for l in ex["uncontracted"]:
        undecided.append("function without contract in a verified region: " + l)
    if vr["rc"] == 124:
        undecided.append("verifier timed out")
    lines = open(rs).read().splitlines()
    tags = {l: t for l, t in ex["tags"]}
    res = vr["json"].get("verification-results", {})
    if not vr["json"] or res.get("encountered-vir-error"):
        msgs = [d["message"] for d in vr["diags"] if d.get("level") == "error"]
        undecided.append("verifier could not process the extracted code: " + "; ".join(msgs[:3]) + (vr["stderr"][-400:] if not msgs else ""))
        return failed, undecided
    for d in vr["diags"]:
        if d.get("level") != "error":
            continue
        if d["message"].startswith("aborting due to"):
            continue
        if d.get("code"):
            undecided.append("compile error: " + d["message"])
            continue
        spans = d.get("spans", [])
        if not spans:
            undecided.append(d["message"])
            continue
        where = [s["line_start"] for s in spans if s["file_name"].endswith(os.path.basename(rs))]
        prim = [s["line_start"] for s in spans if s.get("is_primary") and s["file_name"].endswith(os.path.basename(rs))]
        fn = None
        for l in prim + where:
            fn = fn or fn_at(ex["fns"], l)
        tg = set()
        for l in where:
            tg.update(tags.get(l, []))
        if UNDECIDED_MSG.search(d["message"]):
            undecided.append(f"{fn}: {d['message']}")
            continue
        if fn is not None:
            props = set(ex["props"].get(fn, []))
            cand = tg & (props | set(PROPS)) if tg else props
        else:
            tf = text_fn_at(lines, (prim + where + [1])[0])
            fn = "lemma " + str(tf)
            cand = set(ex["text_fn_props"].get(str(tf), []))
            undecided.append(f"{fn}: {d['message']}")
            continue
        if prop in cand and fn in SHAPES.get(unit, {}) and SHAPES[unit][fn] != ex.get("shapes", {}).get(fn):
            # the loops or closures that carry the contract's invariants are not the ones the contract was written for
            undecided.append(f"lost anchor: {fn} was restructured (loops, closures: {SHAPES[unit][fn]} -> {ex.get('shapes', {}).get(fn)}), its invariants do not apply: {d['message']}")
            continue
        if prop in cand:
            clause = [lines[l - 1].strip() for l in where if l <= len(lines)]
            failed.append({"unit": unit, "function": fn, "obligation": d["message"], "at": clause, "rendered": d.get("rendered", "")})
    if not failed and res.get("errors", 0) == 0 and res.get("verified", 0) == 0 and vr["rc"] != 124:
        undecided.append("verifier verified nothing")
    return failed, undecided


def trusted_scan(rs):
    """Every assumption in the text given to the verifier."""
    out = []
    lines = open(rs).read().splitlines()
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\badmit\s*\(|\bassume\s*\(", s):
            out.append("assumption: " + s)
        elif re.search(r"assume_specification|external_body|\baxiom fn\b|external_type_specification|external_trait_specification|uninterp spec fn", s):
            k = i + 1
            while k < min(i + 6, len(lines)) and not re.search(r"[;{}]\s*$|ensures", lines[k - 1]) and lines[k].strip():
                k += 1
            out.append(re.sub(r"\s+", " ", " ".join(x.strip() for x in lines[i:k]))[:400])
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    known = json.load(open(os.path.join(V, "known_findings.json")))
    keys = [k["key"] for k in known["findings"] if k["property"] == prop]
    budget = cfg.get("budget", {"quick": 20, "thorough": 240})[tier]
    units = cfg["units"]

    def proof_side():
        rc, o = build_extractor()
        if rc != 0:
            return {"error": "extractor does not build: " + o[-1500:]}
        jobs = {}
        with cf.ThreadPoolExecutor(max_workers=3) as ex:
            for u in units:
                def one(u=u):
                    e, rs, msg = extract(u)
                    if e is None:
                        return {"unit": u, "ex": None, "rs": rs, "vr": msg}
                    return {"unit": u, "ex": e, "rs": rs, "vr": verus(rs)}

                def vac(u=u):
                    e, rs, msg = extract(u, True)
                    if e is None:
                        return None
                    narrow(rs, e, prop)
                    return {"ex": e, "rs": rs, "vr": verus(rs, "0", "5")}
                jobs[u] = (ex.submit(one), ex.submit(vac))
            return {"units": {u: (a.result(), b.result()) for u, (a, b) in jobs.items()}}

    def bounded_side():
        rc, o = build_harness()
        if rc != 0:
            return {"error": "bounded harness does not build against /repo: " + o[-3000:]}
        exe = os.path.join(TGT, "harness/debug/rv-harness")
        rc, out, err = run([exe, prop, str(seed), tier, str(budget), *keys], timeout=budget + 240)
        line = next((l for l in reversed(out.splitlines()) if l.startswith("{")), None)
        if line is None:
            return {"crash": f"the bounded check ended with status {rc} and no report: {err[-1500:]}", "rc": rc}
        return {"report": json.loads(line), "cmd": f"{exe} {prop} {seed} {tier} {budget} {' '.join(keys)}"}

    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        pf, bf = ex.submit(proof_side), ex.submit(bounded_side)
        proof, bounded = pf.result(), bf.result()

    failed, undecided, fns, trusted, edits, substs, dropped = [], [], [], [], {}, [], []
    obligations = discharged = 0
    smt_ms = 0
    vac_ok, vac_bad = [], []
    cmds = []
    raw = {}
    if "error" in proof:
        undecided.append(proof["error"])
    else:
        for u, (r, vc) in proof["units"].items():
            f, un = analyse(u, prop, r["ex"], r["rs"], r["vr"])
            failed += f
            undecided += [f"[{u}] {x}" for x in un]
            if r["ex"] is None:
                continue
            raw[u] = r["vr"]["stderr"][-20000:]
            cmds.append(r["vr"]["cmd"])
            mine = {n for n, ps in r["ex"]["props"].items() if prop in ps}
            fns += sorted(f"{n} ({u})" for n in mine)
            bd = breakdown(r["vr"])
            obligations += len(bd)
            discharged += sum(1 for b in bd if b["success"])
            smt_ms += sum(b.get("time-micros", 0) for b in bd) / 1000.0
            trusted += [t for t in trusted_scan(r["rs"]) if t not in trusted]
            for k, n in r["ex"]["edits"].items():
                edits[k] = edits.get(k, 0) + n
            substs += [s for s in r["ex"]["substs"] if s not in substs]
            dropped += [s for s in r["ex"]["dropped"] if s not in dropped]
            # vacuity: every probe at the entry of a function under contract has to fail
            if vc and vc["vr"]["json"]:
                lines = open(vc["rs"]).read().splitlines()
                probes = {i + 1: l.split("//vac: ")[1].strip() for i, l in enumerate(lines) if "//vac: " in l}
                hit = set()
                for d in vc["vr"]["diags"]:
                    if d.get("level") == "error":
                        for s in d.get("spans", []):
                            if s["line_start"] in probes:
                                hit.add(s["line_start"])
                for l, n in probes.items():
                    if n.startswith("rt_"):
                        continue
                    (vac_ok if l in hit else vac_bad).append(n)
                if vac_bad:
                    undecided.append(f"[{u}] vacuity probe: entry unreachable under the precondition of {vac_bad[:5]}")
            else:
                undecided.append(f"[{u}] vacuity probe did not run")

    viol = None
    rep = bounded.get("report")
    if rep and rep.get("violation"):
        v = rep["violation"]
        viol = {"kind": "failing input", "key": v["key"], "case": v["case"], "what": v["what"], "replay_cmd": bounded["cmd"],
                "failed_obligations": failed}
    elif "crash" in bounded:
        viol = {"kind": "failing input", "key": "crash", "case": "see what", "what": bounded["crash"], "failed_obligations": failed}
    blocking = [x for x in undecided if "lost anchor" in x or "without contract" in x or "could not process" in x or "compile error" in x
                or "extraction failed" in x or "does not build" in x]
    no_input = False
    if viol is None and failed and not blocking:
        viol = {"kind": "failed obligation", "failed_obligations": failed, "verifier_output": raw}
        no_input = True

    trusted += cfg.get("assumptions", [])
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " && ".join(cmds) or "none", "trusted_base": trusted,
        "backend": "Verus 0.2026.09.13 with Z3 (SMT)", "solver_ms": round(smt_ms, 1),
        "functions_under_contract": fns,
        "failed_obligations": [f"{f['function']}: {f['obligation']} {f['at']}" for f in failed],
        "undecided": undecided,
        "vacuity_probes": {"reachable": len(vac_ok), "unreachable": vac_bad},
        "extraction": {"edits": edits, "substitutions": substs, "not_taken": len(dropped)},
        "not_proved_here": cfg.get("not_proved", []),
    }
    if rep:
        cov["bounded"] = {"label": "bounded, not counted as proved", "rules": rep["rules"], "exhaustive_parts": rep["exhaustive_parts"],
                          "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"], "samples": rep["samples"]}
        cov["evaluations"] = rep["evaluations"]
        cov["distinct_nontrivial"] = rep["distinct_nontrivial"]
        cov["samples"] = rep["samples"]
        cov["rule"] = " | ".join(rep["rules"])
    elif "error" in bounded:
        cov["bounded"] = {"label": "did not run", "why": bounded["error"][-800:]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, w in (rep or {}).get("known", []):
        what = next((x["what"] for x in known["findings"] if x["key"] == k and x["property"] == prop), w)
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viol:
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        path = os.path.join(V, "replay", f"{prop}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **viol}, f, indent=1)
        for f_ in failed:
            print(f"failed obligation: {f_['function']}: {f_['obligation']}")
        if not no_input:
            print(f"failing input: {viol.get('case', '')[:600]}: {viol.get('what', '')[:600]}")
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if no_input else ""))
        return 1
    for x in undecided:
        print("undecided:", x[:400])
    if "error" in bounded:
        if "error" not in proof and not failed and not undecided:
            print("note: " + bounded["error"][-400:])
            return 0
        print("no answer: " + bounded["error"][-1200:])
        return 2
    print(f"{prop}: held; {discharged}/{obligations} obligations discharged, {len(fns)} functions under contract, "
          f"{rep['evaluations']} bounded evaluations, {time.time()-t0:.0f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
