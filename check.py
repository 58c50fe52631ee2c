#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   (see DESIGN.md, section "The check")

1. vx extracts the functions under contract from /repo's current working tree into one Verus file.
2. verus decides every obligation of the functions that PROP owns, and of everything they call.
3. A failed obligation of an owned function is a violation; the harness then searches an input of the real crate that shows it.
4. Functions without a contract, or whose contract cannot be applied to the changed text, get the bounded stand-in (the harness).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HMATH_REPO", "/repo")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
T0 = time.time()

def run(cmd, timeout=None, cwd=None, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return subprocess.CompletedProcess(cmd, 124, d(e.stdout), d(e.stderr) + "\ntimeout")

def log(*a): print("[%6.1f]" % (time.time() - T0), *a, flush=True)

def build():
    ps = []
    for d, args in (("vx", ["--release"]), ("harness", ["--release"])):
        cmd = ["cargo", "build", "--offline", "-q"] + args
        ps.append((d, subprocess.Popen(cmd, cwd=os.path.join(V, d), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = {}
    for d, p in ps:
        o, _ = p.communicate()
        ok[d] = p.returncode == 0
        if p.returncode: log("build of", d, "failed:\n", o[-3000:])
    return ok

class Verifier:
    def __init__(self, work, prop):
        self.work, self.prop, self.vx = work, prop, os.path.join(V, "vx/target/release/vx")
        self.base = os.path.join(V, "baseline.json")
        self.runs = []

    def gen(self, tag, external, focus=None, vac=False, noiso=None):
        g, m = os.path.join(self.work, tag + ".rs"), os.path.join(self.work, tag + ".json")
        cmd = [self.vx, "gen", "--src", REPO + "/src", "--ann", V + "/contracts", "--baseline", self.base, "--prop", self.prop, "--out", g, "--map", m]
        if external: cmd += ["--external", ",".join(sorted(external))]
        if focus: cmd += ["--focus", ",".join(sorted(focus))]
        if noiso: cmd += ["--noiso", ",".join(sorted(noiso))]
        if vac: cmd += ["--vacuity"]
        r = run(cmd, timeout=120)
        if r.returncode: raise RuntimeError("vx failed: " + r.stderr[-2000:])
        return g, json.load(open(m))

    def verus(self, g, extra=(), timeout=600):
        cmd = ["verus", g, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4", "--triggers-mode", "silent", "--num-threads", "8"] + list(extra)
        t = time.time()
        r = run(cmd, timeout=timeout, cwd=self.work)
        res = {"cmd": " ".join(cmd), "wall_s": round(time.time() - t, 1), "rc": r.returncode, "errors": [], "notes": []}
        try: res["json"] = json.loads(r.stdout)
        except Exception: res["json"] = {}
        for l in r.stderr.splitlines():
            if l.startswith("{"):
                try: j = json.loads(l)
                except Exception: continue
                if j.get("level") == "error" and j["spans"]: res["errors"].append(j)
                elif j.get("level") == "error" and not j["message"].startswith("aborting"): res["notes"].append(j["message"])
        vr = res["json"].get("verification-results", {})
        res["verified"], res["nerr"] = vr.get("verified", 0), vr.get("errors", 0)
        # a compile-level error stops everything before the first query
        res["compiled"] = bool(vr) and not vr.get("encountered-vir-error") and (vr.get("success") or vr.get("errors", 0) > 0)
        fns = {}
        for m in res["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                e = fns.setdefault(f["function"], {"time_ms": 0, "ok": True, "mode": f.get("mode:")})
                e["time_ms"] += f["time-micros"] / 1000; e["ok"] &= f["success"]
        res["fns"] = fns
        res["smt_ms"] = res["json"].get("times-ms", {}).get("smt", {}).get("total", 0)
        self.runs.append({"cmd": res["cmd"].replace(self.work, "$WORK"), "wall_s": res["wall_s"], "verified": res["verified"], "errors": res["nerr"], "smt_ms": res["smt_ms"]})
        return res

def owner(mp, line):
    for k, f in mp["functions"].items():
        if f["start"] <= line <= f["end"]: return k
    return None

def render(j):
    return j.get("rendered") or j["message"]

def attribute(res, mp):
    """verus diagnostics -> {function: [diagnostic text]}, [unattributed]"""
    by, rest = {}, []
    canon = res.setdefault("canon", set())
    for j in res["errors"]:
        ks = []
        for s in sorted(j["spans"], key=lambda s: not s["is_primary"]):
            k = owner(mp, s["line_start"])
            if k and k not in ks: ks.append(k)
        failed = []
        for k in ks:
            nm = mp["functions"][k].get("name") or k.split("@")[0].split("::")[-1]
            if any((n.endswith("::" + nm)) and not v["ok"] for n, v in res["fns"].items()): failed.append(k)
        if len(ks) > 1 and "precondition" in j["message"]:
            # the primary span is the failed clause or the call: the body that contains a call fails, the callee only lends its clause
            pr = [owner(mp, s["line_start"]) for s in j["spans"]]
            body = [k for k in pr if k in failed]
            k = (body or pr)[0]
            calls = [owner(mp, s["line_start"]) for s in j["spans"] if not (s.get("label") or "").startswith("failed precondition")]
            calls = [c for c in calls if c]
            k = calls[0] if calls else k
        else:
            k = (failed or ks or [None])[0]
        # does the failed clause speak about the canonical form?
        if k and any(re.search(r"\bwf\(\)|canon\(", t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1]) for s in j["spans"] for t in s["text"]): canon.add(k)
        (by.setdefault(k, []) if k else rest).append(render(j))
    return by, rest

def verify(prop, work, tier):
    ver = Verifier(work, prop)
    external, why, failed = set(), {}, {}
    g, mp = ver.gen("p", external)
    base = json.load(open(ver.base))
    out = {"bounded": {}, "failed": {}, "notes": [], "ver": ver}
    if base.get("#types") != mp["types"]:
        ch = [t for t in set(base["#types"]) | set(mp["types"]) if base["#types"].get(t) != mp["types"].get(t) and re.search(r"struct (UBigInt|BigInt|Ratio|Matrix|Polynomial|F192)\b", base["#types"].get(t, ""))]
        if ch:
            out["notes"].append("type definitions changed: " + ", ".join(ch))
            external = set(mp["functions"])
            why = {k: "the definition of a data type changed" for k in external}
            g, mp = ver.gen("p", external)
    for k, f in mp["functions"].items():
        if f["lost"]: why[k] = "; ".join(f["lost"])
    for k in mp["missing"]: why[k] = "function not found in the source"
    # missing functions: their callers cannot be compiled against them, so they become bounded in the loop below
    res = None
    for rnd in range(12):
        res = ver.verus(g)
        if res["compiled"] or not res["errors"]: break
        by, rest = attribute(res, mp)
        new = {k for k in by if k not in external}
        if not new:
            out["notes"].append("verus rejects the generated file: " + (rest + ["?"])[0][:500])
            new = {k for k in mp["functions"] if k not in external and mp["functions"][k].get("changed")}
            if not new: break
        for k in new: why[k] = "outside the verifier's subset: " + by.get(k, ["?"])[0].strip().splitlines()[0][:300]
        log("not within the verifier's reach:", ", ".join(sorted(new)))
        external |= new
        g, mp = ver.gen("p", external)
    out["mp"], out["g"] = mp, g
    if not res["compiled"]:
        out["notes"].append("no verdict from verus; every function falls back to the bounded check")
        for k in mp["functions"]: why.setdefault(k, "no verdict from verus")
        out["bounded"], out["res"] = why, res
        return out
    by, rest = attribute(res, mp)
    if res["nerr"] and (by or rest):
        failed = dict(by)
        log("obligations rejected in:", ", ".join(sorted(failed)) or rest[0][:300])
        # second opinion: more resources, loops that keep the facts of the code around them (a rewritten loop may need them), another solver seed
        for i, extra in enumerate((["--rlimit", "60"], ["--rlimit", "60"], ["--rlimit", "60", "--smt-option", "smt.random_seed=7"])):
            noiso = {k for k in failed if mp["functions"][k].get("changed")} if i == 1 else None
            if not failed or (i == 1 and not noiso): continue
            g2, mp2 = ver.gen("retry%d" % i, external, focus=set(failed), noiso=noiso)
            r2 = ver.verus(g2, extra, timeout=240)
            if not r2["compiled"]: continue
            by2, rest2 = attribute(r2, mp2)
            for k in list(failed):
                if k in by2: failed[k] = by2[k]; res["canon"] |= r2["canon"]
                elif r2["rc"] in (0, 1): failed.pop(k); log("accepted on retry:", k)
        if rest and not failed: out["notes"].append("lemma failed: " + rest[0][:500])
    for k in list(failed):
        soft = mp["functions"][k].get("soft") or []
        if soft:
            why[k] = "contract not applicable to the rewritten text (%s)" % "; ".join(soft[:3])
            failed.pop(k)
    out["failed"], out["bounded"], out["res"], out["external"] = failed, why, res, external
    return out

def harness(prop, work, secs, seed, extra=()):
    out = os.path.join(work, "h.json")
    if os.path.exists(out): os.remove(out)
    b = os.path.join(V, "harness/target/release/harness")
    r = run([b, prop, "--secs", str(secs), "--seed", str(seed), "--threads", "8", "--dict", work + "/dict", "--hot", work + "/hot", "--out", out] + list(extra), timeout=secs + 200)
    try: return json.load(open(out))
    except Exception: return {"iterations": 0, "cases": {}, "failures": [{"case": "harness", "inputs": "", "what": "the harness died: rc %s %s" % (r.returncode, r.stderr[-1500:]), "state": "0,0,0"}]} if r.returncode not in (0, 124) else {"iterations": 0, "cases": {}, "failures": []}

def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props = {}
    for l in open(V + "/properties.jsonl"):
        if l.strip(): d = json.loads(l); props[d["id"]] = d
    man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    work = tempfile.mkdtemp(prefix="hv-%s-" % prop)
    try: rc = check(prop, tier, seed, work, man.get(prop, {}))
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def lits(vx): return set(run([vx, "lits", "--src", REPO + "/src"]).stdout.split())

def check(prop, tier, seed, work, man):
    ok = build()
    if not ok["vx"]: log("vx does not build: broken sandbox"); return 2
    log("built")
    base_l = set(open(V + "/baseline.lits").read().split())
    cur = lits(V + "/vx/target/release/vx")
    open(work + "/dict", "w").write("\n".join(sorted(cur)))
    open(work + "/hot", "w").write("\n".join(sorted(cur - base_l)))
    out = verify(prop, work, tier)
    mp, failed, bounded, res = out["mp"], out["failed"], out["bounded"], out["res"]
    fns = mp["functions"]
    weak = {k for k, f in fns.items() if prop + "~" in f["props"]}
    owned = sorted(k for k, f in fns.items() if prop in f["props"] or k in weak)
    log("verus: %d accepted, %d rejected" % (res["verified"], res["nerr"]))
    own_failed = {k: v for k, v in failed.items() if prop in fns[k]["props"] or (k in weak and k in res["canon"])}
    dep_failed = {k: v for k, v in failed.items() if k not in own_failed}
    vac = None
    if tier == "thorough" and res["compiled"]:
        g, m2 = out["ver"].gen("vac", out.get("external", set()), vac=True)
        r = out["ver"].verus(g, timeout=1200)
        by, _ = attribute(r, m2)
        cand = [k for k, f in m2["functions"].items() if not f["external"] and k not in mp["missing"]]
        vac = {"checked": len(cand), "vacuous": sorted(k for k in cand if k not in by)}
        log("vacuity: %d contracts checked, vacuous: %s" % (vac["checked"], vac["vacuous"]))
    secs = {"quick": 25, "thorough": 240}[tier]
    if own_failed or (dep_failed or any(k in bounded for k in owned)): secs = max(secs, 60)
    if own_failed: secs = max(secs, 120)
    dyn = {"iterations": 0, "cases": {}, "failures": []}
    dyn_err = None
    if ok["harness"]:
        log("running the harness for", secs, "s")
        dyn = harness(prop, work, secs, seed)
    else: dyn_err = "the harness does not build against this tree"
    log("harness: %d executions, %d failures" % (dyn["iterations"], len(dyn["failures"])))
    known = []
    kf = V + "/known-findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip() and not l.startswith("fixed:") and not l.startswith("#"):
                d = json.loads(l)
                if d["property"] == prop: known.append(d)
    for d in known: print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    viol = []
    fresh = [f for f in dyn["failures"] if not any(d.get("case") == f["case"] and re.search(d.get("match", "$^"), f["inputs"] + f["what"]) for d in known)]
    # a contract the proof rests on is rejected: confirm it with the harness of the property that owns it
    dep_fresh = []
    if ok["harness"] and dep_failed and not fresh and not own_failed:
        for o in sorted({p for k in dep_failed if k not in weak for p in fns[k]["props"] if not p.endswith("~") and p != prop})[:4]:
            log("a callee's contract is rejected; searching an input with the harness of", o)
            d = harness(o, work, 45, seed)
            for f in d["failures"]: dep_fresh.append(dict(f, property=o))
            if dep_fresh: break
    if fresh or own_failed or dep_fresh:
        os.makedirs(V + "/replay", exist_ok=True)
        path = V + "/replay/%s.json" % prop
        rep = {"property": prop, "failed_obligations": own_failed, "failed_in_dependencies": dep_failed, "failing_inputs": fresh, "failing_inputs_of_callees": dep_fresh,
               "replay": ["%s %s --case %s --state %s --dict DICT --hot HOT" % ("/verif/harness/target/release/harness", f.get("property", prop), f["case"], f.get("state")) for f in (fresh + dep_fresh)[:1]],
               "dict": sorted(cur), "hot": sorted(cur - base_l), "note": "dict/hot: write one literal per line into the two files named DICT and HOT"}
        json.dump(rep, open(path, "w"), indent=1)
        for k, v in own_failed.items(): print("FAILED OBLIGATION in %s (%s:%s)\n%s" % (k, fns[k].get("file"), fns[k].get("line"), "\n".join(v[:2])[:2500]))
        if dep_fresh:
            for k, v in dep_failed.items(): print("FAILED OBLIGATION in the callee %s (%s:%s)\n%s" % (k, fns[k].get("file"), fns[k].get("line"), "\n".join(v[:2])[:2500]))
        for f in (fresh + dep_fresh)[:3]: print("FAILING INPUT case=%s inputs=%s\n   %s" % (f["case"], f["inputs"][:600], f["what"][:600]))
        viol.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if fresh or dep_fresh else " no-failing-input-found"))
    names = lambda k: k.split("@")[0]
    proved = [k for k in owned if k not in failed and k not in bounded and not fns[k]["external"]]
    nobl = res["verified"] + res["nerr"]
    gen = open(out["g"]).read()
    trusted = sorted(set(re.findall(r"assume_specification[^\[]*\[([^\]]*)\]", gen)))
    helpers = sorted(set(re.findall(r"external_body\]\s*\n?\s*pub fn (vx_\w+)", gen)))
    axioms = sorted(set(re.findall(r"external_body\]\s*\n\s*pub (?:broadcast )?proof fn (\w+)", gen)))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": man.get("level", "proof"),
          "coverage": {
              "obligations": nobl, "discharged": res["verified"],
              "checker_cmd": out["ver"].runs[0]["cmd"] if out["ver"].runs else "",
              "back_end": "verus 0.2026.09.13 / Z3",
              "solver_ms": res["smt_ms"],
              "functions_under_contract": len(owned), "functions_proved": proved,
              "callees_proved_in_the_same_run": len([k for k in fns if k not in owned and k not in failed and k not in bounded and not fns[k]["external"]]),
              "bounded_stand_in": {k: v for k, v in bounded.items() if k in owned},
              "dependency_contracts_assumed": {**{k: v for k, v in bounded.items() if k not in owned}, **{k: "obligation rejected; reported by its own check (%s)" % ",".join(fns[k]["props"]) for k in dep_failed}},
              "trusted_base": ["the vx extraction (normalisations N1..N27)", "rustc, verus, Z3"] + ["std: " + t for t in trusted] + ["assumed contract of the helper " + h for h in helpers] + ["axiom: " + a for a in axioms] + ["trusted function: " + k for k, f in fns.items() if f["trusted"]],
              "harness": {"role": "bounded: failing-input search and stand-in for functions without a contract", "executions": dyn["iterations"], "seconds": secs, "cases": dyn["cases"], "error": dyn_err},
              "vacuity": vac, "verus_runs": out["ver"].runs, "notes": out["notes"]},
          "assumptions": ["usize is 64 bits", "a Vec<u32> holds fewer than 2^55 elements (axiom_len)", "allocation does not fail", "`requires` of panicking entry points (division by zero, negative sqrt ...) describe the documented domain"],
          "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for v in viol: print(v)
    log("done:", "VIOLATION" if viol else "held", "- %d functions proved, %d bounded" % (len(proved), len([k for k in owned if k in bounded])))
    return 1 if viol else 0

main()
