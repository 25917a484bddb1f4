#!/usr/bin/env python3
"""vp.py check <property> quick|thorough     decide one property on /repo's working tree
   vp.py setup                               build the extractor and the replay program
   vp.py units [unit..]                      verify whole units, print what fails (development)"""
import sys, os, re, json, subprocess, threading, time, hashlib, glob, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble, replay_build
from props import PROPS, ONLY, TEXT, UNITS

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
BUILD = os.path.join(V, "build")
OUT = os.path.join(BUILD, "out")
REPO = "/repo"
CANARY = "canary__"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_extractor():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "extract"), CARGO_NET_OFFLINE="true")
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "extract"), env=env)
    if r.returncode:
        raise SystemExit("extractor does not build:\n" + r.stderr[-3000:])
    return os.path.join(BUILD, "extract", "release", "extract")


def extract():
    exe = build_extractor()
    out = os.path.join(OUT, "extract-%d.json" % os.getpid())
    known = os.path.join(OUT, "known-%d.txt" % os.getpid())
    open(known, "w").write("\n".join(sorted(assemble.known_keys())) + "\n")
    r = sh([exe, os.path.join(REPO, "src"), out, known])
    if r.returncode:
        return None, r.stderr[-3000:]
    x = json.load(open(out))
    os.remove(out)
    os.remove(known)
    return x, None


class Err:
    def __init__(self, kind, key, line, text, rendered):
        self.kind, self.key, self.line, self.text, self.rendered = kind, key, line, text, rendered


def enclosing_proof(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", lines[i])
        if m:
            return "proof " + m.group(1)
        if lines[i].startswith("// extracted:"):
            return None
    return None


def run_verus(unit, text, rlimit, tag, extra=()):
    f = os.path.join(OUT, "%s-%s-%d.rs" % (unit, tag, os.getpid()))
    open(f, "w").write(text)
    cache = None
    if os.environ.get("VP_CACHE"):
        cache = os.path.join(BUILD, "cache", hashlib.sha256((text + str(rlimit) + " ".join(extra)).encode()).hexdigest())
        if os.path.exists(cache):
            os.remove(f)
            return json.load(open(cache))
    t = time.time()
    p = sh(["timeout", "600", "verus", f, "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--num-threads", "8", *extra], cwd=OUT)
    wall = time.time() - t
    try:
        res = json.loads(p.stdout)
    except Exception:
        res = {}
    diags = []
    for l in p.stderr.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error":
                diags.append(d)
    vr = res.get("verification-results", {})
    times = res.get("times-ms", {})
    r = {"diags": diags, "verified": vr.get("verified"), "errors": vr.get("errors"), "wall": wall, "rc": p.returncode,
         "smt_ms": (times.get("smt") or {}).get("total"), "stderr": p.stderr[-2000:] if not diags else "", "vir_error": vr.get("encountered-vir-error"),
         "func": sorted(((k, v) for m in (times.get("smt") or {}).get("smt-run-module-times", []) for fb in m.get("function-breakdown", []) for k, v in [(fb["function"], fb.get("time-micros", fb.get("time", 0)))]), key=lambda x: -x[1])[:5]}
    if cache:
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        json.dump(r, open(cache, "w"))
    os.remove(f)
    return r


COMPILE = re.compile(r"^(precondition not satisfied|postcondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|possible bit shift|decreases not satisfied|loop invariant|recommendation|Resource limit|while loop: Resource|loop: Resource|for loop|failed|could not prove termination|unable to prove|index|cannot prove|arithmetic|constructed value|requires not satisfied|unwrap|ensures not satisfied|function body check|may fail|split assertion)", re.I)


def classify(msg):
    if "rlimit" in msg.lower() or "resource limit" in msg.lower():
        return "rlimit"
    if COMPILE.match(msg):
        return "proof"
    return "compile"


LOOSE = "#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]"
# an obligation that one of these discharges is discharged (the verifier is sound under each; they only search differently)
AGAIN = [(True, ()), (False, ("--smt-option", "smt.random_seed=7")), (True, ("--smt-option", "smt.random_seed=3")), (False, ("--smt-option", "smt.random_seed=11"))]


def try_again(unit, text, u, lines, errs, info, tag, rlimit):
    """what is left of the failures after further attempts at the same obligations"""
    left = set(e.key for e in errs)
    if "?" in left:
        return errs
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(AGAIN)) as ex:
        rs = list(ex.map(lambda a: run_verus(unit, text.replace(LOOSE, "\n") if a[1][0] else text, rlimit, "%s%d" % (tag, a[0]), a[1][1]), enumerate(AGAIN)))
    info["wall"] += max(r["wall"] for r in rs)
    for i, r in enumerate(rs):
        info["runs"] += 1
        info["smt_ms"] += r["smt_ms"] or 0
        if r["verified"] is None:
            continue
        still, ok = set(), True
        for d in r["diags"]:
            if d["message"].startswith("aborting due to") or not d.get("spans"):
                continue
            for s in [s for s in d["spans"] if "%s-%s%d" % (unit, tag, i) in s["file_name"]]:
                n = s["line_start"]
                still.add(u.locate(n) or enclosing_proof(lines, n) or "?")
            if classify(d["message"]) == "compile":
                ok = False
        if ok:
            done = left - still
            if done:
                info.setdefault("again", []).extend(sorted(done))
            left &= still
    return [e for e in errs if e.key in left]


def verify_unit(unit, ext, tag="q", rlimit=30):
    """assemble, verify; functions out of reach are assumed and the rest is verified again"""
    exempt = {}
    info = {"unit": unit, "exempt": exempt, "errors": [], "runs": 0, "wall": 0.0, "smt_ms": 0, "lost_unit": None}
    for attempt in range(8):
        u = assemble.Unit(unit + ".rs", ext, exempt)
        new = [(k, r) for k, r in u.lost if k not in exempt]
        if new:
            fresh = False
            for k, r in new:
                if k in ext["fns"] or u.find_moved(k):
                    exempt[k] = r
                    fresh = True
                else:
                    # the function is gone: whoever called it has another body now
                    exempt[k] = r
                    fresh = True
            if fresh and attempt < 7:
                continue
        text = u.text()
        lines = text.split("\n")
        r = run_verus(unit, text, rlimit if attempt == 0 or not info.get("escalate") else rlimit * 6, tag)
        info["runs"] += 1
        info["wall"] += r["wall"]
        info["smt_ms"] += r["smt_ms"] or 0
        info["u"] = u
        errs, comp = [], []
        for d in r["diags"]:
            msg = d["message"]
            if msg.startswith("aborting due to") or not d.get("spans"):
                if msg.startswith("aborting due to") or "previous error" in msg:
                    continue
                if not d.get("spans"):
                    comp.append((None, msg))
                    continue
            spans = [s for s in d["spans"] if s["file_name"].endswith(".rs") and "%s-%s" % (unit, tag) in s["file_name"]]
            # the function a diagnostic is about: where its primary span lies; a failed precondition's own text may lie elsewhere
            cand = [s["line_start"] for s in spans if s.get("is_primary")] + [s["line_start"] for s in spans]
            kind = classify(msg)
            keys = [u.locate(n) or enclosing_proof(lines, n) for n in cand]
            keys = [k for k in keys if k]
            if any(CANARY in lines[n - 1] or CANARY in (enclosing_proof(lines, n) or "") for n in cand if n <= len(lines)):
                info["canary"] = True
                continue
            # a callee's contract text is not where the failure is: prefer regions with a body
            key = keys[0] if keys else None
            n = cand[0] if cand else 0
            if msg.startswith("precondition") and len(cand) > 1:
                pass
            if kind == "compile":
                comp.append((key, msg + " @ " + (lines[n - 1].strip()[:160] if n else "")))
            else:
                errs.append(Err("rlimit" if kind == "rlimit" else msg, key or "?", n, "\n".join("  %d: %s" % (c, lines[c - 1].strip()[:200]) for c in dict.fromkeys(cand)), d.get("rendered", "")[:3000]))
        if comp:
            blamed = [k for k, _ in comp if k and not k.startswith("proof ")]
            fresh = False
            for k, m in comp:
                base = (k or "").split("#")[0]
                if k and not k.startswith("proof ") and base not in exempt:
                    exempt[base] = "not accepted by the verifier: " + m[:300]
                    fresh = True
            if fresh and attempt < 7:
                continue
            info["lost_unit"] = "; ".join(m for _, m in comp)[:1500]
            break
        if r["verified"] is None:
            info["lost_unit"] = "the verifier gave no result: " + r["stderr"][-800:]
            break
        rl = [e for e in errs if e.kind == "rlimit"]
        if rl:
            if not info.get("escalate"):
                info["escalate"] = True
                info["canary"] = False
                continue
            fresh = False
            for e in rl:
                base = e.key.split("#")[0]
                if base not in exempt and not base.startswith("proof"):
                    exempt[base] = "resource limit exceeded"
                    fresh = True
            if fresh and attempt < 7:
                info["canary"] = False
                continue
        if any(e.kind != "rlimit" for e in errs):
            errs = try_again(unit, text, u, lines, errs, info, tag, rlimit)
        info["errors"] = [e for e in errs if e.kind != "rlimit"]
        info["undecided"] = [e.key for e in rl]
        info["verified"] = r["verified"]
        info["failed"] = r["errors"] - (1 if info.get("canary") else 0)
        info["slowest"] = r["func"]
        break
    return info


def keys_of(prop, unit, u):
    pats = [re.compile(p) for p in PROPS[prop].get(unit, [])]
    return [k for k in u.keys + ["proof " + m for m in re.findall(r"proof fn (\w+)", u.text())] if any(p.search(k) for p in pats)]


def relevant(prop, unit, key, kind, text=None):
    if key.startswith("proof ") or key == "?":
        pats = [p for p in PROPS[prop].get(unit, []) if p.startswith("proof")]
        named = any(re.search(p, key) for q in PROPS.values() for p in q.get(unit, []) if p.startswith("proof"))
        # a lemma nobody names supports the whole unit
        return any(re.search(p, key) for p in pats) if named else bool(PROPS[prop].get(unit))
    if not any(re.search(p, key) for p in PROPS[prop].get(unit, [])):
        return False
    if text is not None:
        for k, t in TEXT.get(prop, []):
            if re.search(k, key):
                return re.search(t, kind + "\n" + text) is not None
    return re.search(ONLY[prop], kind) is not None if prop in ONLY else True


def replay(exe, prop, secs, seed, port):
    env = dict(os.environ, VP_PORT=str(port))
    try:
        p = subprocess.run([exe, "run", prop, str(secs), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=secs * 4 + 120)
    except subprocess.TimeoutExpired:
        return {"error": "replay did not end"}
    try:
        return json.loads([l for l in p.stdout.split("\n") if l.startswith("{")][-1])
    except Exception:
        # the process died: abort or stack overflow inside the code under test
        return {"error": "replay ended with %s" % p.returncode, "died": p.returncode}


def free_port():
    import socket
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def known_findings(prop):
    f = os.path.join(V, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) case=<(.*?)> (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def trusted_scan(units):
    """everything the proofs take on trust, found in the text that is verified"""
    ext_fn, assume, axioms = set(), set(), set()
    for u in units:
        t = u.text()
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:uninterp )?(?:broadcast )?(?:proof )?(fn|struct|enum) (\w+)", t):
            ext_fn.add(m.group(1) + " " + m.group(2))
        for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", t):
            if "verifier" not in m.group(1):
                assume.add(m.group(1))
        for m in re.finditer(r"(?:#\[verifier::external_body\]\s*)(?:pub )?(?:broadcast )?(?:axiom|proof) fn (\w+)", t):
            axioms.add(m.group(1))
        for m in re.finditer(r"(?:pub )?(?:broadcast )?axiom fn (\w+)", t):
            axioms.add(m.group(1))
        for m in re.finditer(r"\b(assume|admit)\(((?:[^()]|\([^()]*\))*)", t):
            if m.group(2).startswith("has_resolved(__w"):
                axioms.add("assume(has_resolved(__w)) before a return in a match with guards: nothing touches the world afterwards")
            elif m.group(0).startswith("assume") and u.splits:
                axioms.add("case splits of %s: one copy of the body per case, cases exhaustive by construction" % ", ".join(sorted(u.splits)))
            else:
                axioms.add("assume() in the text")
        for k in list(u.splits) + [k for _, k in u.imported]:
            ext_fn.discard("fn " + k.split("::")[-1])
    return sorted(ext_fn), sorted(assume), sorted(axioms)


def vacuity(unit, ext, exempt):
    """assert(false) at the start of every function under contract and of every loop body must fail"""
    u = assemble.Unit(unit + ".rs", ext, exempt, probe=True)
    # each loop by itself: a probe hides what comes after it
    text = u.text().replace(LOOSE, "\n")
    r = run_verus(unit, text, 30, "vac")
    lines = text.split("\n")
    probes = [i + 1 for i, l in enumerate(lines) if "/*probe*/" in l]
    failed = set()
    for d in r["diags"]:
        for s in d.get("spans", []):
            if s["line_start"] <= len(lines) and "/*probe*/" in lines[s["line_start"] - 1]:
                failed.add(s["line_start"])
    missing = [(u.locate(n), n) for n in probes if n not in failed]
    if r["verified"] is None:
        return len(probes), len(failed), ["vacuity run gave no result: " + r["stderr"][-300:]]
    return len(probes), len(failed), ["%s (line %d)" % m for m in missing]


def check(prop, tier):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    units = [u for u in PROPS[prop] if u in UNITS]
    res = {}
    rb = {}

    def do_replay_build():
        rb["exe"], rb["log"] = replay_build.build(REPO)
    th = threading.Thread(target=do_replay_build)
    th.start()
    ext, bad = extract()
    if ext is not None:
        ths = []
        for u in units:
            def go(u=u):
                res[u] = verify_unit(u, ext, prop)
            t = threading.Thread(target=go)
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
    th.join()
    fails, undecided, broken = [], [], []
    covered, all_keys = [], []
    for u in units:
        i = res.get(u)
        if i is None:
            undecided.append("%s: not extracted: %s" % (u, bad))
            continue
        if i["lost_unit"]:
            undecided.append("%s: unit not accepted: %s" % (u, i["lost_unit"]))
            continue
        if not i.get("canary"):
            broken.append("%s: the canary obligation (ensures false) was not refuted" % u)
        for k, why in i["exempt"].items():
            if any(re.search(p, k) for p in PROPS[prop].get(u, [])):
                undecided.append("%s: %s" % (k, why))
        for k in i.get("undecided", []):
            if relevant(prop, u, k, "rlimit"):
                undecided.append("%s: resource limit" % k)
        fails += [(u, e) for e in i["errors"] if relevant(prop, u, e.key, e.kind, e.text)]
        ks = keys_of(prop, u, i["u"])
        all_keys += [u + ": " + k for k in ks]
        bad_keys = set(e.key for e in i["errors"])
        covered += [u + ": " + k for k in ks if k not in bad_keys]
    # replay: the search for a failing input, and the bounded stand-in for what was not decided
    secs = {"quick": 12, "thorough": 150}[tier]
    if fails or undecided:
        secs = {"quick": 60, "thorough": 240}[tier]
    rep = {}
    if rb.get("exe"):
        rep = replay(rb["exe"], prop, secs, seed, free_port())
    vac = []
    if tier == "thorough" and ext is not None:
        for u in units:
            if res[u]["lost_unit"]:
                continue
            n, f, missing = vacuity(u, ext, res[u]["exempt"])
            vac.append({"unit": u, "probes": n, "refuted": f, "missing": missing})
            if missing:
                broken.append("%s: vacuous: %s" % (u, missing[:5]))
    # ---- verdict
    lines, code, nviol = [], 0, 0
    rfile = os.path.join(OUT, "%s.replay" % prop)
    case = (rep.get("fail") or {}).get("case")
    if case is None and rep.get("died") not in (None, 0):
        case = "(the replay process was killed by the code under test: exit %s)" % rep["died"]
        rep["fail"] = {"case": case, "what": rep["error"]}
    known = known_findings(prop)
    if case is not None and any(k == case for k, _ in known):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, [w for k, w in known if k == case][0]))
        case = None
    if case is not None or fails:
        nviol = 1
        code = 1
        with open(rfile, "w") as f:
            f.write("property: %s\n" % prop)
            if case is not None:
                f.write("case: %s\nobserved: %s\nrun again: python3 /verif/bin/replay_build.py && VP_PORT=18830 /verif/build/replay/target/debug/mqtt_broker one %s '%s'\n" % (case, rep["fail"]["what"], prop, case))
            for u, e in fails:
                f.write("failed obligation: %s %s: %s\n%s\n%s\n" % (u, e.key, e.kind, e.text, e.rendered))
            if case is None:
                f.write("no failing input found in %s tries\n" % rep.get("evaluations"))
        for u, e in fails[:6]:
            lines.append("failed obligation: %s in %s" % (e.kind, e.key))
        if case is not None:
            lines.append("failing input: %s: %s" % (case[:300], rep["fail"]["what"][:300]))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rfile, "" if case is not None else " no-failing-input-found"))
    elif broken:
        lines.append("CHECK BROKEN: " + "; ".join(broken))
        code = 2
    elif units and undecided and not rb.get("exe"):
        # nothing could be decided and nothing could be run
        lines.append("undecided: " + "; ".join(undecided)[:1500])
        lines.append("replay does not build: " + rb.get("log", "")[-1500:])
        code = 0
    # ---- evidence
    us = [res[u]["u"] for u in units if res.get(u) and not res[u]["lost_unit"]]
    ext_fn, assume, axioms = trusted_scan(us)
    imported = sorted(set("%s (proved in %s)" % (k, s) for u in us for s, k in u.imported))
    ob = len(all_keys)
    cov = {
        "obligations": ob, "discharged": len(covered),
        "checker_cmd": "python3 /verif/bin/vp.py check %s %s" % (prop, tier),
        "trusted_base": ["verus 0.2026.09.13 + z3", "extractor /verif/extract (T1-T12, see DESIGN.md)"] + ["assumed specification: " + a for a in assume] + ["external: " + a for a in ext_fn] + ["axiom: " + a for a in axioms],
        "functions_under_contract": all_keys, "back_end": "verus (z3)",
        "units": [{"unit": u, "items_verified": res[u].get("verified"), "items_failed": res[u].get("failed"), "solver_ms": res[u]["smt_ms"], "verifier_runs": res[u]["runs"], "wall_s": round(res[u]["wall"], 1), "canary_refuted": bool(res[u].get("canary")), "discharged_on_a_further_attempt": res[u].get("again", [])} for u in units if res.get(u)],
        "contracts_assumed_at_calls_and_proved_elsewhere": imported,
        "undecided_covered_only_by_bounded_replay": undecided,
        "bounded_replay": {"label": "bounded", "evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct", 0), "by_kind": rep.get("by_kind"),
                           "rule": "cases from fixed lists and seeded generators (replay/src), run on the compiled code of /repo and compared with an independent model; a case is distinct by its text",
                           "samples": rep.get("samples", [])[:4], "seconds": secs, "error": rep.get("error") or (None if rb.get("exe") else "replay program does not build")},
    }
    if vac:
        cov["vacuity"] = vac
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if ob and not undecided else "other", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": nviol,
          "assumptions": assumptions(prop)}
    if ev["level"] == "other":
        cov["explanation"] = "some functions could not be brought within the verifier's reach on this tree; they are covered by the bounded replay only: " + "; ".join(undecided)[:800]
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d of %d contracts discharged, replay %s cases, %.0f s%s" % (prop, tier, len(covered), ob, rep.get("evaluations"), time.time() - t0, ("; undecided: " + "; ".join(undecided)[:600]) if undecided else ""))
    for l in lines:
        print(l)
    return code


def assumptions(prop):
    a = ["the extractor's rewriting steps preserve meaning (listed in DESIGN.md); logging, Display and Debug output are dropped",
         "64-bit usize; the standard library and the crates bytes, dashmap, tokio and uuid do what the shim contracts state"]
    if any(u in PROPS[prop] for u in ("u2", "u3")):
        a.append("DashMap is used by one task only (its locks are not modelled)")
    if "u3" in PROPS[prop]:
        a.append("session identities (122 random bits) are distinct; a full client channel delays, it does not lose; a channel delivers in the order of sending")
    if "u4" in PROPS[prop]:
        a.append("a cancelled select branch has no effect other than those its future's contract allows at an await point")
    return a


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        os.makedirs(OUT, exist_ok=True)
        build_extractor()
        exe, log = replay_build.build(REPO)
        if not exe:
            print(log[-3000:])
        sys.exit(0 if exe else 1)
    if sys.argv[1] == "units":
        os.makedirs(OUT, exist_ok=True)
        ext, bad = extract()
        for u in sys.argv[2:] or UNITS:
            i = verify_unit(u, ext, "dev")
            print(u, "verified", i.get("verified"), "failed", i.get("failed"), "canary", i.get("canary"), "wall %.1f" % i["wall"], "lost", i["lost_unit"], "exempt", i["exempt"], "again", i.get("again"), "errors", [e.key for e in i["errors"]], "slowest", i.get("slowest"))
            for e in i["errors"]:
                print("  ", e.kind, "in", e.key)
                print(e.text)
        sys.exit(0)
    sys.exit(check(sys.argv[2], sys.argv[3]))
