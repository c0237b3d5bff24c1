import os, sys, json, time, subprocess, hashlib, re, resource, struct, fcntl, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")
WORK = os.path.join(ROOT, ".work")
EVID = os.path.join(ROOT, "evidence")
UNITS = ["base", "hdr", "hs", "http", "pair", "asy"]
from props import INFO, THEOREMS

def log(*a):
    print(*a, flush=True)

def run(cmd, timeout, cwd=None, env=None, mem=None):
    """run, killing the whole process group on timeout; returns (rc, stdout, stderr, seconds)"""
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        rc = -999
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t

# ------------------------------------------------------------------ building
def repo_hash(repo):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                try: b = open(p, "rb").read()
                except OSError: continue
                h.update(os.path.relpath(p, repo).encode() + b"\0" + b + b"\0")
    return h.hexdigest()

class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def cargo_env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e

def build_vx():
    rc, o, e, s = run(["cargo", "build", "--offline", "-q"], 600, cwd=os.path.join(ROOT, "vx"), env=cargo_env())
    b = os.path.join(TARGET, "debug", "vx")
    if rc != 0 or not os.path.exists(b): raise RuntimeError("building vx failed:\n" + e[-3000:])
    return b

def build_replay(repo):
    """builds the replay harness against the repository's current tree"""
    env = cargo_env()
    d, tgt = os.path.join(ROOT, "replay"), TARGET
    if os.path.realpath(repo) != "/repo":     # development only: the same harness against another tree
        tgt = os.path.join(repo, "target", "vp-replay"); d = os.path.join(tgt, "crate")
        os.makedirs(d, exist_ok=True)
        run(["cp", "-a", os.path.join(ROOT, "replay", "src"), d], 60)
        if os.path.exists(os.path.join(ROOT, "replay", "Cargo.lock")): run(["cp", os.path.join(ROOT, "replay", "Cargo.lock"), d], 60)
        open(os.path.join(d, "Cargo.toml"), "w").write(open(os.path.join(ROOT, "replay", "Cargo.toml")).read().replace("/repo", os.path.realpath(repo)))
        env["CARGO_TARGET_DIR"] = tgt
    h, hf = repo_hash(repo), os.path.join(tgt, ".repo-hash")
    old = open(hf).read() if os.path.exists(hf) else ""
    if old != h:   # never trust modification times of a copied tree
        run(["cargo", "+nightly", "clean", "--offline", "-q", "-p", "websocket", "-p", "websocket-base"], 120, cwd=d, env=env)
    rc, o, e, s = run(["cargo", "+nightly", "build", "--offline", "-q"], 800, cwd=d, env=env)
    b = os.path.join(tgt, "debug", "replay")
    if rc != 0 or not os.path.exists(b): return None, e[-4000:]
    open(hf, "w").write(h)
    return b, ""

# ------------------------------------------------------------------ replay
SLOTS = 8
def run_replay(binary, pid, tier, seed, budget, workdir):
    """returns dict: evaluations, distinct, sections, samples, failure|None, note"""
    slot = os.path.join(workdir, "slots-" + pid)
    for attempt in (1, 2):
        if os.path.exists(slot): os.remove(slot)
        rc, o, e, s = run([binary, "check", pid, tier, str(seed), slot], budget, mem=14 << 30)
        line = next((l for l in o.splitlines() if l.startswith("{")), None)
        if line:
            r = json.loads(line); r["wall_s"] = s
            return r
        # abnormal end: the slots name the cases under way
        cases = []
        secs = [x.split()[0] for x in run([binary, "list"], 20)[1].splitlines() if x.strip()]
        hang = next((l for l in o.splitlines() if l.startswith("HANG ")), None)
        if hang:
            _, sec, case = hang.split()[:3]; cases.append((sec, int(case)))
        if os.path.exists(slot):
            b = open(slot, "rb").read()
            for k in range(min(SLOTS, len(b) // 16)):
                i, c = struct.unpack_from("<QQ", b, 16 * k)
                if 0 < i <= len(secs): cases.append((secs[i - 1], c))
        for sec, case in dict.fromkeys(cases):
            rc1, o1, e1, s1 = run([binary, "one", pid, sec, str(case), str(seed), tier], 60, mem=14 << 30)
            bad = [l for l in o1.splitlines() if l.startswith("FAIL")]
            if rc1 == 1 or rc1 < 0 or rc1 > 3:
                why = bad[:3] or ["the process ended with %s%s" % ("no answer within 60 s" if rc1 == -999 else "status %d" % rc1, (": " + e1[-400:]) if e1 else "")]
                return {"evaluations": 0, "distinct": 0, "sections": [], "samples": [], "wall_s": s, "failure": {"section": sec, "case": case, "messages": why, "trace": o1[-6000:]}}
        if rc == -999 and attempt == 1: break
    return {"evaluations": 0, "distinct": 0, "sections": [], "samples": [], "failure": None, "wall_s": s, "note": "replay ended with status %d and no case could be confirmed: %s" % (rc, e[-300:])}

# ------------------------------------------------------------------ extraction and verification
def norm_name(n):
    n = n.strip()
    if n.startswith("<"):
        m = re.match(r"<(.*) as (.*)>::(\w+)$", n)
        if m: n = m.group(1) + "::" + m.group(3)
    prev = None
    while prev != n:
        prev = n; n = re.sub(r"<[^<>]*>", "", n)
    n = n.lstrip("&").replace("'a", "").strip()
    return "::".join(n.split("::")[-2:])

class Unit:
    pass

def verify_unit(vx, name, repo, workdir, rlimit, budget, seed=None):
    """extract, verify; degrade functions that cannot be brought to the verifier; returns a Unit

    An obligation that fails or runs out of resources is tried once more with every function in a solver of its own and another
    random seed: what is proved in either pass is proved, and only what both passes leave open is reported."""
    u = Unit()
    u.name, u.degraded, u.dead, u.failures, u.notes, u.runs = name, {}, None, [], [], 0
    u.fns, u.breakdown, u.smt_ms, u.wall, u.verified = [], [], 0, 0.0, 0
    u.rewrites, u.trusted = {}, []
    t0 = time.time()
    tpl = os.path.join(ROOT, "contracts", name + ".tpl")
    out, mp, dg = [os.path.join(workdir, name + x) for x in (".rs", ".json", ".degrade")]
    while u.runs < 8:
        u.runs += 1
        if time.time() - t0 > budget: u.dead = "time budget exhausted"; break
        open(dg, "w").write("\n".join(u.degraded) + "\n")
        if os.path.exists(mp): os.remove(mp)
        rc, o, e, s = run([vx, tpl, repo, out, mp, dg], 60)
        if not os.path.exists(mp):
            u.dead = "extraction: " + (e.strip().splitlines() or ["status %d" % rc])[-1]
            break
        m = json.load(open(mp))
        u.fns, u.rewrites = m["functions"], m["rewrites"]
        if m["errors"]:
            new = 0
            for x in m["errors"]:
                q = x.split("|", 1)[0] if "|" in x else None
                if q and q not in u.degraded: u.degraded[q] = "extraction: " + x.split("|", 1)[1]; new += 1
            if not new: u.dead = "extraction: " + "; ".join(m["errors"])[:300]; break
            continue
        cmd = ["verus", os.path.basename(out), "--triggers-mode", "silent", "--multiple-errors", "20", "--rlimit", str(rlimit), "--num-threads", "8", "--output-json", "--time-expanded", "--smt-option", "timeout=45000"]
        if seed is not None: cmd += ["--smt-option", "smt.random_seed=%d" % seed]
        u.cmd = " ".join(cmd)
        rc, o, e, s = run(cmd + ["--", "--error-format=json"], max(60, budget - (time.time() - t0)), cwd=workdir)
        diags, j = parse_verus(o, e)
        lines = open(out).read().split("\n")
        vr = (j or {}).get("verification-results", {})
        ran = j is not None and "verified" in vr and not vr.get("encountered-vir-error")
        if not ran and rc == -999: u.dead = "the verifier did not finish in %d s" % budget; break
        if not ran or (vr.get("errors", 0) == 0 and not vr.get("success")):
            new = 0
            for d in diags:
                f = locate(d, u.fns)[0]
                if f and f["name"] not in u.degraded:
                    u.degraded[f["name"]] = "not accepted by the verifier's front end: " + d["message"][:200]; new += 1
            if not new:
                u.dead = "not accepted by the verifier's front end: " + (diags[0]["message"][:300] if diags else e[-300:])
                break
            continue
        u.verified = vr["verified"]
        u.breakdown = [f for mm in j["times-ms"]["smt"]["smt-run-module-times"] for f in mm["function-breakdown"]]
        u.smt_ms = j["times-ms"]["smt"].get("total", sum(f["time"] for f in u.breakdown))
        retry = False
        u.failures = []
        diags = [d for d in diags if not d["message"].startswith(("aborting due to", "could not compile"))]
        if diags and budget - (time.time() - t0) > 45:
            rc, o, e, s = run(cmd + ["-V", "spinoff-all", "--smt-option", "smt.random_seed=%d" % ((seed or 0) + 11), "--", "--error-format=json"], min(240, budget - (time.time() - t0)), cwd=workdir)
            d2, j2 = parse_verus(o, e)
            if j2 is not None and "verified" in j2.get("verification-results", {}) and not j2["verification-results"].get("encountered-vir-error"):
                who = lambda d: (lambda f, w: f["name"] if f else lemma_at(lines, w))(*[locate(d, u.fns, lines)[k] for k in (0, 2)])
                open2 = {who(d) for d in d2 if not d["message"].startswith(("aborting due to", "could not compile"))}
                first = sorted({who(d) for d in diags})
                diags = [d for d in diags if who(d) in open2]
                won = [f for f in first if f not in open2]
                if won:
                    u.notes.append("proved only in the second pass (own solver per function, another seed): " + ", ".join(won))
                    ok2 = {b["function"] for mm in j2["times-ms"]["smt"]["smt-run-module-times"] for b in mm["function-breakdown"] if b["success"]}
                    for b in u.breakdown:
                        if b["function"] in ok2: b["success"] = True
        for d in diags:
            f, tags, where = locate(d, u.fns, lines)
            msg = d["message"]
            if f is not None and ("rlimit" in msg.lower() or "resource limit" in msg.lower() or "timed out" in msg.lower() or "not supported" in msg.lower()):
                if f["name"] not in u.degraded:
                    u.degraded[f["name"]] = "undecided: " + msg[:200]; retry = True
                continue
            u.failures.append({"function": f["name"] if f else lemma_at(lines, where), "file": f["file"] if f else None, "line": f["line"] if f else None,
                               "extracted": bool(f), "props": tags or (f["props"] if f else []), "message": msg, "text": d.get("rendered", "")[:3000]})
        if retry: continue
        break
    else:
        u.dead = u.dead or "more than 8 rounds of degradation"
    u.trusted = trusted_items(out) if os.path.exists(out) else []
    u.sha = hashlib.sha256(open(out, "rb").read()).hexdigest()[:16] if os.path.exists(out) else None
    u.wall = time.time() - t0
    return u

def parse_verus(o, e):
    """the error diagnostics and the result object of a run of the verifier"""
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error": diags.append(d)
    try: j = json.loads(o[o.index("{"):])
    except ValueError: j = None
    return diags, j

def locate(d, fns, lines=None):
    """the extracted function a diagnostic is about, the property tags of the failed clause, a line"""
    best, tags, where = None, [], None
    sp = [(s, s.get("label") or "") for s in all_spans(d)]
    clause = lambda l: "failed this" in l or "failed precondition" in l
    for s, lab in sorted(sp, key=lambda x: (clause(x[1]), not x[0]["is_primary"])):
        for f in fns:
            if f["out"][0] <= s["line_start"] <= f["out"][1] and best is None: best = f
        if where is None: where = s["line_start"]
    if lines:
        for s, lab in sp:
            if "failed this" in lab or (s["is_primary"] and "invariant" in d["message"]) or ("precondition" not in d["message"] and s["is_primary"]):
                for k in range(s["line_start"], min(s["line_end"], s["line_start"] + 40) + 1):
                    if k - 1 < len(lines):
                        for t in re.findall(r"//\s*((?:P\d\d[ ,|]*)+)\s*$", lines[k - 1]): tags += re.findall(r"P\d\d", t)
    tags = sorted(set(tags))
    if best is not None and ("overflow" in d["message"] or "underflow" in d["message"] or "division by zero" in d["message"]):
        tags = sorted(set((tags or best["props"]) + ["P16"]))
    return best, tags, where
def all_spans(d):
    r = list(d.get("spans", []))
    for c in d.get("children", []): r += c.get("spans", [])
    return r
def lemma_at(lines, ln):
    if not ln: return "?"
    for k in range(ln - 1, -1, -1):
        m = re.search(r"\bfn (\w+)", lines[k])
        if m: return m.group(1)
    return "?"
def trusted_items(path):
    """everything in the verified file that the verifier takes on trust"""
    r = []
    ls = open(path).read().split("\n")
    for k, l in enumerate(ls):
        if re.search(r"external_body|assume_specification|external_type_specification|external_trait_specification|\badmit\(|\bassume\(|verifier::external\b|\buninterp\b", l):
            nm = None
            for q in ls[k:k + 6]:
                m = re.search(r"assume_specification[^\[]*\[\s*([^\]]+)\]|\b(?:fn|struct|trait|enum|type)\s+(\w+)", q)
                if m: nm = (m.group(1) or m.group(2)).strip(); break
            r.append(nm or l.strip()[:80])
    return sorted(set(r))

# ------------------------------------------------------------------ one check
def known_findings():
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(P\d\d) section=(\S+) match=(.*?) :: (.*)$", l.strip())
        if m: r.append(m.groups())
    return r

def main(a):
    t0 = time.time()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = INFO.get(pid)
    if info is None: log("unknown property", pid); return 2
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(WORK, pid); os.makedirs(work, exist_ok=True)
    total = 840 if tier == "quick" else 3300
    if os.environ.get("VERIF_BUDGET"): total = int(os.environ["VERIF_BUDGET"])
    left = lambda: total - (time.time() - t0)
    problems = []
    # ---- deductive layer
    units = []
    if not a.no_verus:
        with Lock(): vx = build_vx()
        for n in UNITS:
            if not os.path.exists(os.path.join(ROOT, "contracts", n + ".tpl")): continue
            if n not in info["units"]: continue
            units.append(verify_unit(vx, n, a.repo, work, 60, min(400, max(60, left() * 0.5))))
        if tier == "thorough":
            for u in list(units):
                if u.dead or u.failures: continue
                for sd in (7, 23):
                    w2 = os.path.join(work, "seed%d" % sd); os.makedirs(w2, exist_ok=True)
                    v = verify_unit(vx, u.name, a.repo, w2, 120, 400, seed=sd)
                    u.notes.append("solver seed %d: %d verified, %d errors, %d degraded" % (sd, v.verified, len(v.failures), len(v.degraded)))
    # ---- native layer
    rep = {"evaluations": 0, "distinct": 0, "sections": [], "samples": [], "failure": None, "note": "not run"}
    binary = None
    if not a.no_replay:
        with Lock(): binary, err = build_replay(a.repo)
        if binary is None:
            rep["note"] = "the harness does not build against this tree: " + err[-600:]
            problems.append(rep["note"])
        else:
            rep = run_replay(binary, pid, tier, seed, min(left() - 30, 300 if tier == "quick" else 1500), work)
            if rep.get("note"): problems.append(rep["note"])
    # ---- verdict
    mine = []          # failed obligations of this property
    machinery = []
    for u in units:
        for f in u.failures:
            if pid in f["props"] or (not f["extracted"] and f["function"] in THEOREMS.get(pid, [])): mine.append((u, f))
            elif not f["props"]: machinery.append("%s: %s (%s)" % (u.name, f["function"], f["message"]))
    # a function of this property outside the verifier's reach on this tree: the bounded check has to carry it, so it goes deeper
    undecided = any(u.dead or any(f["degraded"] and pid in f["props"] for f in u.fns) for u in units)
    if (mine or undecided) and rep["failure"] is None and binary and tier == "quick" and left() > 120:
        deep = run_replay(binary, pid, "thorough", seed, min(left() - 30, 420), work)
        if deep["failure"]: rep["failure"] = deep["failure"]; rep["failure"]["tier"] = "thorough"
        rep["deep"] = {"evaluations": deep["evaluations"], "note": deep.get("note")}
    rc, violations = 0, 0
    fail = rep["failure"]
    for kp, sec, pat, what in known_findings():
        if kp == pid:
            log("KNOWN-FINDING: property=%s %s" % (pid, what))
            if fail and fail["section"] == sec and all(re.search(pat, m) for m in fail["messages"]): fail = None
    rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".txt")
    def obligations_text():
        s = ""
        for u, f in mine:
            s += "obligation of %s (%s line %s), unit %s: %s\n%s\n" % (f["function"], f["file"], f["line"], u.name, f["message"], f["text"])
        return s
    if fail or mine:
        rc = 1
        with open(rpath, "w") as f:
            f.write("property %s: %s\n\n" % (pid, info["title"]))
            if fail:
                violations = 1
                tr = fail.get("tier", tier)
                f.write("failing input: section %s, case %s, seed %d, tier %s\n" % (fail["section"], fail["case"], seed, tr))
                f.write("run it again: cd %s && ./check %s --no-verus   (builds the harness), or\n  target/debug/replay one %s %s %s %d %s\n\n" % (ROOT, pid, pid, fail["section"], fail["case"], seed, tr))
                f.write("\n".join(str(m) for m in fail["messages"]) + "\n\ntrace:\n%s\n\n" % (fail.get("trace") if isinstance(fail.get("trace"), str) else json.dumps(fail.get("trace"), indent=1)))
            if mine:
                violations = max(violations, len(mine))
                f.write("obligations the verifier did not discharge:\n" + obligations_text())
        for u, f in mine[:6]: log("  obligation failed: %s [%s] %s" % (f["function"], u.name, f["message"]))
        if fail:
            for m in fail["messages"][:3]: log("  " + str(m)[:600])
        log("VIOLATION property=%s replay=%s%s" % (pid, rpath, "" if fail else " no-failing-input-found"))
    elif os.path.exists(rpath): os.remove(rpath)
    # ---- evidence
    write_evidence(pid, tier, seed, info, units, rep, problems, machinery, mine, violations, time.time() - t0)
    if rc == 0 and rep.get("note") and not units: log("check could not run: " + rep["note"]); return 2
    d = sum(len(u.degraded) for u in units)
    log("%s %s: %s (%d functions under contract, %d queries, %d cases, %.0f s)%s" % (pid, tier, "held" if rc == 0 else "BROKEN", sum(1 for u in units for f in u.fns if pid in f["props"] and not f["external"]), sum(len(u.breakdown) for u in units), rep["evaluations"], time.time() - t0,
        "".join("; %s degraded: %s" % (u.name, u.dead or ", ".join(u.degraded)) for u in units if u.dead or u.degraded)))
    return rc

def write_evidence(pid, tier, seed, info, units, rep, problems, machinery, mine, violations, wall):
    fn_recs, ob, dis, smt, lem, trusted, degraded, cmds, rewrites = [], 0, 0, 0, 0, [], [], [], {}
    thm = []
    for u in units:
        by = {}
        for b in u.breakdown: by.setdefault(norm_name(b["function"]), []).append(b)
        failed = {f["function"] for f in u.failures}
        for f in u.fns:
            if pid not in f["props"]: continue
            q = by.get(norm_name(f["name"]), [])
            if u.dead or f["degraded"]:
                degraded.append({"function": f["name"], "file": f["file"], "why": u.dead or u.degraded.get(f["name"])}); ob += 1; continue
            if f["external"]: continue
            ob += 1
            ok = f["name"] not in failed
            dis += ok
            fn_recs.append({"function": f["name"], "file": f["file"], "line": f["line"], "discharged": ok, "solver_ms": round(sum(x["time-micros"] for x in q) / 1000, 1), "rlimit": sum(x["rlimit"] for x in q), "helpers_inlined": f["inlined"]})
            smt += sum(x["time-micros"] for x in q) / 1000
        for b in u.breakdown:
            short = b["function"].split("::")[-1]
            if b["mode:"] == "proof":
                lem += 1; ob += 1; dis += bool(b["success"])
                if short in THEOREMS.get(pid, []): thm.append({"theorem": short, "discharged": b["success"], "solver_ms": b["time-micros"] / 1000})
        trusted += u.trusted; cmds.append(u.cmd if hasattr(u, "cmd") else "vx %s" % u.name)
        for k, v in u.rewrites.items(): rewrites[k] = rewrites.get(k, 0) + v
    level = info["level"]
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": "; ".join(cmds) or "none",
        "trusted_base": sorted(set(trusted)),
        "backend": "Verus 0.2026.09.13 with its bundled Z3",
        "functions_under_contract": fn_recs, "lemma_obligations": lem, "theorems": thm,
        "solver_ms_for_these_functions": round(smt, 1),
        "units": [{"unit": u.name, "verified_file_sha256_16": getattr(u, "sha", None), "verified_items": u.verified, "smt_ms_total": u.smt_ms, "wall_s": round(u.wall, 1), "dead": u.dead, "notes": u.notes} for u in units],
        "extraction_rewrites": rewrites,
        "not_proved_on_this_tree": degraded,
        "failed_obligations": [{"function": f["function"], "message": f["message"]} for _, f in mine],
        "bounded": {"what": "native replay of the property's statement against the real crates; never counted as proved", "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "sections": rep["sections"], "deep": rep.get("deep")},
        "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"],
        "rule": "each section generates cases from the seed; a case is counted as distinct and non-trivial by a hash of what it did, the empty ones left out; only the listed sections were run",
        "samples": [s[:600] for s in rep["samples"]][:6] or [f["function"] for f in fn_recs][:3],
    }
    if level == "other": cov["explanation"] = info["note"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": info.get("assumptions", []) + ["every item of coverage.trusted_base is taken on trust by the verifier (contracts of std and dependency functions, and type axioms)", "what the extraction changes is listed under coverage.extraction_rewrites and explained in DESIGN.md"] + problems + ["machinery: " + m for m in machinery],
          "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(EVID, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
