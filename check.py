#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property on /repo's working tree:
 1. vx extracts the functions under contract from /repo's current source into a Verus file;
 2. Verus discharges every obligation (the deciding step);
 3. a second Verus run with `assert(false)` put at the start of every function under contract and of
    every loop with a contract must fail everywhere (no contract is vacuous);
 4. the replay crate, built against /repo, searches for a failing input: it gives a failed
    obligation its concrete input, and stands in (bounded, labelled so) for functions that the
    verifier cannot take.
Exit 0: held; exit 1 with a VIOLATION line: broken. Evidence goes to evidence/PROP.json.
"""
import argparse, atexit, concurrent.futures, fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root", "PATH": os.environ.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin",
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "RUSTUP_TOOLCHAIN": "stable",
})
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or ENV, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -999, o.decode("utf8", "replace"), e.decode("utf8", "replace")


def build(crate, tries=2):
    """cargo build --release of /verif/<crate>; serialised."""
    d = os.path.join(VERIF, crate)
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    with open(os.path.join(VERIF, ".build", crate + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc = o = e = None
        for _ in range(tries):
            if crate == "replay":
                # cargo decides by mtime: a source put back with an old mtime must still be seen
                fp = os.path.join(d, "target", "release", ".fingerprint")
                if os.path.isdir(fp):
                    for n in os.listdir(fp):
                        if n.startswith("minifier-"):
                            shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            rc, o, e = sh(["cargo", "build", "--release", "--offline", "--locked", "-q"], cwd=d, timeout=600)
            if rc == 0:
                return os.path.join(d, "target", "release", crate)
        raise RuntimeError(f"cannot build {crate}: {e[-3000:]}")


def build_cli():
    """the minifier command of /repo, built into /verif/.build/cli-target"""
    t = os.path.join(VERIF, ".build", "cli-target")
    os.makedirs(t, exist_ok=True)
    with open(os.path.join(VERIF, ".build", "cli.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fp = os.path.join(t, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("minifier-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        rc, o, e = sh(["cargo", "build", "--offline", "--locked", "-q", "--bin", "minifier",
                       "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", t], timeout=600)
        if rc != 0:
            raise RuntimeError(f"cannot build the command: {e[-3000:]}")
    return os.path.join(t, "debug", "minifier")


# ------------------------------------------------------------------------------------ the verifier
def verus(path, extra, timeout):
    t0 = time.time()
    rc, o, e = sh(["verus", os.path.basename(path), "--output-json", "--time-expanded", "--error-format=json",
                   "--multiple-errors", "8"] + extra, cwd=os.path.dirname(path), timeout=timeout)
    wall = time.time() - t0
    try:
        j = json.loads(o)
    except Exception:
        j = {}
    errs = []
    for l in e.splitlines():
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and d.get("spans"):
                errs.append(d)
            elif d.get("level") == "error" and not d["message"].startswith("aborting"):
                errs.append(d)
    fns = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::", 1)[1]
            x = fns.setdefault(n, {"ok": True, "us": 0, "rlimit": 0, "mode": f.get("mode:"), "queries": 0})
            x["ok"] &= bool(f["success"])
            x["us"] += f["time-micros"]
            x["rlimit"] += f["rlimit"]
            x["queries"] += 1
    vr = j.get("verification-results", {})
    ran = bool(vr) and not vr.get("encountered-vir-error", True) and bool(fns)
    smt = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    return {"rc": rc, "ran": ran, "fns": fns, "errs": errs, "vr": vr, "wall": wall, "smt_ms": smt, "raw": e[-6000:],
            "timeout": rc == -999}


PROOF_MSGS = re.compile(
    r"(postcondition|precondition|invariant|assertion|decreases|possible arithmetic|possible division|recommendation"
    r"|loop must have|could not prove termination|unwind|index|bitvector)", re.I)
PANIC = re.compile(r"precondition|arithmetic|division|decreases|termination|index", re.I)
RLIMIT = re.compile(r"rlimit|resource limit|timed out|timeout", re.I)


def item_at(items, line):
    for it in items:
        if it["out"][0] <= line <= it["out"][1]:
            return it
    return None


def fn_at(text_lines, line):
    """the nearest `fn NAME` at or above a line of the generated file (for hand-written lemmas)"""
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", text_lines[i])
        if m:
            return m.group(1)
    return "?"


def primary_line(d):
    for s in d.get("spans", []):
        if s.get("is_primary"):
            return s["line_start"]
    return d["spans"][0]["line_start"] if d.get("spans") else 0


def prove(prop, spec, work, tier):
    """Extract and verify one spec file. The source has other forms that do the same (see
    vx/src/norm.rs: where the arguments of an inlined helper go, where the code after a loop stands);
    where the first is not accepted the others are tried: a proof of any of them is a proof."""
    r = prove1(prop, spec, work, tier, [])
    if r["status"] == "proved":
        return r
    others = []
    if any(it["inlined"] for it in r.get("items", [])):
        others.append(["--bind"])
    bad = {f["function"] for f in r.get("failed", []) + r.get("undecided", [])} | set(r["external"])
    if bad:
        others.append(sum((["--sink", n] for n in sorted(bad)), []))
    t0 = time.time()
    for o in others:
        if time.time() - t0 > 150:
            break
        q = prove1(prop, spec, work, tier, o)
        if q["status"] == "proved" or (r["status"] in ("unsupported", "lost-anchor") and q["status"] not in ("unsupported", "lost-anchor")):
            q["notes"].append("proved in another form: " + " ".join(o))
            return q
    if others and r.get("items"):
        prove1(prop, spec, work, tier, sum((["--external", x] for x in r["external"]), []), only_extract=True)
    return r


def prove1(prop, spec, work, tier, variant, only_extract=False):
    """Extract and verify one spec file. Returns a dict."""
    vx = build("vx")
    out, mp = os.path.join(work, spec + ".rs"), os.path.join(work, spec + ".json")
    res = {"spec": f"proofs/{spec}.vs", "status": "?", "failed": [], "external": [], "notes": []}
    external = []
    rl = ["--rlimit", "60" if tier == "thorough" else "30"]
    for attempt in range(6):
        cmd = [vx, "--repo", REPO, "--spec", os.path.join(VERIF, "proofs", spec + ".vs"), "--out", out, "--map", mp,
               "--locals", os.path.join(VERIF, "proofs", "locals.txt")] + variant
        for x in external:
            cmd += ["--external", x]
        rc, o, e = sh(cmd, timeout=60)
        if rc != 0:
            res["status"] = "lost-anchor"
            res["notes"].append(e.strip())
            return res
        items = json.load(open(mp))["items"]
        lines = open(out).read().splitlines()
        if only_extract or ("--sink" in variant and not any("what follows" in k for it in items for k in it["rewrites"])):
            return res
        v = verus(out, rl, 600)
        if v["ran"]:
            break
        # a construct the verifier does not take: leave that function's body out (its contract is
        # then an assumption, reported, and decided by the bounded search only) and try again
        bad = set()
        for d in v["errs"]:
            for s in d.get("spans", []):
                it = item_at(items, s["line_start"])
                if it and it["kind"] == "fn" and not it["external"]:
                    bad.add(it["name"])
        new = [b for b in sorted(bad) if b not in external]
        if not new or v["timeout"]:
            res["status"] = "unsupported"
            res["notes"].append("; ".join(d["message"][:300] for d in v["errs"][:4]) or v["raw"][-500:])
            return res
        external += new
        res["notes"].append("unsupported in " + ", ".join(new) + ": " + "; ".join(d["message"][:200] for d in v["errs"][:3]))
    else:
        res["status"] = "unsupported"
        return res
    res["external"] = external
    res["items"] = items
    res["variant"] = variant
    drift = {it["name"]: it["drift"] for it in items if it["drift"]}
    for n, d in drift.items():
        res["notes"].append(f"{n}: not as it was when its contract was written: " + "; ".join(d))
    res["verus"] = v
    # classify failures
    failed, undecided = [], []
    bad_fns = {n for n, f in v["fns"].items() if not f["ok"]}
    for d in v["errs"]:
        if not d.get("spans"):
            continue
        ln = primary_line(d)
        it = item_at(items, ln)
        if not it:
            # e.g. a failed callee's precondition: the other spans lie in the caller
            for s in d["spans"]:
                it = it or item_at(items, s["line_start"])
        name = it["name"] if it else fn_at(lines, ln)
        rec = {"function": name, "obligation": d["message"], "at": f"{spec}.rs:{ln}",
               "text": lines[ln - 1].strip() if 0 < ln <= len(lines) else "",
               "source": f'{it["file"]}:{it["src"][0]}-{it["src"][1]}' if it else "proofs/" + spec + ".vs",
               "rendered": d.get("rendered", "")}
        # where a hint for the prover no longer fits the code, a failure says nothing about the code
        (undecided if RLIMIT.search(d["message"]) or name in drift else failed).append(rec)
    covered = {f["function"].split("::")[-1] for f in failed + undecided}
    for n in bad_fns:
        if n.split("::")[-1] not in covered:
            undecided.append({"function": n, "obligation": "not discharged, no diagnostic (resource limit)", "at": "", "text": "", "source": "", "rendered": ""})
    res["failed"], res["undecided"] = failed, undecided
    res["status"] = "failed" if failed else ("undecided" if undecided else ("partial" if external else "proved"))
    return res


def vacuity(spec, work, res):
    """assert(false) at the start of every function under contract must not be provable."""
    out, mp = os.path.join(work, spec + "_vac.rs"), os.path.join(work, spec + "_vac.json")
    cmd = [build("vx"), "--repo", REPO, "--spec", os.path.join(VERIF, "proofs", spec + ".vs"), "--out", out, "--map", mp, "--vacuity",
           "--locals", os.path.join(VERIF, "proofs", "locals.txt")] + res.get("variant", [])
    for x in res["external"]:
        cmd += ["--external", x]
    rc, o, e = sh(cmd, timeout=60)
    if rc != 0:
        return {"ran": False, "note": e}
    v = verus(out, ["--rlimit", "10"], 600)
    if not v["ran"]:
        return {"ran": False, "note": v["raw"][-800:]}
    items = json.load(open(mp))["items"]
    lines = open(out).read().splitlines()
    probes = {i + 1 for i, l in enumerate(lines) if "vx_vacuity" in l}
    hit = set()
    for d in v["errs"]:
        for s in d.get("spans", []):
            if s["line_start"] in probes:
                hit.add(s["line_start"])
    # Verus stops reporting in a function after some errors: every probed function must fail
    vac = []
    for it in items:
        if it["kind"] != "fn" or it["external"]:
            continue
        mine = {p for p in probes if it["out"][0] <= p <= it["out"][1]}
        if mine and not (mine & hit):
            vac.append(it["name"])
    return {"ran": True, "probes": len(probes), "refuted": len(hit), "vacuous": vac}


def trusted(spec, work):
    """mechanical scan of the generated file for everything assumed"""
    t = open(os.path.join(work, spec + ".rs")).read()
    found = []
    L = t.splitlines()
    for i, l in enumerate(L):
        m = re.search(r"assume_specification\s*(?:<[^>]*>)?\s*\[(.*?)\]", l)
        if m:
            found.append("assumed contract: " + m.group(1).strip())
        if "external_body" in l:
            for k in range(i, min(i + 6, len(L))):
                mm = re.search(r"\b(fn|struct)\s+(\w+)", L[k])
                if mm:
                    found.append(("trusted contract (external_body fn): " if mm.group(1) == "fn" else "opaque std type: ") + mm.group(2))
                    break
        if re.search(r"\badmit\s*\(|\bassume\s*\(", l):
            found.append("ASSUME: " + l.strip())
        m = re.search(r"uninterp\s+spec\s+fn\s+(\w+)", l)
        if m:
            found.append("uninterpreted: " + m.group(1))
        m = re.search(r"\baxiom\s+fn\s+(\w+)", l)
        if m:
            found.append("axiom: " + m.group(1))
    return sorted(set(found))


# ------------------------------------------------------------------------------------ the search
def scratch(prop, work):
    """Where the command may write: in memory, if possible; removed at the end."""
    if prop == "L01" and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
        try:
            d = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm")
            atexit.register(shutil.rmtree, d, True)
            return d
        except OSError:
            pass
    return work


def search(prop, tier, seed, work, budget):
    exe = build("replay")
    out = os.path.join(work, "search.json")
    cmd = [exe, "search", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--budget", str(budget)]
    env = dict(ENV)
    env["VERIF_SCRATCH"] = scratch(prop, work)
    if prop == "L01":
        env["MINIFIER_BIN"] = build_cli()
    rc, o, e = sh(cmd, timeout=budget * 3 + 120, mem_gb=12, cwd=work, env=env)
    if rc in (0, 1) and os.path.exists(out):
        return json.load(open(out))
    if rc == 2:
        raise RuntimeError("replay: " + e[-2000:])
    # killed (stack overflow, out of memory, abort): find the input with a trace
    tr = os.path.join(work, "trace.json")
    rc2, o, e = sh(cmd + ["--trace", tr], timeout=budget * 6 + 120, mem_gb=12, cwd=work, env=env)
    if rc2 in (0, 1) and os.path.exists(out):
        return json.load(open(out))
    if os.path.exists(tr):
        try:
            return {"found": True, "property": prop, "why": f"the process died (status {rc2}): {e[-300:]}",
                    "case": json.load(open(tr))["case"]}
        except Exception:
            pass
    raise RuntimeError(f"replay died with status {rc}: {e[-1000:]}")


def deep_search(prop, seed, work, budget):
    """The proof does not hold on this tree: look for a failing input on all cores, by random search
    with different seeds, and once more through the larger exhaustive phases."""
    exe = build("replay")
    env = dict(ENV)
    env["VERIF_SCRATCH"] = scratch(prop, work)
    env["VERIF_STOP"] = stop = os.path.join(work, "stop")
    if prop == "L01":
        env["MINIFIER_BIN"] = build_cli()
    jobs = [["--tier", "thorough", "--seed", str(seed)]] + [["--tier", "quick", "--deep", "--seed", str(1000 * seed + k)] for k in range(6 if prop != "S06" else 0)]

    def one(k):
        out = os.path.join(work, f"deep{k}.json")
        cmd = [exe, "search", prop, "--out", out, "--budget", str(budget)] + jobs[k]
        rc, o, e = sh(cmd, timeout=budget + 40, mem_gb=6, cwd=work, env=env)
        if rc not in (0, 1, 2, -999):
            # it died: the input it died on is in the trace
            tr = os.path.join(work, f"deep{k}.trace")
            rc, o, e = sh(cmd + ["--trace", tr], timeout=budget + 40, mem_gb=6, cwd=work, env=env)
            if rc not in (0, 1, 2, -999) and os.path.exists(tr):
                try:
                    return {"found": True, "property": prop, "why": f"the process died (status {rc}): {e[-300:]}", "case": json.load(open(tr))["case"]}
                except Exception:
                    return None
        if rc in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            if r.get("found"):
                open(stop, "w").close()  # the others end
            return r
        return None

    with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
        fs = [ex.submit(one, k) for k in range(len(jobs))]
        rs = [f.result() for f in fs]
    rs = [r for r in rs if r]
    found = [r for r in rs if r.get("found")]
    return found[0] if found else {"found": False, "evaluations": sum(r.get("evaluations", 0) for r in rs)}


def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d["property"] == prop and d["status"] == "known":
                    r.append(d)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.prop, a.tier
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"work-{prop}-", dir=os.path.join(VERIF, ".build"))
    try:
        code = run(prop, cfg, tier, seed, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(prop, cfg, tier, seed, work, t0):
    proofs = []
    for spec in cfg["specs"]:
        r = prove(prop, spec, work, tier)
        r["vacuity"] = vacuity(spec, work, r) if r.get("items") else {"ran": False}
        r["trusted"] = trusted(spec, work) if r.get("items") else []
        proofs.append(r)
    budget = cfg.get("budget", 25) if tier == "quick" else cfg.get("budget_thorough", 300)
    s = search(prop, tier, seed, work, budget)

    # obligations of this property: the functions and lemmas it lists (default: the whole file)
    obligations = discharged = 0
    smt_ms = 0
    fns_ok, fns_bad, by_fn = [], [], {}
    mine_failed, mine_undecided, support_failed = [], [], []
    for r in proofs:
        want = cfg.get("fns", {}).get(r["spec"].split("/")[1][:-3])
        pat = re.compile(want) if want else None
        rel = lambda n: pat is None or bool(pat.search(n))
        pan = re.compile(cfg["panic_only"]) if cfg.get("panic_only") else None
        # does this failed obligation break this property? Functions outside `fns`, and functional
        # obligations of those in `panic_only`, only support it: their failure leaves it not proved
        nm = re.compile(cfg["not_mine"], re.I) if cfg.get("not_mine") else None
        alarm = lambda f: rel(f["function"]) and not (nm and nm.search(f["obligation"])) and not (pan and pan.search(f["function"]) and not PANIC.search(f["obligation"]))
        if r.get("verus"):
            for n, f in sorted(r["verus"]["fns"].items()):
                if not rel(n):
                    continue
                obligations += f["queries"]
                smt_ms += f["us"] / 1000
                if f["ok"]:
                    discharged += f["queries"]
                by_fn[n] = {"ok": f["ok"], "ms": round(f["us"] / 1000, 1), "rlimit": f["rlimit"], "mode": f["mode"]}
            for it in r["items"]:
                if it["kind"] == "fn" and rel(it["name"]):
                    (fns_bad if it["external"] else fns_ok).append(f'{it["name"]} ({it["file"]}:{it["src"][0]})')
            mine_failed += [f for f in r["failed"] if alarm(f)]
            support_failed += [f for f in r["failed"] if not alarm(f)]
            mine_undecided += r["undecided"]
    status = [f'{r["spec"]}: {r["status"]}' for r in proofs]
    vac = [x for r in proofs for x in r["vacuity"].get("vacuous", [])]
    all_proved = all(r["status"] == "proved" for r in proofs)
    if obligations == 0 and cfg["specs"]:
        all_proved = False

    deep = None
    if cfg["specs"] and not s.get("found") and (mine_failed or not all_proved):
        left = 820 - (time.time() - t0)
        if left > 100:
            deep = deep_search(prop, seed, work, int(min(cfg.get("deep", 150), left - 80)))
            if deep.get("found"):
                deep.update({k: s.get(k) for k in ("evaluations", "distinct_nontrivial", "phases", "wall_s", "samples")})
                s = deep

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus (z3 back end) on the file vx extracts from /repo: " + ", ".join(f"vx --repo /repo --spec proofs/{x}.vs && verus {x}.rs" for x in cfg["specs"]),
            "trusted_base": sorted({t for r in proofs for t in r["trusted"]} | {"vx: the extraction and the rewrites listed under extraction", "Verus 0.2026.09.13 and its Z3", "vstd's contracts on std"}),
            "back_end": "verus/z3", "solver_ms": round(smt_ms, 1),
            "proof_status": status,
            "all_obligations_discharged": all_proved,
            "functions_under_contract": fns_ok,
            "functions_assumed_unsupported_now": fns_bad,
            "obligations_by_function": by_fn,
            "failed_obligations": mine_failed, "undecided_obligations": mine_undecided,
            "failed_supporting_obligations": support_failed,
            "notes": [n for r in proofs for n in r["notes"]],
            "vacuity": {r["spec"]: r["vacuity"] for r in proofs},
            "extraction": {r["spec"]: [{k: it[k] for k in ("name", "file", "src", "rewrites", "dropped", "inlined")} for it in r.get("items", []) if it["rewrites"] or it["dropped"] or it["inlined"]] for r in proofs},
            "bounded_search": {"role": "counterexamples for failed obligations; bounded stand-in for what the proof does not cover: " + cfg.get("bounded", "nothing"),
                               **{k: s.get(k) for k in ("evaluations", "distinct_nontrivial", "phases", "wall_s", "found")},
                               "deep": {k: v for k, v in (deep or {}).items() if k in ("found", "evaluations")}},
            "evaluations": s.get("evaluations", 0), "distinct_nontrivial": s.get("distinct_nontrivial", 0),
            "rule": cfg.get("rule", "see bounded_search.phases; non-trivial: the input makes the property say something (see replay/src)"),
            "samples": s.get("samples", []),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": 0, "violations": 0,
    }
    replay_path = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
    code = 0
    if vac:
        ev["coverage"]["notes"].append("vacuous contracts: " + ", ".join(vac))
        print(f"note: vacuous contract of {', '.join(vac)}: its obligations are not counted as proof", file=sys.stderr)
        ev["coverage"]["all_obligations_discharged"] = False
    if s.get("found"):
        ev["violations"] = 1
        json.dump({"property": prop, "case": s["case"], "why": s["why"],
                   "replay": f"cd {VERIF}/replay && cargo run --release --offline -q -- case {prop} {replay_path}",
                   "failed_obligations": mine_failed, "undecided": mine_undecided, "proof_status": status},
                  open(replay_path, "w"), indent=1, ensure_ascii=False)
        print(f"{prop}: {s['why']}")
        for f in mine_failed[:5]:
            print(f"{prop}: failed obligation: {f['function']}: {f['obligation']}: {f['text']}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        code = 1
    elif mine_failed:
        ev["violations"] = 1
        json.dump({"property": prop, "case": None, "failed_obligations": mine_failed, "undecided": mine_undecided,
                   "proof_status": status, "searched": s.get("evaluations")}, open(replay_path, "w"), indent=1)
        for f in mine_failed[:5]:
            print(f"{prop}: failed obligation: {f['function']}: {f['obligation']}: {f['text']}")
        print(f"VIOLATION property={prop} replay={replay_path} no-failing-input-found")
        code = 1
    else:
        if os.path.exists(replay_path):
            os.remove(replay_path)
        if not all_proved:
            ev["coverage"]["notes"].append("NOT proved on this tree: the answer rests on the bounded search only")
        for k in known_findings(prop):
            rc, o, _ = sh([build("replay"), "case", prop, os.path.join(VERIF, k["replay"])], timeout=60) if k.get("replay") else (1, "", "")
            print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if rc == 1 else " (no longer fails)"))
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {'; '.join(status)}; {discharged}/{obligations} obligations; {s.get('evaluations', 0)} inputs searched; {ev['wall_s']} s; exit {code}")
    return code


if __name__ == "__main__":
    main()
