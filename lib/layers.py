"""The three layers behind run.py and how their results are combined."""
import json, os, re, shutil, subprocess, time

NATIVE_TOOLCHAIN = "nightly-2025-03-06"   # the toolchain /repo's own build uses


class Context:
    def __init__(self, root, prop, tier, seed):
        self.root, self.prop, self.tier, self.seed = root, prop, tier, seed
        self.build = os.path.join(root, ".build")
        self.replays = os.path.join(self.build, "replays")
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
        self.thorough = tier == "thorough"


def undecided(layer, why):
    return {"layer": layer, "state": "undecided", "why": why, "violations": [], "wall_s": 0.0}


def sh(cmd, cwd, env=None, timeout=None):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "RUSTFLAGS": ""})
    e.pop("RUSTFLAGS")
    e.update(env or {})
    # own process group, so that a timeout also ends the solvers
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return None, o.decode("utf-8", "replace")


def write_replay(ctx, tag, obj):
    path = os.path.join(ctx.replays, "%s-%s.json" % (ctx.prop, re.sub(r"[^A-Za-z0-9_]+", "_", tag)[:60]))
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
    return path


# ---------------------------------------------------------------- native

def native_bin(ctx, profile):
    target = os.path.join(ctx.build, "native")
    cmd = ["cargo", "build", "--offline"] + (["--release"] if profile == "release" else [])
    env = {"RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN, "CARGO_TARGET_DIR": target}
    feats = []
    if ctx.prop == "P04":
        feats = ["--features", "borrowed_buf"]
    rc, o = sh(cmd + feats, os.path.join(ctx.root, "native"), env, 600)
    if rc != 0 and feats:
        rc, o = sh(cmd, os.path.join(ctx.root, "native"), env, 600)
    if rc != 0:
        return None, o
    return os.path.join(target, "release" if profile == "release" else "debug", "bcheck"), o


def run_bin(b, ctx, extra=(), timeout=500):
    args = [b, ctx.prop, "--tier", ctx.tier, "--seed", str(ctx.seed)] + list(extra)
    rc, o = sh(args, ctx.root, None, timeout)
    m = re.search(r"^RESULT (\{.*\})$", o, re.M)
    return rc, o, (json.loads(m.group(1)) if m else None), args


def native(ctx):
    t0 = time.time()
    src = os.path.join(ctx.root, "native", "src", ctx.prop.lower() + ".rs")
    if not os.path.exists(src):
        return {"layer": "native", "state": "absent", "violations": [], "wall_s": 0.0}
    res = {"layer": "native", "state": "held", "violations": [], "runs": []}
    for profile in ("debug", "release") if ctx.thorough else ("debug",):
        b, o = native_bin(ctx, profile)
        if b is None:
            if profile == "debug":
                return undecided("native", "build failed: " + "\n".join(l for l in o.splitlines() if l.startswith("error"))[:2000])
            continue
        rc, o, r, args = run_bin(b, ctx, timeout=3000 if ctx.thorough else 500)
        if r is None:
            m = re.search(r"^FATAL (\d+) (.*?) \| (.*)$", o, re.M)
            if m and rc == 70:
                case = m.group(1)
                _, _, d, _ = run_bin(b, ctx, ["--describe", case], 60)
                desc = (d or {}).get("described") or {}
                res["violations"].append({"contract": m.group(2), "why": m.group(3), "case": int(case),
                                          "input": desc.get("input"), "profile": profile, "args": args})
            else:
                return undecided("native", "no result (exit %s): %s" % (rc, o[-1500:]))
        else:
            r["profile"] = profile
            res["runs"].append(r)
            for v in r["violations"]:
                res["violations"].append(dict(v, profile=profile, args=args))
    if res["violations"]:
        res["state"] = "violated"
    res["wall_s"] = time.time() - t0
    return res


# ---------------------------------------------------------------- miri

def miri(ctx):
    """Histories in several threads on the real code, under many schedules (bounded); finds data races, leaks, uses after free."""
    if ctx.prop not in MIRI:
        return {"layer": "miri", "state": "absent", "violations": [], "wall_s": 0.0}
    t0 = time.time()
    wd = os.path.join(ctx.root, "miri")
    env = {"CARGO_TARGET_DIR": os.path.join(ctx.build, "miri"), "RUSTUP_TOOLCHAIN": "nightly"}
    run = ["cargo", "miri", "run", "--offline", "-q", "--"]
    flags = "-Zmiri-disable-stacked-borrows"
    rc, o = sh(run, wd, dict(env, MIRIFLAGS=flags), 400)
    cases = [(int(i), n) for i, p, n in re.findall(r"(?m)^CASE\t(\d+)\t(.*?)\t(.*)$", o) if ctx.prop in p.split()]
    if rc != 0 or not cases:
        return undecided("miri", "build failed: " + o[-1000:])
    res = {"layer": "miri", "state": "held", "violations": [], "runs": [], "schedules": 0}
    n = (2000 if ctx.thorough else 96) if ctx.prop == "P23" else (500 if ctx.thorough else 24)
    base = ctx.seed * 10000
    end = t0 + (2400 if ctx.thorough else 400)
    for i, name in cases:
        if time.time() > end:
            res.setdefault("why", "time ran out before case %d" % i)
            break
        args = run + [str(i)]
        e = dict(env, MIRIFLAGS="%s -Zmiri-many-seeds=%d..%d" % (flags, base, base + n))
        rc, o = sh(args, wd, e, max(60, end - time.time()))
        if rc == 0:
            res["schedules"] += n
            res["runs"].append({"case": i, "name": name, "schedules": n})
            continue
        seeds = re.findall(r"FAILING SEED: (\d+)", o)
        why = re.search(r"(?m)^error: (Undefined Behavior|memory leaked|deadlock|abnormal termination|the main thread).*$|^error: .*leaked.*$|^thread .* panicked at .*\n.*$", o)
        if rc is None or not seeds or not why or re.search(r"unsupported operation", o):
            res.setdefault("why", "case %d gave no result: %s" % (i, o[-600:]))
            continue
        res["violations"].append({"contract": name, "why": why.group(0)[:600], "case": i, "input": "schedule %s of Miri" % seeds[0], "profile": "miri",
                                  "args": ["MIRIFLAGS='%s -Zmiri-seed=%s'" % (flags, seeds[0]), "cargo +nightly miri run (in /verif/miri) --", str(i)]})
    if res["violations"]:
        res["state"] = "violated"
    elif not res["runs"]:
        res["state"] = "undecided"
    res["wall_s"] = time.time() - t0
    return res


MIRI = ("P03", "P15", "P17", "P23")


# ---------------------------------------------------------------- kani

def kani_obligations(ctx):
    """The `//@` descriptions of this property's harnesses."""
    out = {}
    d = os.path.join(ctx.root, "kani", "src")
    for f in sorted(os.listdir(d)):
        for l in open(os.path.join(d, f)):
            m = re.match(r"\s*//@ (\w+) \| (.*?) \| (.*?) \| (.*)$", l)
            if m and m.group(1).startswith(ctx.prop.lower() + "_"):
                label = m.group(2)
                tier = "quick"
                if label.startswith("thorough "):
                    tier, label = "thorough", label[9:]
                if tier == "thorough" and not ctx.thorough:
                    continue
                out[m.group(1)] = {"label": label, "functions": m.group(3), "contract": m.group(4), "module": f[:-3],
                                   "hook": f.startswith("h")}
    return out


# failures of these classes mean the tool gave up, not that the contract is broken
GAVE_UP = re.compile(r"unwind|recursion|unsupported|not (currently )?supported|reached.*(unsupported|unimplemented)|foreign function", re.I)


def kani_run(ctx, names, obl, hook, jobs, limit):
    js = os.path.join(ctx.build, "kani-%s-%d.json" % (ctx.prop, hook))
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "--target-dir", os.path.join(ctx.build, "kani-hook" if hook else "kani"),
           "--output-format", "terse", "--no-assertion-reach-checks", "--solver", "minisat", "-Z", "unstable-options", "-Z", "stubbing",
           "-Z", "function-contracts", "-j", str(jobs), "--harness-timeout", "%ds" % limit, "--export-json", js, "--exact"]
    for n in names:
        cmd += ["--harness", "%s::%s" % (obl[n]["module"], n)]
    env = {}
    if hook:
        env["RUSTFLAGS"] = "--cfg bytedata_verif"
    rc, o = sh(cmd, os.path.join(ctx.root, "kani"), env, (3000 if ctx.thorough else 780))
    try:
        return json.load(open(js)), o, cmd
    except Exception:
        return None, o, cmd


def parse_terse(o):
    """Fallback when the run was cut off before it wrote its report: no result at all."""
    return {}


def kani(ctx):
    t0 = time.time()
    obl = kani_obligations(ctx)
    if not obl:
        return {"layer": "kani", "state": "absent", "violations": [], "wall_s": 0.0}
    res = {"layer": "kani", "state": "held", "violations": [], "harnesses": [], "undecided": []}
    limit = 1500 if ctx.thorough else 300
    for hook in (False, True):
        names = [n for n in obl if obl[n]["hook"] == hook]
        if not names:
            continue
        rep, o, cmd = kani_run(ctx, names, obl, hook, 8, limit)
        if rep is None:
            why = "\n".join(l for l in o.splitlines() if l.startswith("error"))[:1500] or o[-1500:]
            for n in names:
                res["undecided"].append({"harness": n, "why": "no report: " + why[:400]})
            continue
        seen = {}
        for r in rep["verification_results"]["results"]:
            seen[r["harness_id"].split("::")[-1]] = r
        stats = {c["harness_id"].split("::")[-1]: c for c in rep.get("cbmc", [])}
        meta = {m["pretty_name"].split("::")[-1]: m for m in rep.get("harness_metadata", [])}
        for n in names:
            r = seen.get(n)
            if r is None:
                res["undecided"].append({"harness": n, "why": "not run"})
                continue
            checks = r.get("checks") or []
            panics = bool(meta.get(n, {}).get("attributes", {}).get("should_panic"))
            cover = [c for c in checks if c.get("category") == "cover"]
            real = [c for c in checks if c.get("category") != "cover"]
            bad = [c for c in real if str(c.get("status")).lower() in ("failure", "failed")]
            lost = [c for c in real if str(c.get("status")).lower() not in ("failure", "failed", "success", "unreachable")]
            h = {"harness": n, "label": obl[n]["label"], "functions": obl[n]["functions"], "contract": obl[n]["contract"],
                 "obligations": len(real), "discharged": len(real) - len(bad) - len(lost),
                 "seconds": round(r.get("duration_ms", 0) / 1000.0, 2),
                 "solver": (stats.get(n, {}).get("configuration") or {}).get("solver"),
                 "vccs": (stats.get(n, {}).get("cbmc_stats") or {}).get("vccs_generated"),
                 "cover": "%d/%d" % (sum(1 for c in cover if str(c.get("status")).lower() == "satisfied"), len(cover))}
            ok = str(r.get("status")).lower() == "success"
            if ok:
                if panics:
                    # the obligation is "cannot return": its own check is part of the count, the expected panics are not
                    h["obligations"] -= len(bad)
                dead = [c for c in cover if str(c.get("status")).lower() != "satisfied"]
                if not real or dead:
                    res["undecided"].append({"harness": n, "why": "vacuous: %s" % [c.get("description") for c in dead][:3]})
                else:
                    res["harnesses"].append(h)
                continue
            if panics:
                # a refusal proof fails when the call can return (or breaks memory safety), or never panics
                pan = [c for c in bad if c.get("category") == "assertion"]
                broken = [c for c in bad if c.get("category") != "assertion"]
                hard = [c for c in broken if not GAVE_UP.search(c.get("description", "") + c.get("category", ""))]
                bad = hard or ([] if pan or not checks else [{"description": "the call is refused on no input", "category": "assertion"}])
            gave = [c for c in bad if GAVE_UP.search(c.get("description", "") + " " + c.get("category", ""))]
            hard = [c for c in bad if c not in gave]
            if hard and not gave:
                res["violations"].append({"harness": n, "meta": h, "failed": [
                    {"description": c.get("description"), "function": c.get("function"), "location": c.get("location"), "category": c.get("category")}
                    for c in hard][:20], "module": obl[n]["module"], "hook": hook})
            else:
                res["undecided"].append({"harness": n, "why": "gave up: %s" % ([c.get("description") for c in gave][:3] or "timeout or tool failure")})
        res["checker_cmd"] = " ".join(cmd[:16]) + " ..."
    if res["violations"]:
        res["state"] = "violated"
    elif not res["harnesses"]:
        res["state"] = "undecided"
        res["why"] = "; ".join(u["why"] for u in res["undecided"])[:1000]
    res["wall_s"] = time.time() - t0
    return res


def playback(ctx, v):
    """Turn Kani's counterexample into concrete values and run the real code on them."""
    src = os.path.join(ctx.root, "kani")
    work = os.path.join(ctx.build, "playback-" + v["harness"])
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(src, work, ignore=shutil.ignore_patterns("target"))
    env = {"RUSTFLAGS": "--cfg bytedata_verif"} if v["hook"] else {}
    rc, o = sh(["cargo", "kani", "--target-dir", os.path.join(ctx.build, "kani-hook" if v["hook"] else "kani"), "-Z", "unstable-options",
                "-Z", "stubbing", "-Z", "function-contracts", "-Z", "concrete-playback", "--concrete-playback=inplace",
                "--harness-timeout", "240s", "--exact", "--harness", "%s::%s" % (v["module"], v["harness"])], work, env, 300)
    tests = re.findall(r"fn (kani_concrete_playback_\w+)", "".join(
        open(os.path.join(work, "src", f)).read() for f in os.listdir(os.path.join(work, "src"))))
    v["playback_tests"] = []
    for t in tests[:6]:
        rc2, o2 = sh(["cargo", "kani", "playback", "-Z", "concrete-playback", "--target-dir", os.path.join(ctx.build, "kani-playback"), "--", t], work, env, 200)
        failed = rc2 not in (0, None) and (re.search(r"^test .*%s \.\.\. FAILED" % t, o2, re.M) or "signal" in o2)
        body = ""
        for f in os.listdir(os.path.join(work, "src")):
            s = open(os.path.join(work, "src", f)).read()
            m = re.search(r"#\[test\]\s*fn %s\(.*?\n\}" % t, s, re.S)
            if m:
                body = m.group(0)
        v["playback_tests"].append({"test": t, "body": body, "fails_on_real_code": bool(failed), "output": o2[-1500:]})
    shutil.rmtree(work, ignore_errors=True)
    return any(t["fails_on_real_code"] for t in v["playback_tests"])


# ---------------------------------------------------------------- verus

def verus(ctx):
    try:
        import vextract
    except ImportError:
        return {"layer": "verus", "state": "absent", "violations": [], "wall_s": 0.0}
    return vextract.run(ctx, sh)


# ---------------------------------------------------------------- verdict

def known(ctx):
    out = []
    p = os.path.join(ctx.root, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) contract=\"(.*?)\" input=\"(.*?)\" (.*)$", l.strip())
            if m and m.group(1) == ctx.prop:
                out.append({"contract": m.group(2), "input": m.group(3), "text": m.group(4)})
    return out


def conclude(ctx, out, wall):
    lines, violated = [], False
    nat, kan, ver, mir = out["native"], out["kani"], out["verus"], out["miri"]
    listed = known(ctx)
    for k in listed:
        lines.append("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["text"]))
    nv = [v for v in nat["violations"] + mir["violations"] if not any(k["contract"] == v["contract"] and k["input"] == str(v["input"]) for k in listed)]
    for v in nv[:4]:
        args = v.pop("args", [])
        path = write_replay(ctx, "%s-%s-%s" % ("miri" if v["profile"] == "miri" else "native", v["case"], v["contract"]), {
            "property": ctx.prop, "layer": "miri" if v["profile"] == "miri" else "native", "contract": v["contract"], "failing_input": v["input"], "observed": v["why"],
            "case": v["case"], "profile": v["profile"], "reproduce": " ".join(args + (["--case", str(v["case"])] if v["profile"] != "miri" else []))})
        lines.append("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        violated = True
    for v in kan["violations"][:3]:
        shown = False
        if not nv and not ctx.__dict__.get("played"):
            try:
                shown = playback(ctx, v)
            except Exception as e:
                v["playback_error"] = str(e)
        path = write_replay(ctx, "kani-" + v["harness"], {
            "property": ctx.prop, "layer": "kani", "failed_obligation": v["harness"], "contract": v["meta"]["contract"],
            "functions": v["meta"]["functions"], "failed_checks": v["failed"], "playback": v.get("playback_tests"),
            "playback_error": v.get("playback_error"), "failing_input_from_native_layer": [x["input"] for x in nv[:3]]})
        lines.append("VIOLATION property=%s replay=%s%s" % (ctx.prop, path, "" if shown or nv else " no-failing-input-found"))
        violated = True
        if shown or nv:
            break
    for v in ver["violations"][:3]:
        path = write_replay(ctx, "verus-" + v["function"], {
            "property": ctx.prop, "layer": "verus", "failed_obligation": v["function"], "verifier_output": v["output"],
            "failing_input_from_native_layer": [x["input"] for x in nv[:3]]})
        lines.append("VIOLATION property=%s replay=%s%s" % (ctx.prop, path, "" if nv else " no-failing-input-found"))
        violated = True

    hs = kan.get("harnesses", [])
    full = [h for h in hs if h["label"].startswith("complete")]
    bounded = [h for h in hs if not h["label"].startswith("complete")]
    vobl = ver.get("obligations", 0)
    evals = sum(r["evals"] for r in nat.get("runs", [])) + mir.get("schedules", 0)
    distinct = sum(r["distinct"] for r in nat.get("runs", [])) + mir.get("schedules", 0)
    samples = [s for r in nat.get("runs", []) for s in r["samples"]][:12] or ["%s (%d schedules)" % (r["name"], r["schedules"]) for r in mir.get("runs", [])][:12]
    level = LEVELS.get(ctx.prop, "exploration")
    cov = {
        "obligations": sum(h["obligations"] for h in hs) + vobl,
        "discharged": sum(h["discharged"] for h in hs) + ver.get("discharged", 0),
        "obligations_unbounded": sum(h["obligations"] for h in full) + vobl,
        "obligations_bounded": sum(h["obligations"] for h in bounded),
        "checker_cmd": "; ".join(x for x in (kan.get("checker_cmd"), ver.get("checker_cmd")) if x) or "none",
        "trusted_base": TRUSTED + ver.get("trusted", []),
        "back_ends": sorted({"kani 0.68 / cbmc 6.11 / %s" % h["solver"] for h in hs} | set(ver.get("back_ends", []))),
        "solver_seconds": round(sum(h["seconds"] for h in hs) + ver.get("seconds", 0), 1),
        "functions_under_contract": sorted({f.strip() for h in hs for f in h["functions"].split(",")} | set(ver.get("functions", []))),
        "kani_harnesses": hs, "kani_undecided": kan.get("undecided", []), "kani_state": kan["state"],
        "verus": {k: v for k, v in ver.items() if k not in ("violations",)},
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "native layer (bounded): each case is one contract applied to one enumerated or seeded input; the RESULT counts every case, distinct ones by a hash of contract and input; trivial (empty) inputs are part of each enumeration once",
        "samples": samples,
        "native_contracts": {k: n for r in nat.get("runs", []) for k, n in r["contracts"].items()},
        "native_state": nat["state"],
        "miri_state": mir["state"], "miri_histories": mir.get("runs", []), "miri_schedules": mir.get("schedules", 0),
    }
    for k, x in out.items():
        if x.get("why"):
            cov[k + "_why"] = x["why"][:1500]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ASSUMED + ver.get("assumptions", []), "violations": int(violated) * max(1, len(nv)), "wall_s": round(wall, 1)}
    with open(os.path.join(ctx.root, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s %s: kani %s (%d harnesses, %d obligations, %d undecided), verus %s (%d), native %s (%d cases), miri %s (%d schedules) in %.0f s" % (
        ctx.prop, ctx.tier, kan["state"], len(hs), sum(h["obligations"] for h in hs), len(kan.get("undecided", [])), ver["state"], vobl, nat["state"], evals, mir["state"], mir.get("schedules", 0), wall))
    for k, x in out.items():
        if x["state"] == "undecided":
            print("undecided layer %s: %s" % (k, x.get("why", "")[:600]))
    for u in kan.get("undecided", [])[:8]:
        print("undecided obligation %s: %s" % (u["harness"], u["why"][:300]))
    if violated:
        return 1
    if not any(x["state"] == "held" for x in out.values()):
        return 3
    return 0


TRUSTED = [
    "rustc (the nightlies of Kani, Verus and of /repo's build agree on the meaning of the code)",
    "Kani 0.68 and CBMC 6.11 with their SAT back ends; Kani's models of the allocator and of atomics (sequential)",
    "core, alloc and std as compiled by Kani",
]
ASSUMED = [
    "allocation does not fail",
    "64-bit little-endian target",
    "Kani harnesses: single-threaded execution",
    "harnesses labelled bounded(...) say nothing beyond their bound; the native layer says nothing beyond its cases",
]
LEVELS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json")))
