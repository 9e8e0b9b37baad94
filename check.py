#!/usr/bin/env python3
"""Driver: check.py <property> [--tier quick|thorough] [--case NAME] | check.py --setup

Builds the harness against /repo's working tree (real pairing-curve backend and simulated-group
backend, in-repo hooks on), runs the monitors of one property on both, writes evidence/<id>.json and
prints VIOLATION / KNOWN-FINDING lines.  Exit 0 held, 1 violated, 2 no answer."""
import fcntl, json, os, resource, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
BACKENDS = {"real": [], "sim": ["--cfg", "vp_sim"]}
# the simulated-group build once more under a compiler sanitizer (nightly, instrumented std):
# property -> (sanitizer, cases whose name starts with this, seconds in the quick tier)
SAN = {"C21": ("thread", "threads", 120), "C04": ("address", "", 60), "C19": ("address", "", 60)}
TRIPLE = "x86_64-unknown-linux-gnu"
TOTAL_S = {"quick": 800, "thorough": 6 * 3600}


def cap():
    """Runaway allocation in the code under test becomes an abort of this process only."""
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def sh(cmd, env=None, timeout=None, log=None, limit=False):
    with open(log, "wb") if log else open(os.devnull, "wb") as f:
        try:
            return subprocess.run(cmd, cwd=HARNESS, env=env, stdout=f, stderr=subprocess.STDOUT,
                                  timeout=timeout, preexec_fn=cap if limit else None).returncode
        except subprocess.TimeoutExpired:
            return "timeout"


def build(backend, out):
    """Build one backend; with the hooks, or without them if only the hooks do not compile."""
    for hooks in (True, False):
        td = os.path.join(HARNESS, "target_%s%s" % (backend, "" if hooks else "_nohooks"))
        os.makedirs(td, exist_ok=True)
        flags = (["--cfg", "vp_hooks"] if hooks else []) + BACKENDS[backend] + ["-Awarnings"]
        env = dict(os.environ, CARGO_TARGET_DIR=td, RUSTFLAGS=" ".join(flags), CARGO_INCREMENTAL="0")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        log = os.path.join(td, "build.log")
        with open(os.path.join(td, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            rc = sh(["cargo", "build", "--offline", "--locked"], env=env, timeout=780, log=log)
        if rc == 0:
            out[backend] = (os.path.join(td, "debug", "vp-harness"), hooks, log)
            return
        out[backend] = (None, hooks, log)


def build_san(san, out):
    td = os.path.join(HARNESS, "target_" + san)
    os.makedirs(td, exist_ok=True)
    flags = ["--cfg", "vp_hooks", "--cfg", "vp_sim", "-Awarnings", "-Zsanitizer=" + san]
    env = dict(os.environ, CARGO_TARGET_DIR=td, RUSTFLAGS=" ".join(flags), CARGO_INCREMENTAL="0")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    log = os.path.join(td, "build.log")
    with open(os.path.join(td, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc = sh(["cargo", "+nightly", "build", "--offline", "--locked", "-Zbuild-std", "--target", TRIPLE],
                env=env, timeout=500, log=log)
    out[san] = os.path.join(td, TRIPLE, "debug", "vp-harness") if rc == 0 else None


def build_all(backends, sans=()):
    out = {}
    ts = [threading.Thread(target=build, args=(b, out)) for b in backends]
    ts += [threading.Thread(target=build_san, args=(s, out)) for s in sans]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def run_one(binary, backend, prop, seed, tier, deadline, extra, tag=""):
    res = os.path.join(EVID, ".%s.%s%s.result" % (prop, backend, tag))
    if os.path.exists(res):
        os.remove(res)
    left = deadline - time.time()
    budget = max(5, int(min(left - 60, 240 if tier == "quick" else left - 60)))
    cmd = [binary, "--prop", prop, "--out", res, "--seed", str(seed), "--tier", tier,
           "--budget", str(budget)] + extra
    log = os.path.join(EVID, ".%s.%s%s.log" % (prop, backend, tag))
    rc = sh(cmd, timeout=max(10, left), log=log, limit=True)
    r = None
    if os.path.exists(res):
        try:
            r = json.load(open(res))
        except ValueError:
            r = None
        os.remove(res)
    tail = ""
    try:
        with open(log, "rb") as f:
            f.seek(max(0, os.path.getsize(log) - 2000))
            tail = f.read().decode("utf8", "replace")
        os.remove(log)
    except OSError:
        pass
    return rc, r, tail


def known():
    """finding: property=<id> case=<exact case name> match=<text that the failure contains>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                out.append(dict(kv.split("=", 1) for kv in line[9:].split(" | ")))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        o = build_all(list(BACKENDS), sorted(set(s[0] for s in SAN.values())))
        o = {b: o[b] for b in BACKENDS}
        bad = [b for b in o if o[b][0] is None]
        for b in bad:
            sys.stderr.write(open(o[b][2]).read()[-3000:])
        sys.exit(2 if bad else 0)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    tier = tier if tier in TOTAL_S else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    extra = []
    if "--case" in a:
        extra = ["--case", a[a.index("--case") + 1]]
    t0 = time.time()
    deadline = t0 + TOTAL_S[tier]
    os.makedirs(EVID, exist_ok=True)
    entry = [c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]
             if c["property"] == prop]
    level = entry[0]["level"] if entry else "exploration"
    san = SAN.get(prop)
    bins = build_all(list(BACKENDS), [san[0]] if san else [])
    san_bin = bins.pop(san[0], None) if san else None
    results, errors, san_note = {}, [], None
    fails = []  # (backend, case, [messages], confirmed)

    def work(b):
        binary = bins[b][0]
        if binary is None:
            errors.append("%s backend does not build" % b)
            return
        rc, r, tail = run_one(binary, b, prop, seed, tier, deadline, extra)
        if r is None:
            if isinstance(rc, int) and rc < 0 and rc != -9:
                fails.append((b, "process", ["the process running the code died with signal %d: %s"
                                             % (-rc, tail[-500:])], True))
            else:
                errors.append("%s harness ended with %s: %s" % (b, rc, tail[-800:]))
            return
        results[b] = r
        for v in r["violations"]:
            fails.append((b, v["case"], v["fails"], True))
        for v in r["unconfirmed"]:
            fails.append((b, v["case"], v["fails"], False))
        # history independence: a fresh process must reproduce the digests
        if r.get("digests") and not extra:
            rc2, r2, _ = run_one(binary, b, prop, seed, tier, deadline, ["--shift", "1"], ".2")
            if r2 is not None:
                r["fresh_process_digests_compared"] = len(r["digests"])
                for k in sorted(r["digests"]):
                    if k in r2.get("digests", {}) and r2["digests"][k] != r["digests"][k]:
                        fails.append((b, k, ["result differs between two processes that did the "
                                             "same work in a different order"], True))

    def work_san():
        nonlocal san_note
        kind, prefix, secs = san
        if san_bin is None:
            san_note = {"sanitizer": kind, "run": False, "why": "the sanitizer build failed"}
            return
        res = os.path.join(EVID, ".%s.%s.result" % (prop, kind))
        log = os.path.join(EVID, ".%s.%s.log" % (prop, kind))
        if os.path.exists(res):
            os.remove(res)
        budget = secs if tier == "quick" else 1800
        cmd = [san_bin, "--prop", prop, "--out", res, "--seed", str(seed), "--tier", tier,
               "--budget", str(budget), "--match", prefix] + extra
        env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66 hard_rss_limit_mb=14000",
                   ASAN_OPTIONS="exitcode=66:detect_leaks=0:hard_rss_limit_mb=14000")
        rc = sh(cmd, env=env, timeout=max(10, min(deadline - time.time(), budget + 260)), log=log)
        text = open(log, "rb").read().decode("utf8", "replace") if os.path.exists(log) else ""
        k = max(text.find("ERROR: AddressSanitizer"), text.find("WARNING: ThreadSanitizer"))
        if k >= 0:
            fails.append((kind + " sanitizer", "process", [text[k:k + 1500]], True))
        r = None
        if os.path.exists(res):
            r = json.load(open(res))
            os.remove(res)
            for v in r["violations"] + r["unconfirmed"]:
                fails.append((kind + " sanitizer", v["case"], v["fails"], True))
        if os.path.exists(log):
            os.remove(log)
        san_note = {"sanitizer": kind, "run": r is not None, "ended_with": rc, "reports": int(k >= 0)}
        if r is not None:
            san_note.update({k2: r[k2] for k2 in ("cases_planned", "cases_run", "evaluations", "counters")})

    ts = [threading.Thread(target=work, args=(b,)) for b in bins]
    if san:
        ts.append(threading.Thread(target=work_san))
    [t.start() for t in ts]
    [t.join() for t in ts]

    kf, out_fails = [k for k in known() if k.get("property") == prop], []
    hit = set()
    for b, case, msgs, conf in fails:
        rest = []
        for m in msgs:
            k = [i for i, f in enumerate(kf) if f["case"] == case and f["match"] in m]
            if k:
                hit.update(k)
            else:
                rest.append(m)
        if rest:
            out_fails.append({"backend": b, "case": case, "fails": rest, "reproduced": conf})
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, kf[i]["case"], kf[i]["match"]))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results.values()),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results.values()),
            "rule": " || ".join(sorted(set(r["rule"] for r in results.values()))) or "none ran",
            "samples": sum((["%s: %s" % (b, s) for s in r["samples"][:8]] for b, r in results.items()), []),
            "backends": {b: {k: r[k] for k in ("cases_planned", "cases_run", "evaluations",
                                               "distinct_nontrivial", "hooks", "counters", "notes")}
                         for b, r in results.items()},
        },
        "assumptions": sorted(set(sum((r["assumptions"] for r in results.values()), []))),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(out_fails),
    }
    for b, r in results.items():
        if "fresh_process_digests_compared" in r:
            ev["coverage"]["backends"][b]["fresh_process_digests_compared"] = r["fresh_process_digests_compared"]
    if san_note:
        ev["coverage"]["sanitizer"] = san_note
    if errors:
        ev["coverage"]["not_run"] = errors
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if out_fails:
        rp = os.path.join(EVID, "%s.replay.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier,
                       "how": "VERIF_SEED=%d python3 check.py %s --tier %s --case '<case>'" % (seed, prop, tier),
                       "failures": out_fails[:50]}, f, indent=1)
        for f in out_fails[:5]:
            sys.stderr.write("%s %s: %s\n" % (f["backend"], f["case"], f["fails"][0][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if "real" not in results and "sim" not in results or any("ended with" in e for e in errors):
        sys.stderr.write("\n".join(errors) + "\n")
        for b in bins:
            if bins[b][0] is None:
                sys.stderr.write(open(bins[b][2]).read()[-1500:])
        sys.exit(2)
    sys.exit(0)


main()
