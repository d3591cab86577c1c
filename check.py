#!/usr/bin/env python3
"""Runs the monitored workloads of one property against /repo's current tree.

  check.py C13                     quick tier        (exit 0 held, 1 VIOLATION, 2 no answer)
  check.py C13 --tier thorough     deeper
  check.py --replay FILE           re-runs one recorded case in the build it was seen in
  check.py --setup                 builds the harness (all configurations)
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
TARGET = "x86_64-unknown-linux-gnu"
NCPU = max(1, min(8, os.cpu_count() or 1))


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------------------- builds

CONFIGS = {
    # assertions and overflow checks on, edge counters and comparison tracing in the code under test
    "checked": dict(
        cmd=["cargo", "build", "--offline"], bin="debug/vp",
        env={"VP_SANCOV": "1", "RUSTC_WRAPPER": os.path.join(ROOT, "tools/rustc-wrap.sh")},
        what="debug assertions + overflow checks + sanitizer coverage feedback"),
    # as users build it: wrapping arithmetic, no assertions
    "plain": dict(cmd=["cargo", "build", "--offline", "--release"], bin="release/vp", env={}, args=["--plain"],
                  what="release build (overflow wraps, no debug assertions)"),
    "asan": dict(cmd=["cargo", "+nightly", "build", "--offline", "--target", TARGET], bin=TARGET + "/debug/vp",
                 env={"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"},
                 run_env={"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1", "VP_SLOW": "4"},
                 what="AddressSanitizer"),
    "tsan": dict(cmd=["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--target", TARGET], bin=TARGET + "/debug/vp",
                 env={"RUSTFLAGS": "-Zsanitizer=thread"},
                 run_env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0", "VP_SLOW": "10"},
                 what="ThreadSanitizer (standard library instrumented too)"),
    "msan": dict(cmd=["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--target", TARGET], bin=TARGET + "/debug/vp",
                 env={"RUSTFLAGS": "-Zsanitizer=memory -Cforce-frame-pointers=yes"},
                 run_env={"MSAN_OPTIONS": "exitcode=66:allocator_may_return_null=1", "VP_SLOW": "6"},
                 what="MemorySanitizer (standard library instrumented too)"),
    "miri": dict(cmd=["cargo", "+nightly", "miri", "run", "--offline", "--", "list"], bin=None, env={},
                 run_env={"MIRIFLAGS": "-Zmiri-disable-isolation", "VP_SLOW": "1000"},
                 what="Miri, the undefined-behaviour interpreter"),
}


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith("CARGO_") and k not in ("CARGO_HOME",)) and k not in
         ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTDOCFLAGS", "MIRIFLAGS", "RUST_BACKTRACE", "VP_SLOW", "VP_SANCOV", "RUSTUP_TOOLCHAIN")
         and not k.endswith("SAN_OPTIONS")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    return e


def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, ["src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo", "rust-toolchain", "rust-toolchain.toml"]),
             (HARNESS, ["src", "calls", "Cargo.toml", "Cargo.lock", "build.rs"]), (ROOT, ["tools/rustc-wrap.sh"])]
    for base, names in roots:
        for n in names:
            p = os.path.join(base, n)
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, dn, fs in os.walk(p) for f in fs if "/target" not in d)
            for f in files:
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(cfg):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    stamp = os.path.join(d, ".vp-stamp")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have == want and (c["bin"] is None or os.path.exists(os.path.join(d, c["bin"]))):
        return
    # cargo decides staleness by time stamps; build afresh whenever the contents differ
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = base_env()
    env.update(c["env"])
    env.update({k: v for k, v in c.get("run_env", {}).items() if k == "MIRIFLAGS"})
    env["CARGO_TARGET_DIR"] = d
    t = time.time()
    run = lambda: subprocess.run(c["cmd"], cwd=HARNESS, env=env, capture_output=True, text=True, errors="replace")
    r = run()
    if r.returncode != 0:
        # a compiler that was killed, say: once more from nothing
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        r = run()
    if r.returncode != 0 and "VP_SANCOV" in c["env"]:
        # without coverage feedback rather than not at all
        env.pop("VP_SANCOV")
        r = run()
    if r.returncode != 0:
        raise NoAnswer(f"build {cfg} failed:\n" + r.stderr[-3000:])
    if cfg in ("checked", "plain"):
        s = subprocess.run([os.path.join(d, c["bin"]), "selftest"], capture_output=True, text=True, errors="replace")
        if s.returncode != 0:
            raise NoAnswer(f"oracle self-test failed ({cfg}): " + s.stdout[-500:] + s.stderr[-500:])
    with open(stamp, "w") as f:
        f.write(want)
    print(f"[{cfg}] built in {time.time() - t:.1f} s", flush=True)


# ---------------------------------------------------------------------------- running

def vp_cmd(cfg):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    env = base_env()
    env.update(c.get("run_env", {}))
    if c["bin"] is None:
        env["CARGO_TARGET_DIR"] = d
        return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--"], env
    return [os.path.join(d, c["bin"])], env


def spawn(argv, env, log, timeout):
    """Runs a worker in its own process group; returns (rc, stdout, stderr), rc None on time-out."""
    with open(log + ".out", "wb") as o, open(log + ".err", "wb") as e:
        p = subprocess.Popen(argv, cwd=HARNESS, env=env, stdout=o, stderr=e, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = None
    rd = lambda x: open(log + x, "rb").read().decode(errors="replace")
    return rc, rd(".out"), rd(".err")


def read_journal(path):
    try:
        b = open(path, "rb").read()
        n = int.from_bytes(b[:8], "little")
        name = b[8:8 + n].decode()
        at = 8 + n
        idx = int.from_bytes(b[at:at + 8], "little")
        seed = int.from_bytes(b[at + 8:at + 16], "little")
        pl = int.from_bytes(b[at + 16:at + 24], "little")
        return dict(scenario=name, idx=idx, seed=seed, tape=b[at + 24:at + 24 + pl].hex(), dict=path + ".dict")
    except Exception:
        return None


def replay_args(prop, v):
    a = ["replay", prop, v["scenario"], str(v["idx"]), v["tape"] or "-", "--seed", str(v.get("seed", 0))]
    if v.get("dict_hex"):
        p = os.path.join(BUILD, "replay.dict")
        open(p, "wb").write(bytes.fromhex(v["dict_hex"]))
        a += ["--dict", p]
    if v.get("thorough"):
        a.append("--thorough")
    return a


def run_replay(prop, v, timeout=900):
    cmd, env = vp_cmd(v["config"])
    log = os.path.join(BUILD, f"replay-{prop}-{os.getpid()}")
    r = spawn(cmd + replay_args(prop, v), env, log, timeout)
    for x in (".out", ".err"):
        try:
            os.remove(log + x)
        except OSError:
            pass
    return r


def crash_kind(rc, err):
    """What an abnormal end of a worker means, or None if it is not the code under test's doing."""
    if "WARNING: ThreadSanitizer" in err:
        return "data race reported by ThreadSanitizer"
    if "WARNING: MemorySanitizer" in err:
        return "MemorySanitizer: use of uninitialised value"
    if "ERROR: AddressSanitizer" in err:
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
        return f"AddressSanitizer: {m.group(1) if m else 'error'}"
    if "error: Undefined Behavior" in err:
        return "undefined behaviour reported by Miri"
    if rc == 97 and "VP-HANG" in err:
        return "the call did not end (CPU time limit)"
    if rc == 98 and "VP-STUCK" in err:
        return "the call did not end (all threads blocked)"
    if "has overflowed its stack" in err:
        return "stack overflow"
    if "memory allocation of" in err:
        return "memory exhausted (allocation limit)"
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGTRAP):
        return f"process died of {signal.Signals(-rc).name}"
    return None


def run_config(prop, cfg, seed, secs, thorough, extra, shards, timeout, work):
    """Runs all shards of one configuration; returns (reports, crashes)."""
    cmd, env = vp_cmd(cfg)
    c = CONFIGS[cfg]

    def one(i):
        out = os.path.join(work, f"{cfg}.{i}.json")
        a = cmd + ["run", prop, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--secs", str(secs), "--out", out]
        a += c.get("args", []) + (["--thorough"] if thorough else []) + extra
        rc, so, se = spawn(a, env, os.path.join(work, f"{cfg}.{i}"), timeout)
        rep = None
        if rc == 0:
            if cfg == "miri":
                m = [l for l in so.splitlines() if l.startswith("VP-REPORT ")]
                if m:
                    rep = json.loads(m[-1][10:])
            elif os.path.exists(out):
                rep = json.load(open(out))
        return i, rc, so, se, out, rep

    reports, crashes = [], []
    with cf.ThreadPoolExecutor(shards) as ex:
        for i, rc, so, se, out, rep in ex.map(one, range(shards)):
            if rep is not None:
                if rep["harness_error"]:
                    raise NoAnswer(f"{cfg} shard {i}: {rep['harness_error']}")
                rep["config"], rep["shard"], rep["hash"] = cfg, i, out + ".hash"
                reports.append(rep)
                continue
            kind = crash_kind(rc, se) if rc is not None else None
            if cfg == "miri" and rc is None:
                print(f"[miri] worker {i} was stopped at its time limit; nothing reported until then", flush=True)
                continue
            j = read_journal(out + ".journal")
            if kind is None:
                raise NoAnswer(f"{cfg} shard {i} ended with {rc} (last case {j and (j['scenario'], j['idx'])}): {se[-1500:]}")
            v = dict(sig=kind, detail=se[-6000:], config=cfg, scenario=j["scenario"] if j else "?", idx=j["idx"] if j else 0,
                     seed=j["seed"] if j else 0, tape=j["tape"] if j else "", thorough=thorough, crash=True,
                     rerun=["run", prop, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--secs", str(secs)] + c.get("args", []) + (["--thorough"] if thorough else []) + extra)
            if j and os.path.exists(j["dict"]):
                v["dict_hex"] = open(j["dict"], "rb").read().hex()
            crashes.append(v)
    return reports, crashes


# what runs for which property: (configuration, seconds quick, seconds thorough, extra arguments)
DEFAULT = [("checked", 10, 150, []), ("plain", 8, 150, [])]
PLAN = {
    "C23": [("plain", 8, 100, []), ("tsan", 12, 150, ["--frac", "4"]), ("checked", 4, 30, ["--frac", "4"]),
            ("miri", 10, 120, ["--only", "threads"])],
    "C24": [("checked", 10, 150, []), ("asan", 10, 200, []), ("msan", 10, 200, []), ("miri", 25, 300, ["--only", "ub-small"])],
}


def known_sigs(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) sig=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "exploration"


def check(prop, tier, seed, only_cfg=None):
    t0 = time.time()
    thorough = tier == "thorough"
    plan = [p for p in PLAN.get(prop, DEFAULT) if not only_cfg or p[0] == only_cfg]
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(EVID, "replay", f))
    ev_path = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    notes = []

    def try_build(p):
        try:
            build(p[0])
            return p
        except NoAnswer as e:
            if p[0] in ("checked", "plain"):
                raise
            # the code builds and runs, only not under this instrument
            notes.append(f"{p[0]} not run: {str(e)[-300:]}")
            return None

    with cf.ThreadPoolExecutor(len(plan)) as ex:
        plan = [p for p in ex.map(try_build, plan) if p]
    t_build = time.time() - t0

    reports, viols, per_cfg = [], [], {}
    known = known_sigs(prop)
    is_known = lambda v: any(v["sig"] == s for s, _ in known)
    for cfg, q, t, extra in plan:
        t1 = time.time()
        timeout = 4 * (t if thorough else q) + (3600 if thorough else 90 if cfg == "miri" else 240)
        reps, crashes = run_config(prop, cfg, seed, t if thorough else q, thorough, extra, NCPU, timeout, work)
        reports += reps
        for r in reps:
            for v in r["violations"]:
                v.update(config=cfg, thorough=thorough, crash=False)
                if all(x["sig"] != v["sig"] for x in viols):
                    viols.append(v)
        for v in crashes:
            if any(x["sig"] == v["sig"] for x in viols):
                continue
            if "Sanitizer" in v["sig"] or "Miri" in v["sig"] or "blocked" in v["sig"]:
                viols.append(v)  # the report itself is the proof
                continue
            ok = False
            for _ in range(2):
                rc, so, se = run_replay(prop, v)
                if rc == 1 or (rc is not None and crash_kind(rc, se)):
                    ok = True
                    break
            if not ok:
                # the case alone does not reproduce it: repeat the whole shard
                cmd, env = vp_cmd(cfg)
                rc, so, se = spawn(cmd + v["rerun"] + ["--out", os.path.join(work, "again.json")], env, os.path.join(work, "again"), timeout)
                ok = rc is not None and crash_kind(rc, se) is not None
            if not ok and "SIG" not in v["sig"]:
                # a limit was hit once, under whatever else the machine was doing; not evidence
                notes.append(f"{cfg}: {v['sig']} in {v['scenario']}[{v['idx']}] did not happen again")
                continue
            v["reproduced"] = ok
            viols.append(v)
        tot = lambda k: sum(r[k] for r in reps)
        per_cfg[cfg] = dict(instrumentation=CONFIGS[cfg]["what"], workers=NCPU, cases=tot("evals"), calls_into_library=tot("calls"),
                            panics_observed=tot("refusals"), enumerated_items=tot("sweep_done"), enumerated_planned=tot("sweep_total"),
                            random_cases=tot("random"), seconds=round(time.time() - t1, 1))
        if any(r["edges"] for r in reps):
            per_cfg[cfg].update(edges_hit_max=max(r["edges_hit"] for r in reps), edges_instrumented=max(r["edges"] for r in reps),
                                corpus=tot("corpus"))
        if any(not is_known(v) for v in viols):
            break

    new = [v for v in viols if not is_known(v)]
    evals = sum(r["evals"] for r in reports)
    if not new and (evals == 0 or any(p[0] not in per_cfg or per_cfg[p[0]]["cases"] == 0 for p in plan)):
        raise NoAnswer("the monitors observed nothing")
    hashes = [r["hash"] for r in reports if os.path.exists(r["hash"])]
    distinct = max([r["distinct"] for r in reports], default=0)
    exe = next((vp_cmd(p[0])[0] for p in plan if CONFIGS[p[0]]["bin"]), None)
    if hashes and exe:
        r = subprocess.run(exe + ["distinct"] + hashes, capture_output=True, text=True)
        if r.returncode == 0:
            distinct = int(r.stdout)
    classes, scen, samples = {}, {}, []
    for r in reports:
        for k, n in r["classes"].items():
            classes[k] = classes.get(k, 0) + n
        for k, n in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + n
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append(s)
    ev = dict(property=prop, tier=tier, seed=seed, level=level_of(prop),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=reports[0]["rule"] if reports else "", samples=samples or ["(stopped at the first violation)"],
                            calls_into_library=sum(r["calls"] for r in reports), observed_classes=classes, cases_per_scenario=scen,
                            configurations=per_cfg, known_findings_seen=sorted({v["sig"] for v in viols if is_known(v)}), build_s=round(t_build, 1), notes=notes),
              assumptions=["the reference implementations in harness/src/oracle (checked by `vp selftest` against published and independently computed vectors)",
                           "rustc, LLVM, the sanitizers and Miri report faithfully"],
              wall_s=round(time.time() - t0, 1), violations=len(new))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)

    for v in viols:
        if is_known(v):
            what = next(d for s, d in known if s == v["sig"])
            print(f"KNOWN-FINDING: property={prop} {what}")
    for n, v in enumerate(new):
        path = os.path.join(EVID, "replay", f"{prop}-{n}.json")
        v["property"] = prop
        v["how"] = f"python3 check.py --replay {os.path.relpath(path, ROOT)}"
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"  {v['sig']} [{v['config']}, {v['scenario']}[{v['idx']}]]: {v['detail'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier}: {evals} cases, {distinct} distinct, {len(new)} violations, {time.time() - t0:.1f} s", flush=True)
    return 1 if new else 0


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    try:
        os.makedirs(BUILD, exist_ok=True)
        if "--setup" in a:
            with cf.ThreadPoolExecutor(3) as ex:
                list(ex.map(build, ["checked", "plain", "asan", "tsan", "msan", "miri"]))
            return 0
        if "--replay" in a:
            v = json.load(open(opt("--replay", "")))
            build(v["config"])
            if v.get("crash") and not v.get("reproduced"):
                cmd, env = vp_cmd(v["config"])
                rc, so, se = spawn(cmd + v["rerun"] + ["--out", os.path.join(BUILD, "again.json")], env, os.path.join(BUILD, "again"), 3600)
            else:
                rc, so, se = run_replay(v["property"], v)
            print(so + se)
            bad = rc == 1 or (rc is not None and crash_kind(rc, se) is not None)
            print("reproduced" if bad else f"not reproduced (rc {rc})")
            return 1 if bad else 0
        tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
        seed = int(os.environ.get("VERIF_SEED", "1") or 1) & 0xFFFFFFFF
        return check(a[0], tier, seed, opt("--config", None))
    except NoAnswer as e:
        print(f"NO-ANSWER {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
