#!/usr/bin/env python3
"""Decides one property: `python3 run.py C07 [quick|thorough]`.

Builds the harness against /repo's current tree, in one or more instrumented
builds, runs the property's workload under them, and turns what the monitors
saw into a verdict:

  exit 0  the property held on everything that ran
  exit 1  violated; a line `VIOLATION property=<id> replay=<path>` says how to
          run the failing case again
  exit 2  no verdict: the harness failed, or did not observe enough

`python3 run.py --setup` builds everything the quick checks use.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLAXON_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
TARGET = "x86_64-unknown-linux-gnu"

# On foreign machines it is the results that matter; the native interpreter
# looks for undefined behaviour.
MACHINE_FLAGS = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks "
                              "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"}

# One entry per instrumented build.
#   toolchain, cargo profile, RUSTFLAGS, features, extra cargo arguments
VARIANTS = {
    # Optimised, every debug assertion, overflow check and unsafe-precondition
    # check on, counting and poisoning allocator.
    "checked": dict(tc=None, profile="checked", flags="", feat="", args=[]),
    # As shipped: no assertions, wrapping arithmetic. Counting allocator.
    "release": dict(tc=None, profile="release", flags="", feat="", args=[]),
    "asan": dict(tc="+nightly", profile="release", flags="-Zsanitizer=address", feat="san",
                 args=["--target", TARGET]),
    "msan": dict(tc="+nightly", profile="release",
                 flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins", feat="san",
                 args=["--target", TARGET, "-Zbuild-std"]),
    "tsan": dict(tc="+nightly", profile="release", flags="-Zsanitizer=thread", feat="san",
                 args=["--target", TARGET, "-Zbuild-std"]),
    "miri": dict(tc="+nightly", profile="dev", flags="", feat="san", args=[], miri=True),
    # The interpreter as another machine: big-endian; 32 bits.
    "miri-be": dict(tc="+nightly", profile="dev", flags="", feat="san", miri=True,
                    args=["--target", "s390x-unknown-linux-gnu"], env=MACHINE_FLAGS),
    "miri-32": dict(tc="+nightly", profile="dev", flags="", feat="san", miri=True,
                    args=["--target", "i686-unknown-linux-gnu"], env=MACHINE_FLAGS),
}

ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8192",
    "MSAN_OPTIONS": "exitcode=99:abort_on_error=0:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0:allocator_may_return_null=1",
    "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks",
}

# What each tier runs: (variant, scale, options).
Q, T = "quick", "thorough"
ALL = ["C%02d" % i for i in range(1, 23)]
PLAN = {p: {Q: [("checked", 4.0, {}), ("release", 0.5, {})], T: [("checked", 1.0, {}), ("release", 0.3, {})]} for p in ALL}
# Unary numbers around 2^32 are out of reach of an interpreter.
MIRI02 = "random,mutated,crafted,subframe,metadata"
PLAN["C02"][Q] += [("asan", 0.25, {}), ("miri", 0.01, {"procs": 8, "stage-cap": 8, "only": MIRI02})]
PLAN["C02"][T] += [("asan", 0.2, {}), ("miri", 0.01, {"procs": 8, "stage-cap": 150, "only": MIRI02})]
PLAN["C08"][Q] += [("msan", 0.1, {})]
PLAN["C08"][T] += [("msan", 0.05, {})]
PLAN["C18"][Q] += [("asan", 0.3, {}), ("msan", 0.3, {}), ("miri", 0.01, {"procs": 8, "stage-cap": 15})]
PLAN["C18"][T] += [("asan", 0.3, {}), ("msan", 0.3, {}), ("miri", 0.01, {"procs": 8, "stage-cap": 300})]
PLAN["C19"][Q] += [("tsan", 0.15, {})]
PLAN["C19"][T] += [("tsan", 0.1, {})]
# Other machines, where the cases are small enough for an interpreter.
MACHINES = {
    "C01": "frames,streams,subframes,grid_rice",
    "C02": MIRI02,
    "C04": "tampers,subframe",
    "C06": "transports,packets,metadata",
    "C07": "bytes,readbytes",
    "C09": "valid,boundary,bits,length",
    "C10": "valid,mutate,utf8,none",
    "C11": "errors,streams_bad",
    "C14": "agree,mixed",
    "C15": "streams,numbers,short",
    "C16": "random,pairs,sign",
    "C17": "run",
    "C18": "read,bytes",
    "C20": "stream,bytes,ops",
    "C21": "streams,parts,bytes",
    "C22": "all,made",
}
for p, stages in MACHINES.items():
    for v in ("miri-be", "miri-32"):
        PLAN[p][T] += [(v, 0.01, {"procs": 8, "stage-cap": 60, "only": stages})]
for p in ("C09", "C16", "C17"):
    PLAN[p][Q] += [("miri-be", 0.01, {"procs": 8, "stage-cap": 10, "only": MACHINES[p]})]
# The interpreter on this machine, for the parts that lean on unsafe code.
for p, stages in (("C14", MACHINES["C14"]), ("C16", MACHINES["C16"]), ("C17", MACHINES["C17"]), ("C08", "valid,crafted,subframe"), ("C10", MACHINES["C10"])):
    PLAN[p][T] += [("miri", 0.01, {"procs": 8, "stage-cap": 60, "only": stages})]
for p in ("C01", "C05", "C06", "C07", "C08", "C14", "C17"):
    PLAN[p][T] += [("asan", 0.05, {})]

CAP = {Q: 420, T: 1500}          # seconds of workload per variant
TOTAL = {Q: 640, T: 9000}        # seconds for a check, builds included; what is left caps the workload
KILL = {Q: 600, T: 3600}         # seconds after which a run is inconclusive
DEADLINE = [None]


class Trouble(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for top in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files.append(os.path.join(HARNESS, "Cargo.toml"))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo(variant, verb):
    v = VARIANTS[variant]
    env = dict(os.environ)
    env.update(ENV)
    env.update(v.get("env", {}))
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, variant)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    if v["flags"]:
        env["RUSTFLAGS"] = v["flags"]
    cmd = ["cargo"] + ([v["tc"]] if v["tc"] else []) + verb
    return cmd, env


def binary(variant):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    if TARGET in v["args"]:
        d = os.path.join(d, TARGET)
    return os.path.join(d, v["profile"], "vh")


def build(variant):
    """Builds a variant if its sources changed since it was last built."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = source_hash()
        stamp = os.path.join(BUILD, variant + ".hash")
        try:
            have = open(stamp).read().strip()
        except OSError:
            have = None
        if have == want and (VARIANTS[variant].get("miri") or os.path.exists(binary(variant))):
            return
        v = VARIANTS[variant]
        feat = ["--features", v["feat"]] if v["feat"] else []
        if have is not None:
            # Do not trust time stamps to tell that the sources changed.
            cmd, env = cargo(variant, ["clean", "-p", "claxon", "-p", "vh", "--offline"]
                             + ([] if v.get("miri") else ["--profile", v["profile"]])
                             + (["--target", TARGET] if TARGET in v["args"] else []))
            subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            if v.get("miri"):
                shutil.rmtree(os.path.join(BUILD, variant, "miri"), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        t0 = time.time()
        if v.get("miri"):
            cmd, env = cargo(variant, ["miri", "run", "--offline"] + v["args"] + feat + ["--", "list"])
        else:
            cmd, env = cargo(variant, ["build", "--offline", "--locked", "--profile", v["profile"]]
                             + feat + v["args"])
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise Trouble("build of variant %s failed:\n%s" % (variant, r.stdout[-6000:]))
        with open(stamp, "w") as f:
            f.write(want)
        log("built %s in %.1f s" % (variant, time.time() - t0))


def dictionary():
    """Numbers and words in the code under test, which the generators mention
    now and then. They shape inputs and never decide anything."""
    numbers, words = set(), set()
    for dirpath, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(dirpath, f), errors="replace") as h:
                s = h.read()
            s = re.sub(r"//[^\n]*", "", s)
            for b, w in re.findall(r'(b?)"((?:[^"\\\n]|\\.)*)"', s):
                if 0 < len(w) <= 40 and "\\" not in w and w.isprintable():
                    words.add(w)
            for w in re.findall(r"b?'([^'\\\n])'", s):
                numbers.add(ord(w))
            s = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', s)
            # Tables of test data say nothing.
            s = re.sub(r"\[[-\w,\s]{80,}\]", "", s)
            num = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?[iu](?:8|16|32|64|size))?"
            for e in re.findall(r"(?<![\w.])%s(?:\s*(?:<<|\*|\+|-)\s*%s)*" % (num, num), s):
                parts = re.split(r"(<<|\*|\+|-)", re.sub(r"\s", "", e))
                try:
                    vals = [p if i % 2 else str(int(re.sub(r"_|[iu](8|16|32|64|size)$", "", p), 0))
                            for i, p in enumerate(parts)]
                except ValueError:
                    continue
                numbers.update(int(v) for v in vals[::2])
                if len(vals) in (3, 5) and all(int(v) < 1 << 64 for v in vals[::2]):
                    if "<<" in vals and int(vals[vals.index("<<") + 1]) > 63:
                        continue
                    numbers.add(eval("".join(vals)))
    # Powers of two and their neighbours occur to everybody.
    numbers.update(1 << i for i in range(5, 37))
    numbers = sorted(n for n in numbers if 0 <= n < 1 << 64)
    return {"VH_NUMBERS": ",".join(map(str, numbers)), "VH_WORDS": "\x1f".join(sorted(words))}


def command(prop, variant, tier, seed, scale, opt, out):
    cmd = ["run", prop, "--tier", tier, "--seed", str(seed), "--variant", variant,
           "--scale", repr(scale), "--out", out,
           "--cap", str(int(max(20, min(CAP[tier], DEADLINE[0] - time.time()))))]
    for k in ("only", "threads", "stage-cap"):
        if k in opt:
            cmd += ["--" + k, str(opt[k])]
    v = VARIANTS[variant]
    if v.get("miri"):
        return cargo(variant, ["miri", "run", "--offline"] + v["args"] + ["--features", v["feat"], "--"]
                     + cmd + ["--threads", "1", "--trace"])
    return [binary(variant)] + cmd, dict(os.environ, **dict(ENV, **dictionary()))


def run_variant(prop, variant, scale, opt, tier, seed):
    """Returns (reports, violation or None, seconds)."""
    t0 = time.time()
    n = opt.get("procs", 1)
    procs = []
    for k in range(n):
        out = os.path.join(BUILD, "%s-%s-%d-%d.json" % (prop, variant, os.getpid(), k))
        if os.path.exists(out):
            os.remove(out)
        sd = seed if n == 1 else seed * 1000 + k
        cmd, env = command(prop, variant, tier, sd, scale, opt, out)
        so, se = open(out + ".so", "w+"), open(out + ".se", "w+")
        p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=so, stderr=se)
        procs.append((p, out, sd, so, se))
    reps, violation, trouble = [], None, None
    for p, out, sd, so, se in procs:
        try:
            rc = p.wait(timeout=max(1, KILL[tier] - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        texts = []
        for f in (so, se):
            f.seek(0)
            texts.append(f.read())
            f.close()
            os.remove(f.name)
        rep = None
        if os.path.exists(out):
            with open(out) as f:
                rep = json.load(f)
            os.remove(out)
            reps.append(rep)
        try:
            if rc is None:
                raise Trouble("%s under %s did not finish within %d s" % (prop, variant, KILL[tier]))
            v = verdict(prop, variant, rc, rep, texts[0], texts[1])
            if v and not violation:
                v["seed"] = sd
                violation = v
        except Trouble as e:
            trouble = e
    if trouble and not violation:
        raise trouble
    return reps, violation, time.time() - t0


def verdict(prop, variant, rc, rep, so, se):
    if rc == 0 and rep is not None:
        return None
    if rc == 1 and rep is not None and rep.get("violation"):
        x = rep["violation"]
        return dict(stage=x["stage"], idx=x["idx"], msg=x["msg"], kind="oracle")
    where = re.search(r"^(CRASH|HANG|BLOCKED)(.*?) ?stage=(\S+) idx=(\d+)", so, re.M)
    if not where:
        where = (re.findall(r"^(CASE)() stage=(\S+) idx=(\d+)$", se, re.M) or [None])[-1]
        stage, idx = (where[2], int(where[3])) if where else ("?", 0)
    else:
        stage, idx = where.group(3), int(where.group(4))
    se = re.sub(r"^CASE .*\n", "", se, flags=re.M)
    if rc == 86:
        return dict(stage=stage, idx=idx, kind="crash",
                    msg="the process died: %s\n%s" % (so.strip()[-300:], se[-3000:]))
    if rc == 87:
        return dict(stage=stage, idx=idx, kind="hang",
                    msg="a case exhausted its budget of processor time")
    if rc == 88:
        return dict(stage=stage, idx=idx, kind="deadlock",
                    msg="a case slept for more than a minute: threads wait for each other")
    if rc == 99 or re.search(r"(ERROR|WARNING): (Address|Memory|Thread)Sanitizer", se):
        if re.search(r"out of memory|out-of-memory|allocation-size-too-big", se):
            raise Trouble("%s under %s ran out of memory:\n%s" % (prop, variant, se[-1500:]))
        return dict(stage=stage, idx=idx, kind="sanitizer", msg=se[:6000])
    if VARIANTS[variant].get("miri") and re.search(r"^error: (Undefined Behavior|abnormal termination|the evaluated program deadlocked)", se, re.M):
        return dict(stage=stage, idx=idx, kind="miri", msg=se[-6000:])
    raise Trouble("%s under %s: exit status %s\n%s\n%s" % (prop, variant, rc, so[-2000:], se[-2000:]))


def write_replay(prop, variant, tier, v):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%s.json" % (prop, variant))
    how = ["replay", prop, v["stage"], str(v["idx"]), "--seed", str(v["seed"]), "--tier", tier]
    miri = VARIANTS[variant].get("miri")
    if miri:
        how = ["cargo", "+nightly", "miri", "run", "--offline"] + VARIANTS[variant]["args"] + ["--features", "san", "--"] + how
    else:
        how = [binary(variant)] + how
    with open(path, "w") as f:
        json.dump(dict(property=prop, variant=variant, tier=tier, seed=v["seed"], stage=v["stage"],
                       idx=v["idx"], kind=v["kind"], message=v["msg"][:20000], cwd=HARNESS,
                       rustflags=VARIANTS[variant]["flags"], environment=dict(dict(ENV, **VARIANTS[variant].get('env', {})), **({} if miri else dictionary())), command=how), f, indent=1)
    return path


def findings(prop):
    """Lines of known-findings.txt that list a finding for this property."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def repo_commit():
    r = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    return r.stdout.strip()


def trim(o):
    """Keeps the evidence readable: long histograms are summarised."""
    r = {}
    for k, h in sorted(o.items()):
        vals = h["values"]
        if len(vals) > 40:
            vals = dict(list(vals.items())[:40], more="...")
        r[k] = {"total": h["total"], "distinct": h["distinct"], "values": vals}
    return r


def decide(prop, tier, seed):
    t0 = time.time()
    DEADLINE[0] = t0 + TOTAL[tier]
    runs, violation = [], None
    samples, rule, distinct = [], "", 0
    observed = {}
    builds = {v: None for v, _, _ in PLAN[prop][tier]}
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        builds = {v: pool.submit(build, v) for v in builds}
    for variant, scale, opt in PLAN[prop][tier]:
        builds[variant].result()
        reps, v, wall = run_variant(prop, variant, scale, opt, tier, seed)
        if reps:
            rule = reps[0]["rule"]
            samples = samples or reps[0]["samples"]
            observed = observed or reps[0]["observed"]
            # Every process of one build has its own seed; builds share theirs.
            dist = sum(r["distinct"] for r in reps)
            distinct = max(distinct, dist)
            evals = sum(r["evaluations"] for r in reps)
            runs.append(dict(build=variant, processes=len(reps), evaluations=evals, distinct=dist,
                             stages=reps[0]["stages"], capped=reps[0]["capped"], wall_s=round(wall, 2)))
            log("%s %s: %d evaluations, %d distinct, %.1f s" % (prop, variant, evals, dist, wall))
        if v:
            violation = (variant, v)
            break
    path = None
    if violation:
        variant, v = violation
        path = write_replay(prop, variant, tier, v)
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in runs),
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": [s[:400] for s in samples[:10]],
            "builds": runs,
            "observed": trim(observed),
        },
        "assumptions": [
            "The oracle and the generators in harness/src are right: they are written from the "
            "format specification, not from the code under test.",
            "Nothing is claimed about inputs, schedules and faults that did not occur in this run.",
        ],
        "repo_commit": repo_commit(),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    tmp = os.path.join(EVIDENCE, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))
    if violation:
        variant, v = violation
        log("%s violated (%s build, %s, stage %s, case %s, seed %d):\n%s" %
            (prop, variant, v["kind"], v["stage"], v["idx"], v["seed"], v["msg"][:3000]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for f in findings(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, f))
    log("%s held on everything explored (%.1f s)" % (prop, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            used = []
            for p in ALL:
                for v, _, _ in PLAN[p][Q]:
                    if v not in used:
                        used.append(v)
            with concurrent.futures.ThreadPoolExecutor(3) as pool:
                for f in [pool.submit(build, v) for v in used]:
                    f.result()
            return 0
        if not a or a[0] not in PLAN:
            print(__doc__)
            return 2
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", Q)
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return decide(a[0], tier, seed)
    except Trouble as e:
        log("no verdict: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
