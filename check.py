#!/usr/bin/env python3
"""Build and run the check of one property.

  check.py <property> [quick|thorough]     run a check (VERIF_SEED, VERIF_TIER)
  check.py replay <replay file>            replay a failing case on the current tree
  check.py build <property>                only build

Exit 0: the property held on everything explored. Exit 1: VIOLATION. Exit 2: the check could not run.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
JOBS = int(os.environ.get("VERIF_JOBS", 0)) or max(2, min(8, os.cpu_count() or 8))

SAN = ("-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,"
       "bounds,bool,enum,vla-bound -fno-sanitize-recover=all -fno-omit-frame-pointer").split()
BASE = ["-std=c++14", "-w", "-I", REPO, "-I", SRC, "-I", os.path.join(SRC, "shim")]
LIBS = ["-lboost_coroutine", "-lboost_context", "-lboost_system", "-lboost_thread", "-lpthread"]
VARIANTS = {
    # Assertions on, address and undefined-behaviour sanitizers.
    "asan": ["clang++", "-O1", "-g1", "-mllvm", "-asan-stack=0", *SAN],
    # What a user ships: optimised, assertions off, the compiler of the project.
    "rel": ["g++", "-O2", "-DNDEBUG"],
    # As rel, with packed structures.
    "packed": ["g++", "-O2", "-DNDEBUG", "-DLIBSDD_PACKED"],
    # Coverage-guided.
    "fuzz": ["clang++", "-O1", "-g1", "-mllvm", "-asan-stack=0", "-fsanitize=fuzzer", "-DVF_LIBFUZZER", *SAN],
}


def plan():
    with open(os.path.join(VERIF, "plan.json")) as f:
        return json.load(f)


def tree_hash(files):
    h = hashlib.sha256()
    for p in sorted(files):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def build(pid, variant, cfg, pool):
    """Compile the check for a variant from the current tree; returns a future of the binary's path."""
    flags = VARIANTS[variant]
    confs = cfg["confs"]
    headers = glob.glob(os.path.join(REPO, "sdd", "**", "*"), recursive=True)
    headers = [h for h in headers if os.path.isfile(h)]
    sources = glob.glob(os.path.join(SRC, "*.hh")) + [os.path.join(SRC, "vf_main.cc"), os.path.join(SRC, cfg["src"])]
    key = hashlib.sha256((tree_hash(headers + sources) + " ".join(flags + BASE) + str(confs)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, pid.lower(), variant)
    exe = os.path.join(d, "check-" + key)

    def cc(src, obj, extra):
        cmd = [*flags, *BASE, *extra, "-c", src, "-o", obj]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
        return obj

    if os.path.exists(exe):
        return lambda: exe
    os.makedirs(d, exist_ok=True)
    for old in glob.glob(os.path.join(d, "*")):
        if os.path.isfile(old):
            os.unlink(old)
    futs = []
    for c in confs:
        obj = os.path.join(d, "conf%d.o" % c)
        futs.append(pool.submit(cc, os.path.join(SRC, cfg["src"]), obj, ["-DVF_CONF=%d" % c]))
    futs.append(pool.submit(cc, os.path.join(SRC, "vf_main.cc"), os.path.join(d, "main.o"), []))

    def link():
        objs = [f.result() for f in futs]
        tmp = exe + ".tmp"
        cmd = [*flags, *objs, "-o", tmp, *LIBS]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
        os.rename(tmp, exe)
        for o in objs:
            os.unlink(o)
        return exe

    return link


def known_findings():
    """Entries 'finding: property=<id> key=<key> ...' of KNOWN_FINDINGS.txt."""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


def fuzz_campaign(exe, rel_exe, pid, seed, secs, work, replay_out):
    """Coverage-guided exploration; a crash is confirmed and shrunk with the sanitized binary."""
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus)
    art = os.path.join(work, "artifact-")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0")
    cmd = [exe, corpus, "-seed=%d" % (seed * 7919 % 2147483647 or 1), "-max_total_time=%d" % secs, "-max_len=4096",
           "-len_control=50", "-timeout=120", "-rss_limit_mb=4000", "-fork=%d" % JOBS, "-ignore_crashes=0",
           "-ignore_timeouts=1", "-ignore_ooms=1", "-artifact_prefix=" + art, "-print_final_stats=1"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=work,
                       errors="replace")
    execs = 0
    cov = 0
    for m in re.finditer(r"#(\d+): cov: (\d+)", p.stdout):
        execs = max(execs, int(m.group(1)))
        cov = max(cov, int(m.group(2)))
    info = {"executions": execs, "coverage_edges": cov, "corpus": len(os.listdir(corpus)), "seconds": secs}
    for a in sorted(glob.glob(art + "crash-*")):
        data = open(a, "rb").read()
        choices = [data[i] | (data[i + 1] << 8) for i in range(0, len(data) - 1, 2)]
        rin = os.path.join(work, "fuzz-replay.json")
        with open(rin, "w") as f:
            json.dump({"property": pid, "variant": "asan", "kind": "case", "choices": choices}, f)
        n = 0
        for _ in range(3):
            r = subprocess.run([rel_exe, "--replay", rin, "--workdir", work], stdout=subprocess.PIPE, text=True,
                               errors="replace")
            n += r.returncode == 1
        if n == 3:
            r = subprocess.run([rel_exe, "--replay", rin, "--workdir", work, "--replay-out", replay_out,
                                "--variant", "asan"], stdout=subprocess.PIPE, text=True, errors="replace")
            info["violation"] = r.stdout[:3000]
            return info
        info["unconfirmed"] = info.get("unconfirmed", 0) + 1
    return info


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = plan()[pid]
    tcfg = cfg[tier]
    # To screen planted bugs cheaply: fewer configurations and variants.
    if os.environ.get("VERIF_CONFS"):
        cfg["confs"] = [int(c) for c in os.environ["VERIF_CONFS"].split(",")]
    if os.environ.get("VERIF_VARIANTS"):
        tcfg["runs"] = {v: n for v, n in tcfg["runs"].items() if v in os.environ["VERIF_VARIANTS"].split(",")}
    os.makedirs(EVIDENCE, exist_ok=True)
    replays = os.path.join(BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration")}
    runs = []
    violation = None
    variants = list(tcfg["runs"].items())
    pool = ThreadPoolExecutor(JOBS)
    try:
        links = {v: build(pid, v, cfg, pool) for v, _ in variants}
        if tcfg.get("fuzz"):
            links["fuzz"] = build(pid, "fuzz", cfg, pool)
        exes = {v: l() for v, l in links.items()}
    except BuildError as e:
        print("check %s: cannot build against the current tree:\n%s" % (pid, e))
        return 2
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid.lower())
    fuzz_info = None
    try:
        for variant, n in variants:
            if violation:
                break
            out = os.path.join(work, variant + ".json")
            rep = os.path.join(replays, "%s-%s-%s-%d.json" % (pid, tier, variant, seed))
            if os.path.exists(rep):
                os.unlink(rep)
            cmd = [exes[variant], "--seed", str(seed), "--cases", str(n), "--batch", str(cfg.get("batch", 40)),
                   "--jobs", str(JOBS), "--wall", str(tcfg.get("wall", 200)), "--out", out, "--replay-out", rep,
                   "--variant", variant, "--workdir", work, "--cpu", str(cfg.get("cpu", 30))]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("check %s: runner error %d\n%s" % (pid, p.returncode, p.stdout[-3000:]))
                return 2
            r = json.load(open(out))
            runs.append(r)
            if r["violated"]:
                violation = (rep, r["what"])
        if not violation and tcfg.get("fuzz"):
            rep = os.path.join(replays, "%s-%s-fuzz-%d.json" % (pid, tier, seed))
            fuzz_info = fuzz_campaign(exes["fuzz"], exes["asan"], pid, seed, tcfg["fuzz"], work, rep)
            if "violation" in fuzz_info:
                violation = (rep, fuzz_info["violation"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    evals = sum(r["evaluations"] for r in runs)
    lost = sum(r["environment"] for r in runs)
    samples = []
    for r in runs:
        samples += r["samples"][:4]
    labels = {}
    known = {}
    for r in runs:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        known.update(r["known"])
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": max([r["distinct_nontrivial"] for r in runs] or [0]),
        "rule": runs[0]["rule"] if runs else "",
        "samples": samples[:8] or ["(none)"],
        "runs": [{k: r[k] for k in ("variant", "evaluations", "distinct_nontrivial", "discarded", "unconfirmed",
                                    "environment", "wall_s", "notes")} for r in runs],
        "classes": labels,
        "build_s": round(t_build, 1),
    }
    if fuzz_info:
        cov["coverage_guided"] = fuzz_info
    evidence["coverage"] = cov
    evidence["assumptions"] = cfg.get("assumptions", [])
    evidence["violations"] = 1 if violation else 0
    evidence["wall_s"] = round(time.time() - t0, 1)
    listed = known_findings()
    unlisted = []
    for k, txt in sorted(known.items()):
        if (pid, k) in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[(pid, k)]))
        else:
            unlisted.append((k, txt))
    if unlisted and not violation:
        rep = os.path.join(replays, "%s-%s-finding-%d.json" % (pid, tier, seed))
        with open(rep, "w") as f:
            json.dump({"property": pid, "kind": "finding", "what": unlisted}, f)
        violation = (rep, str(unlisted))
        evidence["violations"] = 1
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("check %s (%s, seed %d): %d cases, %d distinct non-trivial, build %.0fs, total %.0fs" % (
        pid, tier, seed, evals, cov["distinct_nontrivial"], t_build, time.time() - t0))
    if violation:
        print(violation[1][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    if evals == 0 or lost > 3:
        print("check %s: inconclusive, %d batches lost to the environment" % (pid, lost))
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    if r.get("kind") == "finding":
        print(r["what"])
        return 1
    cfg = plan()[pid]
    pool = ThreadPoolExecutor(JOBS)
    exe = build(pid, r["variant"], cfg, pool)()
    work = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        p = subprocess.run([exe, "--replay", path, "--workdir", work, "--cpu", str(cfg.get("cpu", 30))])
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "build":
        cfg = plan()[sys.argv[2]]
        with ThreadPoolExecutor(JOBS) as pool:
            for l in [build(sys.argv[2], v, cfg, pool) for v in cfg["quick"]["runs"]]:
                print(l())
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run_check(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
