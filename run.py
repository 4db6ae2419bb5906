#!/usr/bin/env python3
"""Decide one property: build its harnesses from /repo's working tree, run every section under
sanitizers, merge what the monitors observed, write evidence, print the verdict.

usage: run.py <PROPERTY> [quick|thorough]        exit 0 held / 1 VIOLATION / 2 no verdict
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 8))
CPU_LIMIT = {"quick": 200, "thorough": 1500}
WALL_LIMIT = {"quick": 420, "thorough": 3000}
TOTAL = {"quick": 840, "thorough": 20000}
BASE = ["-std=c++20", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DQLPEPS_VERIF_MONITOR"]
SAN = {
    "au": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=vptr,alignment", "-fno-omit-frame-pointer"],
    "thread": ["-O1", "-fsanitize=thread"],
    "fast": ["-O2", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment"],
    "none": ["-O2"],
}


def log(*a):
    print(*a, flush=True)


def compile_one(job):
    src, out, flags = job
    t = time.time()
    inc = ["-I", f"{VERIF}/harness", "-I", f"{VERIF}/shim", "-I", f"{VERIF}/shim/mpi", "-I", f"{REPO}/include"]
    cmd = ["g++"] + BASE + flags + inc + [f"{VERIF}/harness/{src}", "-o", out, "-lpthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, p.returncode, p.stdout, " ".join(cmd), time.time() - t


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def run_section(b, sec, shard, seed, tier, work, deadline):
    """-> (status, report path, cmd, stderr tail)  status: ok | crash | cpu | wall"""
    tag = re.sub(r"\W+", "_", f"{b['name']}_{sec}_{shard}")
    out = f"{work}/{tag}.rep"
    res, leaks = None, 1
    for attempt in range(2):
        scratch = f"{work}/{tag}.d{attempt}"
        os.makedirs(scratch, exist_ok=True)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [b["bin"], "--section", sec, "--shard", str(shard), "--seed", str(seed), "--tier", tier,
               "--out", out, "--scratch", scratch]
        env = {k: v for k, v in os.environ.items() if not k.startswith("OMPI")}
        env["ASAN_OPTIONS"] = f"detect_leaks={leaks}:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["LSAN_OPTIONS"] = "exitcode=78"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=79"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=76"
        env["OMP_NUM_THREADS"] = "1"
        wl = max(20, min(WALL_LIMIT[tier], deadline - time.time()))
        with open(f"{work}/{tag}.err", "wb") as ef, open(f"{work}/{tag}.log", "wb") as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, preexec_fn=limits(CPU_LIMIT[tier]), cwd=scratch)
            try:
                rc = p.wait(timeout=wl)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if rc is None:
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
        err = open(f"{work}/{tag}.err", "rb").read()[-200000:].decode("utf8", "replace")
        if b"LeakSanitizer has encountered a fatal error" in err.encode() and attempt == 0:
            leaks = 0
            continue
        done = os.path.exists(out) and open(out).read().rstrip().endswith("DONE")
        if rc == 0 and done:
            return "ok", out, cmd, err
        if rc is None:
            res = ("wall", out, cmd, err)
        elif rc in (-signal.SIGXCPU, -signal.SIGKILL):
            res = ("cpu" if rc == -signal.SIGXCPU else "wall", out, cmd, err)
        elif rc == 3:
            return "setup", out, cmd, err
        else:
            return "crash", out, cmd, f"rc={rc}\n" + err
    return res


def crash_key(err):
    for pat, name in ((r"ERROR: AddressSanitizer: ([\w-]+)", "asan"), (r"ERROR: LeakSanitizer: ([\w ]+)", "leak"),
                      (r"runtime error: (.{0,60})", "ubsan"), (r"WARNING: ThreadSanitizer: ([\w ]+)", "tsan"),
                      (r"Assertion [`'](.{0,60})", "assert"), (r"terminate called.*?instance of '([^']+)'", "terminate")):
        m = re.search(pat, err)
        if m:
            return name + ":" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).strip().replace(" ", "_")
    m = re.search(r"^rc=(-?\d+)", err)
    return "died:" + (m.group(1) if m else "?")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    deadline = t0 + TOTAL[tier]
    spec = CHECKS[prop]
    only = os.environ.get("VERIF_SECTION")
    os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"vh_{prop}_")
    errors, viols, notes = [], [], []
    evals, dist, obs, samples, seclist = 0, set(), {}, [], []
    try:
        jobs, bins = [], {}
        for i, b in enumerate(spec["bins"]):
            san = b.get("san", "au")
            name = b["src"].rsplit(".", 1)[0] + "_" + str(i)
            out = f"{work}/{name}"
            jobs.append((b["src"], out, SAN[san] + b.get("flags", [])))
            bins[out] = dict(b, name=name, bin=out, san=san)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            comp = list(ex.map(compile_one, jobs))
        tasks = []
        for (src, rc, outp, cmd, dt), j in zip(comp, jobs):
            notes.append(f"built {src} [{bins[j[1]]['san']}] in {dt:.1f}s")
            if rc != 0:
                first = [l for l in outp.splitlines() if "error" in l][:6]
                errors.append(f"harness {src} does not compile against {REPO}: " + " | ".join(first))
                continue
            b = bins[j[1]]
            ls = subprocess.run([b["bin"], "--list", "--tier", tier], stdout=subprocess.PIPE, text=True)
            rows = [l.split("\t") for l in ls.stdout.splitlines() if "\t" in l]
            if ls.returncode != 0 or not rows:
                errors.append(f"{src}: no sections listed")
            for s, n in rows:
                if b.get("sections") and not any(re.fullmatch(x, s) for x in b["sections"]):
                    continue
                if only and s != only:
                    continue
                for k in range(int(n)):
                    tasks.append((b, s, k))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [(t, ex.submit(run_section, t[0], t[1], t[2], seed, tier, work, deadline)) for t in tasks]
            for (b, s, k), f in futs:
                status, rep, cmd, err = f.result()
                where = f"{b['src']}:{s}#{k}"
                sec_ev = 0
                if os.path.exists(rep):
                    for line in open(rep):
                        p = line.rstrip("\n").split("\t")
                        if p[0] == "EVALS":
                            sec_ev = int(p[1]); evals += sec_ev
                        elif p[0] == "OBS":
                            obs[p[1]] = obs.get(p[1], 0) + int(p[2])
                        elif p[0] == "DIST":
                            dist.add((b["name"], s, p[1]))
                        elif p[0] == "SAMPLE" and sum(1 for x in samples if x.startswith(s + ":")) < 2:
                            samples.append(s + ": " + p[1])
                        elif p[0] == "NOTE":
                            notes.append(f"{s}: {p[1]}")
                        elif p[0] == "VIOL":
                            viols.append((p[1], p[2] if len(p) > 2 else "", where, cmd, ""))
                if status == "ok":
                    if sec_ev == 0:
                        errors.append(f"{where}: finished but observed nothing")
                elif status == "crash":
                    m = re.findall(r"VH-DOING: (.*)", err)
                    viols.append((f"{crash_key(err)}@{s}", "process died; doing: " + (m[-1] if m else "?"), where, cmd, err[-6000:]))
                elif status == "cpu":
                    viols.append((f"hang@{s}", f"exceeded {CPU_LIMIT[tier]} s of CPU twice", where, cmd, err[-2000:]))
                elif status == "wall":
                    errors.append(f"{where}: wall-clock timeout (inconclusive)")
                else:
                    errors.append(f"{where}: could not run: {err[-300:]}")
                seclist.append((s, k, status, sec_ev))
        missing = [m for m in spec.get("must_observe", []) if obs.get(m, 0) == 0]
        if missing and not only and not errors and not viols:
            errors.append("monitors that never fired: " + ", ".join(missing))
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    known = {}
    kf = f"{VERIF}/known_findings.json"
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e["property"] == prop and e["status"] == "known":
                known[e["key"]] = e["what"]
    fresh, seen_known = [], {}
    for v in viols:
        (seen_known.__setitem__(v[0], v) if v[0] in known else fresh.append(v))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(dist), "rule": spec["rule"],
                       "samples": samples[:40] or ["(none)"], "monitor_events": dict(sorted(obs.items())),
                       "sections": [f"{s}#{k} {st} cases={n}" for s, k, st, n in seclist],
                       "sanitizers": sorted({b.get("san", "au") for b in spec["bins"]}), "notes": notes[:60]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    tmp = f"{VERIF}/evidence/{prop}.json.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{prop}.json")
    for k in sorted(seen_known):
        log(f"KNOWN-FINDING: property={prop} {known[k]}")
    log(f"{prop} {tier} seed={seed}: {evals} cases, {len(dist)} distinct, {sum(obs.values())} monitor events, "
        f"{len(fresh)} violation(s), {len(errors)} error(s), {wall:.1f}s")
    if fresh:
        shown = {}
        for v in fresh:
            shown.setdefault(v[0], v)
        rp = f"{VERIF}/evidence/replay/{prop}-seed{seed}.txt"
        with open(rp, "w") as f:
            f.write(f"property {prop} tier {tier} seed {seed} repo {REPO}\n"
                    f"replay: VERIF_SEED={seed} VERIF_SECTION=<section> VERIF_TIER={tier} python3 {VERIF}/run.py {prop}\n\n")
            for key, det, where, cmd, err in fresh:
                f.write(f"== {key}\nat {where}\n{det}\ncmd {' '.join(cmd)}\n{err}\n\n")
        for key, v in list(shown.items())[:12]:
            log(f"  violated: {key} [{v[2]}] {v[1][:400]}")
        log(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors[:12]:
            log("ERROR:", e)
        return 2
    return 0


sys.exit(main())
