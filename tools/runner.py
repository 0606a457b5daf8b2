"""Builds a harness against /repo's current tree, runs its workers, writes the evidence file.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check could not run.
"""
import hashlib, json, mmap, os, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
NCPU = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, LC_ALL="C.UTF-8")


class CheckError(Exception):
    pass


def known_findings(prop):
    keys = {}
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("known: property=%s key=" % prop):
                    key, _, what = line[len("known: property=%s key=" % prop):].partition(" :: ")
                    keys[key] = what
    except FileNotFoundError:
        pass
    return keys


def tree_hash(*extra):
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(ROOT, "harness")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def compile_many(jobs):
    """jobs: list of (source, output, flags). Compiles in parallel; raises CheckError on failure."""
    procs = []
    todo = list(jobs)
    failed = None
    while todo or procs:
        while todo and len(procs) < NCPU:
            src, out, flags = todo.pop(0)
            cmd = ["g++", "-std=c++17", "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "harness")]
            cmd += flags + [src, "-o", out + ".tmp"] + [f for f in flags if f.startswith("-l")]
            log = open(out + ".log", "w+")
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, env=ENV), src, out, log))
        time.sleep(0.02)
        for t in list(procs):
            if t[0].poll() is not None:
                procs.remove(t)
                if t[0].returncode != 0:
                    t[3].seek(0)
                    failed = "cannot compile %s:\n%s" % (t[1], t[3].read()[:6000])
                else:
                    os.rename(t[2] + ".tmp", t[2])
                t[3].close()
    if failed:
        raise CheckError(failed)


def build_harnesses(parts):
    """parts: list of (harness name, flags). Returns the executables, compiling missing ones in parallel."""
    os.makedirs(BUILD, exist_ok=True)
    outs, jobs = [], []
    for name, flags in parts:
        stem = "%s-%s-" % (name, hashlib.sha256(repr(flags).encode()).hexdigest()[:6])
        out = os.path.join(BUILD, stem + tree_hash(name, flags))
        outs.append(out)
        if os.path.exists(out):
            continue
        for f in os.listdir(BUILD):
            if f.startswith(stem) and os.path.isfile(os.path.join(BUILD, f)) and ROOT == "/verif":
                try:
                    os.remove(os.path.join(BUILD, f))
                except OSError:
                    pass
        if all(j[1] != out for j in jobs):
            jobs.append((os.path.join(ROOT, "harness", name + ".cpp"), out, flags))
    if jobs:
        compile_many(jobs)
    return outs


def build_harness(name, flags):
    return build_harnesses([(name, flags)])[0]


def read_status(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        case = int.from_bytes(b[0:8], "little")
        beats = int.from_bytes(b[8:16], "little")
        desc = b[16:].split(b"\0")[0].decode("latin-1")
        return case, beats, desc
    except Exception:
        return None, 0, ""


def run_one(exe, args, status, out, timeout_case, mem, env, log, case=None):
    """Starts a worker; returns Popen."""
    for p in (status, out):
        if os.path.exists(p):
            os.remove(p)

    def limits():
        import resource
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    a = [exe] + args + ["--status", status, "--out", out]
    if case is not None:
        a += ["--case", str(case)]
    return subprocess.Popen(a, stdout=log, stderr=log, env=env, preexec_fn=limits)


def explore(prop, exe, tier, seed, workers=None, case_timeout=60, mem=3 << 30, extra_env=None, workdir=None):
    """Runs all workers of one harness. Returns (totals, violation or None)."""
    workers = workers or NCPU
    wd = workdir or os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    known = known_findings(prop)
    kf = os.path.join(wd, "known")
    with open(kf, "w") as f:
        f.write("".join(k + "\n" for k in known))
    env = dict(ENV)
    env.update(extra_env or {})
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=3000:symbolize=0")
    env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=0")
    base = ["--tier", tier, "--seed", str(seed), "--known", kf, "--workdir", wd]
    live = {}
    t0 = time.time()
    results, violations = [], []
    for k in range(workers):
        st, out = os.path.join(wd, "st%d" % k), os.path.join(wd, "out%d" % k)
        log = open(os.path.join(wd, "log%d" % k), "w+")
        p = run_one(exe, ["--worker", "%d/%d" % (k, workers)] + base, st, out, case_timeout, mem, env, log)
        live[k] = [p, st, out, log, time.time(), -1]

    def rerun(case, limit, worker=None):
        st, out = os.path.join(wd, "st-r"), os.path.join(wd, "out-r")
        log = open(os.path.join(wd, "log-r"), "w+")
        p = run_one(exe, base if worker is None else ["--worker", "%d/%d" % (worker, workers)] + base, st, out, case_timeout, mem, env, log, case)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "hang", ""
        log.seek(0)
        text = log.read()[-4000:]
        if p.returncode != 0:
            return "crash %d" % p.returncode, text
        with open(out) as f:
            r = json.load(f)
        return ("violation" if "violation" in r else "ok"), text

    # A crash or a hang in any harness is attributed to the case in progress, then confirmed alone.
    unconfirmed = []
    while live:
        time.sleep(0.02)
        for k in list(live):
            p, st, out, log, since, beats = live[k]
            rc = p.poll()
            if rc is None:
                _, b, _ = read_status(st)
                if b != beats:
                    live[k][4], live[k][5] = time.time(), b
                elif time.time() - since > case_timeout:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    case, _, desc = read_status(st)
                    del live[k]
                    unconfirmed.append((case, desc, "hang", "no progress for %d s" % case_timeout, k, time.time() - t0))
                continue
            del live[k]
            log.seek(0)
            text = log.read()[-4000:]
            if rc != 0:
                case, _, desc = read_status(st)
                if rc == 3 or case is None:
                    for o in live.values():
                        os.killpg(o[0].pid, signal.SIGKILL)
                    raise CheckError("worker %d of %s ended with %d before its first case:\n%s" % (k, prop, rc, text))
                unconfirmed.append((case, desc, "crash", "the process ended with status %d\n%s" % (rc, text), k, time.time() - t0))
                continue
            with open(out) as f:
                r = json.load(f)
            results.append(r)
            if "violation" in r:
                violations.append(r["violation"])
                for o in list(live.values()):      # let workers on smaller cases go on briefly; simplest case wins
                    pass
    for case, desc, kind, text, k, took in sorted(unconfirmed, key=lambda t: t[0])[:3]:
        if violations:
            break
        first = case == 0xffffffffffffffff      # before the first case
        got, t2 = ("ok", "") if first else rerun(case, case_timeout * 3)
        if got == "ok":
            # Perhaps what went before matters: then the same worker ends the same way again.
            got, t2 = rerun(None, took * 2 + 30, k)
            if got == "hang" and read_status(os.path.join(wd, "st-r"))[0] != case:
                got = "ok"
            if first:
                desc = "what is done before the first case"
        if got == "ok":
            raise CheckError("%s: case %s (%s) ended with a %s that did not repeat alone:\n%s" % (prop, case, desc, kind, text))
        violations.append({"case": case, "key": kind, "desc": desc, "text": "the library %s on this case (repeated alone: %s)\n%s" %
                           ("does not terminate" if kind == "hang" else "crashes", got, t2 or text)})
    tot = {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": set(), "samples": [], "extra": {}, "known": {}, "total": 0}
    for r in results:
        for n in ("cases", "states", "transitions", "traces"):
            tot[n] += r[n]
        tot["total"] = max(tot["total"], r["total"])
        tot["outcomes"].update(r["outcomes"])
        tot["samples"] += r["samples"]
        for n in ("extra", "known"):
            for a, b in r[n].items():
                tot[n][a] = tot[n].get(a, 0) + b
    tot["known_text"] = known
    if not workdir:
        shutil.rmtree(wd, ignore_errors=True)
    v = min(violations, key=lambda x: x["case"]) if violations else None
    return tot, v


def merge(a, b):
    if a is None:
        return b
    for n in ("cases", "states", "transitions", "traces", "total"):
        a[n] += b[n]
    a["outcomes"] |= b["outcomes"]
    a["samples"] += b["samples"]
    for n in ("extra", "known"):
        for x, y in b[n].items():
            a[n][x] = a[n].get(x, 0) + y
    a["known_text"].update(b["known_text"])
    return a


def write_replay(prop, exe_name, tier, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8]))
    with open(path, "w") as f:
        f.write("property: %s\nharness: %s\ntier: %s\ncase: %s\nkey: %s\n\n%s\n\n%s\n\nTo run this case alone: ./check %s --case %s\n" %
                (prop, exe_name, tier, v["case"], v["key"], v["desc"], v["text"], prop, v["case"]))
    return path


def finish(prop, tier, seed, level, tot, v, t0, rule, assumptions, exhaustive=True, name="", extra=None):
    cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
           "cases": tot["cases"], "distinct_outcomes": len(tot["outcomes"]), "rule": rule,
           "samples": tot["samples"][:6] or ["(none kept)"], "exhaustive": bool(exhaustive and not v)}
    cov.update(tot["extra"])
    cov.update(extra or {})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if v else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    for k, n in sorted(tot["known"].items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, tot["known_text"].get(k, k), n))
    if v:
        path = write_replay(prop, name, tier, v)
        print("%s: %s\n%s" % (prop, v["desc"], v["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if tot["traces"] == 0 or tot["states"] == 0:
        print("%s: nothing was explored" % prop)
        return 2
    print("%s: held; %d cases, %d states, %d transitions, %d traces, %d distinct outcomes, %.1f s" %
          (prop, tot["cases"], tot["states"], tot["transitions"], tot["traces"], len(tot["outcomes"]), time.time() - t0))
    return 0
