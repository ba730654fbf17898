#!/usr/bin/env python3
"""Runs the monitors for one property against /repo's working tree.

  check.py ID [--tier quick|thorough]   VERIF_SEED, VERIF_TIER
  check.py --replay FILE                run one recorded violation again
  check.py --setup                      build everything once

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
WORK = os.path.join(HERE, "work")
JOBS = 8

HEAP = "malloc calloc realloc reallocarray strdup strndup aligned_alloc posix_memalign free".split()
QUIET = ("fprintf perror fwrite fputs puts printf vfprintf vprintf dprintf syslog warn warnx write fputc putchar "
         "putc fputs_unlocked fwrite_unlocked fputc_unlocked putc_unlocked").split()
THREAD = ("pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock "
          "pthread_mutex_clocklock pthread_mutex_unlock pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype "
          "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait "
          "pthread_cond_signal pthread_cond_broadcast pthread_condattr_init pthread_condattr_destroy pthread_condattr_setclock "
          "gettimeofday clock_gettime timespec_get time nanosleep usleep sched_yield").split()
MEMORY = "memcpy memmove memset memchr memrchr rawmemchr memcmp strlen".split()
STD = "-std=gnu11 -U_FORTIFY_SOURCE -DWITH_PTHREAD -g -w -fno-omit-frame-pointer".split()
GASAN = "-fsanitize=address,undefined -fno-sanitize-recover=all".split()
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}

# name: compiler, flags of the library, flags of the harness, link flags, environment, address space limit
FLAVOURS = {
    "ship": ("gcc", ["-O2", "-DNDEBUG"], ["-O2"], [], {}, 6 << 30),
    "asan": ("gcc", ["-O1", "-DNDEBUG"] + GASAN, ["-O1"] + GASAN, GASAN, ASAN_ENV, None),
    "asrt": ("gcc", ["-O1"] + GASAN, ["-O1"] + GASAN, GASAN, ASAN_ENV, None),
    "msan": ("clang", ["-O1", "-DNDEBUG", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all"],
             ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"], ["-fsanitize=memory"],
             {"MSAN_OPTIONS": "exitcode=99:abort_on_error=0:allocator_may_return_null=1"}, None),
    "tsan": ("clang", ["-O1", "-DNDEBUG", "-fsanitize=thread"], ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"],
             {"TSAN_OPTIONS": "halt_on_error=1:exitcode=99:abort_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4"}, None),
    # every load, store and edge of the library is a scheduling point
    "sched": ("clang", ["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"], ["-O2"], [], {}, 6 << 30),
    # every edge of the library is counted
    "cost": ("clang", ["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc"], ["-O2"], [], {}, 6 << 30),
    "vgrd": ("gcc", ["-O1", "-DNDEBUG"], ["-O1", "-DVF_SAN_HEAP"], [], {}, None),
}


class HarnessError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise HarnessError("%s\n%s" % (" ".join(cmd)[:600], r.stdout[-4000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def read(path):
    with open(path, "rb") as f:
        return f.read()


_locks = {}
_lock = threading.Lock()


def once(key, make):
    with _lock:
        lk = _locks.setdefault(key, threading.Lock())
    with lk:
        return make()


def sources():
    return sorted(glob.glob(REPO + "/*.c")), sorted(glob.glob(REPO + "/*.h"))


def build_lib(flavour, threads):
    """Object files of the library, with the calls the monitors watch renamed to vf_*."""
    cs, hs = sources()
    if not cs:
        raise HarnessError("no sources in " + REPO)
    cc, cflags = FLAVOURS[flavour][:2]
    key = digest(flavour, str(threads), " ".join(cflags + STD), REPO, *[os.path.basename(f) for f in cs + hs], *[read(f) for f in cs + hs], read(os.path.abspath(__file__)))
    out = os.path.join(BUILD, "lib-%s%s-%s" % (flavour, "-thr" if threads else "", key))

    def make():
        if os.path.isdir(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        names = HEAP + QUIET + ["read"] + (THREAD if threads else []) + (MEMORY if flavour == "cost" else [])
        with open(tmp + "/syms", "w") as f:
            f.writelines("%s vf_%s\n" % (n, n) for n in names)

        def one(src):
            o = os.path.join(tmp, os.path.basename(src)[:-2] + ".o")
            run([cc, "-c"] + STD + cflags + ["-I" + REPO, src, "-o", o])
            run(["objcopy", "--redefine-syms=" + tmp + "/syms", o])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, cs))
        os.rename(tmp, out)
        return out
    return once(out, make)


def build(flavour, harness, threads):
    lib = build_lib(flavour, threads)
    cc, _, hflags, lflags = FLAVOURS[flavour][:4]
    hdir = os.path.join(HERE, "harness")
    files = [os.path.join(hdir, f) for f in (harness + ".c", "vf.c")]
    key = digest(os.path.basename(lib), " ".join(hflags), *[read(f) for f in files], *[read(f) for f in sorted(glob.glob(hdir + "/*.h"))])
    out = os.path.join(BUILD, "%s-%s-%s" % (harness, flavour, key))

    def make():
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            cmd = [cc] + STD + hflags + lflags + ["-I" + REPO, "-I" + hdir] + files + sorted(glob.glob(lib + "/*.o")) + ["-o", tmp, "-pthread", "-lm"]
            try:
                run(cmd)
            except HarnessError:
                # a structure may have members of other names: what can be judged without them still is
                run(cmd + ["-DVF_OPAQUE"])
            os.rename(tmp, out)
        return out
    return once(out, make)


def prune():
    """Old builds go, so that the directory does not grow without end."""
    try:
        ents = sorted(((os.path.getmtime(os.path.join(BUILD, e)), os.path.join(BUILD, e)) for e in os.listdir(BUILD)), reverse=True)
    except FileNotFoundError:
        return
    for _, p in ents[90:]:
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


# ---------------------------------------------------------------------------
def execute(binary, flavour, harness, mode, mon, seed, lo, hi, tag, thorough, cpu=150, wall=420, verbose=False, extra=()):
    """One process over the cases lo..hi-1. Returns (status, stats or failure)."""
    os.makedirs(WORK, exist_ok=True)
    base = os.path.join(WORK, "%s-%d" % (tag, os.getpid()))
    out, fail, prog, err = (base + s for s in (".json", ".fail", ".prog", ".err"))
    for f in (out, fail, prog, err, out + ".hashes"):
        if os.path.exists(f):
            os.unlink(f)
    env = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    env.update(FLAVOURS[flavour][4])
    limit = FLAVOURS[flavour][5] if "huge" not in mode else 60 << 30

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu * (8 if flavour == "vgrd" else 1), cpu * 8 + 5))
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    cmd = [binary, "--mode", mode, "--mon", str(mon), "--seed", str(seed), "--from", str(lo), "--to", str(hi),
           "--out", out, "--fail", fail, "--progress", prog, "--thorough", str(int(thorough))] + (["--verbose", "1"] if verbose else [])
    if flavour == "vgrd":
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--max-stackframe=20000000"] + cmd
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env, preexec_fn=pre, cwd=WORK)
        timeout = False
        try:
            p.wait(wall)
        except subprocess.TimeoutExpired:
            timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    rc = p.returncode
    text = ""
    with open(err, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(0)
        text = f.read(20000).decode("latin1")
        if size > 40000:
            f.seek(size - 20000)
            text += "\n[...]\n"
        text += f.read(20000).decode("latin1")
    case = lo
    try:
        v = int.from_bytes(read(prog)[:8], "little")
        if v:
            case = v - 1
    except OSError:
        pass
    res = None
    if rc == 0 and not timeout:
        try:
            res = json.loads(read(out))
            hs = read(out + ".hashes")
            res["hashes"] = {hs[i:i + 8] for i in range(0, len(hs) - 7, 8)}
            status = "ok"
        except FileNotFoundError:
            # only the code under test can have ended the process (err(), exit())
            status, res = "fail", dict(case=case, key="process-ended", text="the library ended the process\n" + text[:3000], rc=rc)
        except (OSError, ValueError) as e:
            status, res = "broken", "no statistics: %s" % e
    elif timeout or rc in (-signal.SIGXCPU, -signal.SIGKILL):
        status, res = "hang", dict(case=case, key="hang", text=text[-3000:], rc=rc)
    elif rc == 77 or re.search(r"ReserveShadowMemoryRange failed|FATAL: \w+Sanitizer: (unexpected memory mapping|can not mmap)|Shadow memory range interleaves", text):
        status, res = "broken", text[-3000:]
    else:
        key, detail = None, text
        if os.path.exists(fail):
            detail = read(fail).decode("latin1")
            m = re.search(r"key=(\S+) case=(\d+)", detail)
            if m:
                key, case = m.group(1), int(m.group(2))
            if rc not in (41, 43):
                detail += "\n" + text[:6000]
        if key is None:
            m = re.search(r"SUMMARY: (\w+): (\S+)(?: \S+ in (\S+)| \((\S+)\))?", text) or re.search(r"SUMMARY: (\w+): (.+)", text)
            if m:
                key = "-".join(x for x in (m.group(1), m.group(2), m.group(3) if m.lastindex and m.lastindex >= 3 else None) if x)
            elif flavour == "vgrd" and rc == 99:
                m = re.search(r"== (Invalid \w+|Conditional jump|Use of uninit\w*|\w+ overlap\w*)", text)
                key = "valgrind-" + (m.group(1).replace(" ", "-") if m else "error")
            else:
                m = re.search(r"Assertion `(.*?)' failed", text)
                key = "assertion" if m else "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
            key = re.sub(r"[^\w.:+-]", "_", key)
        status, res = "fail", dict(case=case, key=key, text=detail[:12000], rc=rc)
    for f in (out, fail, prog, err, out + ".hashes"):
        if os.path.exists(f):
            os.unlink(f)
    return status, res


def flavour_seed(seed, flavour):
    return seed * 1000003 + sorted(FLAVOURS).index(flavour) * 7919


def run_shard(job, lo, hi, tag, seed, thorough):
    """Returns a list of statistics and a list of failures."""
    stats, fails, notes = [], [], []
    binary = build(job["flavour"], job["harness"], job.get("threads", False))
    part = 0
    while lo < hi:
        part += 1
        status, res = execute(binary, job["flavour"], job["harness"], job["mode"], job["mon"], flavour_seed(seed, job["flavour"]), lo, hi, "%s-%d" % (tag, part), thorough)
        if status == "ok":
            stats.append(res)
            break
        if status == "broken":
            raise HarnessError("%s %s: %s" % (job["harness"], job["mode"], res))
        if status == "hang":
            # alone, with a generous limit of its own: a slow machine is not a violation
            s2, r2 = execute(binary, job["flavour"], job["harness"], job["mode"], job["mon"], flavour_seed(seed, job["flavour"]), res["case"], res["case"] + 1, tag + "-again", thorough, cpu=100, wall=250)
            if s2 == "ok":
                notes.append("case %d of %s %s hit the time limit and finished when it was run again" % (res["case"], job["harness"], job["mode"]))
                stats.append(r2)
                lo = res["case"] + 1
                if part > 3:
                    notes.append("gave up on the rest of this shard")
                    break
                continue
            if s2 == "fail":
                res = r2
        fails.append(dict(job=job, case=res["case"], key=res["key"], text=res["text"], rc=res["rc"], seed=seed))
        break
    return stats, fails, notes


def known_findings(prop):
    """Lines 'finding: property=ID key=KEY <text>'; 'fixed:' lines suppress nothing."""
    found = {}
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", line)
                if m and m.group(1) == prop:
                    found[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return found


def check(prop, tier, seed):
    import specs
    spec = specs.SPECS[prop]
    t0 = time.time()
    thorough = tier == "thorough"
    shards = []
    for job in spec["jobs"]:
        n = job["thorough" if thorough else "quick"]
        if not n:
            continue
        pieces = min(n, job.get("shards", 2 * JOBS if thorough else JOBS))
        cuts = [n * i // pieces for i in range(pieces + 1)]
        for lo, hi in zip(cuts, cuts[1:]):
            if hi > lo:
                shards.append((job, lo, hi))
    # builds first, in parallel
    need = {(j["flavour"], j["harness"], j.get("threads", False)) for j, _, _ in shards}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda a: build(*a), sorted(need)))
    tbuild = time.time() - t0
    stats, fails, notes = [], [], []
    known = known_findings(prop)
    # long pieces first
    order = sorted(range(len(shards)), key=lambda i: -shards[i][0].get("weight", 1))
    stop = threading.Event()

    def work(i):
        if stop.is_set():
            return None
        job, lo, hi = shards[i]
        r = run_shard(job, lo, hi, "%s-%d" % (prop, i), seed, thorough)
        if any(f["key"] not in known for f in r[1]):
            stop.set()
        return job, r
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for got in ex.map(work, order):
            if got:
                job, (s, f, n) = got
                stats += [(job, x) for x in s]
                fails += f
                notes += n
    # evidence
    per_mode, hashes, samples, flav = {}, set(), [], {}
    cases = evals = allocs = 0
    for job, s in stats:
        m = per_mode.setdefault("%s %s" % (job["harness"], job["mode"]), {"cases": 0, "monitor evaluations": 0, "builds": set(), "observed": {}})
        m["cases"] += s["cases"]
        m["monitor evaluations"] += s["evals"]
        m["builds"].add(job["flavour"])
        for k, v in s["counters"].items():
            m["observed"][k] = max(m["observed"].get(k, 0), v) if k.startswith(("most ", "longest ", "largest ", "highest ", "worst ", "max ")) else m["observed"].get(k, 0) + v
        cases += s["cases"]
        evals += s["evals"]
        allocs += s["lib_allocs"]
        hashes |= s["hashes"]
        flav[job["flavour"]] = flav.get(job["flavour"], 0) + s["cases"]
        if len(samples) < 12 and s["samples"] and sum(x.startswith(job["harness"] + " " + job["mode"] + " ") for x in samples) < 2:
            samples.append("%s %s [%s]: %s" % (job["harness"], job["mode"], job["flavour"], s["samples"][len(samples) % len(s["samples"])]))
    for m in per_mode.values():
        m["builds"] = sorted(m["builds"])
    real = [f for f in fails if f["key"] not in known]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": cases, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples or ["none: the run failed before a case was complete"],
                       "monitor_evaluations": evals, "library_allocations_watched": allocs, "cases_per_build": flav, "per_workload": per_mode, "build_s": round(tbuild, 2)},
          "assumptions": spec.get("assumptions", specs.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    if notes:
        ev["coverage"]["inconclusive"] = notes
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    # verdict
    seen = set()
    for f in fails:
        if f["key"] in known and f["key"] not in seen:
            seen.add(f["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, known[f["key"]]))
    if real:
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        for n, f in enumerate(real):
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            path = os.path.join(WORK, "replay", "%s-%d.json" % (prop, n))
            with open(path, "w") as o:
                json.dump(dict(property=prop, tier=tier, **f), o, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s %s mode=%s case=%d build=%s seed=%d" % (f["key"], f["job"]["harness"], f["job"]["mode"], f["case"], f["job"]["flavour"], f["seed"]))
            for line in f["text"].splitlines()[:12]:
                print("  | " + line[:200])
        return 1
    if not fails:
        if cases == 0 or evals == 0 or len(hashes) < spec.get("min_distinct", 20):
            raise HarnessError("too little observed: %d cases, %d evaluations, %d distinct" % (cases, evals, len(hashes)))
        for k, least in spec.get("must_observe", {}).items():
            got = sum(m["observed"].get(k, 0) for m in per_mode.values())
            if got < least:
                raise HarnessError("too little observed: %s: %d, expected at least %d" % (k, got, least))
    print("%s %s: held on %d cases (%d distinct), %d monitor evaluations, %.1f s" % (prop, tier, cases, len(hashes), evals, time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    job = r["job"]
    binary = build(job["flavour"], job["harness"], job.get("threads", False))
    status, res = execute(binary, job["flavour"], job["harness"], job["mode"], job["mon"], flavour_seed(r["seed"], job["flavour"]), r["case"], r["case"] + 1, "replay", r["tier"] == "thorough", verbose=bool(os.environ.get("VERBOSE")))
    if status == "ok":
        print("the case does not fail now")
        return 0
    if status == "broken":
        raise HarnessError(res)
    print(res["text"])
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main():
    sys.stdout.reconfigure(line_buffering=True)
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    prune()
    if a and a[0] == "--setup":
        import specs
        need = {(j["flavour"], j["harness"], j.get("threads", False)) for s in specs.SPECS.values() for j in s["jobs"]}
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda x: build(*x), sorted(need)))
        print("built %d harnesses" % len(need))
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
