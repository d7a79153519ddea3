#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [quick|thorough] [--replay FILE]

Builds the library from /repo's working tree together with the property's
harness in several instrumented variants, runs them under many seeds, and turns
what the monitors saw into a verdict and an evidence file.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".build"))
NCPU = 8

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

COV = ["-DVP_COV=1", "-fsanitize-coverage-allowlist=" + os.path.join(HARNESS, "allow.txt")]
VARIANTS = {
    # optimized, as shipped
    "rel": ("g++", ["-O2", "-DNDEBUG"], []),
    # optimized, assertions of the library and of the standard library on
    "dbg": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"], []),
    # memory errors and undefined behaviour, plus schedule perturbation
    "asan": ("clang++", ["-O1", "-fno-inline", "-fstrict-flex-arrays=3", "-fsanitize=address,undefined",
                         "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS",
                         "-fno-omit-frame-pointer",
                         "-fsanitize-coverage=trace-pc-guard"] + COV,
             ["-fstrict-flex-arrays=3", "-fsanitize=address,undefined"]),
    # data races, plus schedule perturbation
    "tsan": ("clang++", ["-O1", "-fno-inline", "-fsanitize=thread",
                         "-DXTR_THREAD_SANITIZER_ENABLED",
                         "-fsanitize-coverage=trace-pc-guard"] + COV,
             ["-fsanitize=thread"]),
    # perturbation at every block, load and store
    "sched": ("clang++", ["-O1", "-fno-inline", "-D_GLIBCXX_ASSERTIONS",
                          "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"] + COV, []),
}

# Documented ways of building the library other than the default
CONFIGS = {
    None: [],
    "noexcept": ["-fno-exceptions"],
    "nouring": ["-DXTR_USE_IO_URING=0"],
    # with a sink capacity that is not a power of two or less than a page
    "rounded": ["-DVP_ROUNDED=1"],
    "poll": ["-DXTR_IO_URING_POLL=1"],
    # the single header, generated from the tree by its own script
    "single": ["-DVP_SINGLE_HEADER=1"],
}

ENV = dict(os.environ)
ENV.update({
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LC_ALL": "C.UTF-8",
    "ASAN_OPTIONS": "exitcode=86:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=87",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=" + os.path.join(HARNESS, "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=85",
})

children = set()
children_lock = threading.Lock()
# Options for gathering: whether the threads of a process that did not finish
# were runnable but not run
nudges = [0]


def schedstat(pid):
    r = {}
    try:
        tids = os.listdir("/proc/%d/task" % pid)
    except OSError:
        return r
    for t in tids:
        try:
            with open("/proc/%d/task/%s/schedstat" % (pid, t)) as f:
                a = f.read().split()
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                b = f.read().rsplit(")", 1)[1].split()
            r[int(t)] = (int(a[0]), int(a[1]), b[0], int(b[36]))
        except (OSError, ValueError, IndexError):
            pass
    return r


def unstarver():
    """The kernel here now and then leaves runnable threads waiting behind a
    spinning one for minutes while other CPUs are idle. Move such threads."""
    allcpus = os.sched_getaffinity(0)
    last = {}
    while True:
        time.sleep(2)
        with children_lock:
            pids = [p.pid for p in children]
        now = {}
        for pid in pids:
            now.update(schedstat(pid))
        for t, (ran, _, state, cpu) in now.items():
            o = last.get(t)
            if o and o[0] == ran and o[2] == "R" and state == "R":
                try:
                    os.sched_setaffinity(t, (allcpus - {cpu}) or allcpus)
                    nudges[0] += 1
                except OSError:
                    pass
        last = now


def starved(pid, seconds):
    """Whether a thread of the process wanted to run for most of the next
    seconds but hardly could"""
    a = schedstat(pid)
    t0 = time.time()
    time.sleep(seconds)
    b = schedstat(pid)
    wall = (time.time() - t0) * 1e9
    for t, (ran, waited, state, _) in b.items():
        if t in a:
            dr, dw = ran - a[t][0], waited - a[t][1]
            if dr < 0.08 * wall and (dw > 0.3 * wall or (state == "R" and a[t][2] == "R")):
                return True
    return False


def say(*a):
    print(*a, flush=True)


def run_proc(cmd, timeout, cwd=None, env=None, out=None):
    """Returns (rc or None on timeout, output)"""
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             cwd=cwd, env=env or ENV, start_new_session=True)
        with children_lock:
            children.add(p)
        stacks = ""
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
            stacks = gdb_stacks(p.pid)
            if starved(p.pid, 3):
                stacks += "\nVP-STARVED\n"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            with children_lock:
                children.discard(p)
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - 60000))
        text = f.read().decode("utf-8", "replace")
    return rc, text + stacks


def gdb_stacks(pid):
    try:
        r = subprocess.run(["gdb", "-p", str(pid), "-batch", "-ex", "set pagination off",
                            "-ex", "thread apply all bt 14"],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=ENV)
        return "\n--- stacks of the hung process ---\n" + r.stdout.decode("utf-8", "replace")[-15000:]
    except Exception as e:  # noqa: BLE001
        return "\n(no stacks: %s)\n" % e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "scripts"), HARNESS):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.tree = tree_hash()
        self.futures = {}
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(NCPU)
        os.makedirs(CACHE, exist_ok=True)
        self.prune()

    def prune(self):
        try:
            ents = [(os.path.getmtime(p), os.path.getsize(p), p)
                    for p in glob.glob(os.path.join(CACHE, "*"))]
            total = sum(e[1] for e in ents)
            for _, sz, p in sorted(ents):
                if total < 3 << 30 and not (os.path.isdir(p) and self.tree[:32] not in p):
                    continue
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    os.unlink(p)
                total -= sz
        except OSError:
            pass

    def once(self, key, fn):
        with self.lock:
            if key not in self.futures:
                self.futures[key] = self.pool.submit(fn)
            return self.futures[key]

    def base(self, variant, cap, cfg=None):
        cxx, flags, _ = VARIANTS[variant]
        f = [cxx, "-std=c++20", "-g1", "-w", "-isystem", "/opt/vp/compat", "-I" + HARNESS]
        if cfg == "single":
            f.append("-I" + self.single())
        else:
            f += ["-DXTR_FUNC=", "-I" + os.path.join(REPO, "include")]
        f += CONFIGS[cfg]
        if cap:
            f.append("-DXTR_SINK_CAPACITY=%d" % cap)
        else:
            f.append("-DVP_DEFAULT_CAPACITY=1")
        return f + flags

    def single(self):
        """A directory with the single header and the headers that are not part
        of it; the others only include it"""
        d = os.path.join(CACHE, "single-" + self.tree[:32])
        with self.lock:
            if not os.path.isdir(d):
                t = os.path.join(self.scratch, "single")
                for x in ("include", "src", "scripts"):
                    shutil.copytree(os.path.join(REPO, x), os.path.join(t, x))
                if os.path.exists(os.path.join(REPO, "LICENSE")):
                    shutil.copy(os.path.join(REPO, "LICENSE"), t)
                os.makedirs(os.path.join(t, "single_include", "xtr"))
                os.mkdir(os.path.join(t, "bin"))
                # it only changes the layout
                with open(os.path.join(t, "bin", "clang-format"), "w") as f:
                    f.write("#!/bin/sh\nexit 0\n")
                os.chmod(os.path.join(t, "bin", "clang-format"), 0o755)
                rc, out = run_proc(["sh", "scripts/make_single_include.sh"], 60, cwd=t,
                                   env=dict(ENV, PATH=os.path.join(t, "bin") + ":" + ENV["PATH"]))
                hdr = os.path.join(t, "single_include", "xtr", "logger.hpp")
                if rc != 0 or not os.path.exists(hdr):
                    raise BuildError("single header not made:\n" + out)
                o = os.path.join(t, "out")
                inc = os.path.join(t, "include", "xtr")
                for root, _, fs in os.walk(inc):
                    rel = os.path.relpath(root, inc)
                    os.makedirs(os.path.join(o, "xtr", rel), exist_ok=True)
                    for x in fs:
                        with open(os.path.join(o, "xtr", rel, x), "w") as f:
                            f.write("#include <xtr/logger.hpp>\n")
                shutil.copy(hdr, os.path.join(o, "xtr", "logger.hpp"))
                shutil.copy(os.path.join(inc, "formatters.hpp"), os.path.join(o, "xtr", "formatters.hpp"))
                try:
                    os.rename(o, d)
                except OSError:
                    pass  # another process was faster
        return d

    def compile(self, name, cmd):
        """cmd without -o; cached by the contents of everything it can include"""
        key = hashlib.sha256((self.tree + "\0" + "\0".join(cmd)).encode()).hexdigest()
        obj = os.path.join(CACHE, "%s-%s.o" % (name, key[:32]))

        def go():
            if os.path.exists(obj):
                os.utime(obj)
                return obj
            tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
            rc, out = run_proc(cmd + ["-o", tmp], 600)
            if rc != 0:
                raise BuildError("$ %s\n%s" % (" ".join(cmd), out))
            os.replace(tmp, obj)
            return obj
        return self.once(obj, go)

    def lib_sources(self):
        return sorted(f for f in glob.glob(os.path.join(REPO, "src", "*.cpp"))
                      if os.path.basename(f) != "xtrctl.cpp")

    def lib(self, variant, cap, cfg=None):
        """The library as one translation unit (fast), or if that does not compile
        as separate ones"""
        if cfg == "single":
            f = cf.Future()
            f.set_result([])
            return f
        srcs = self.lib_sources()
        uni = os.path.join(self.scratch, "lib.cpp")
        with self.lock:
            if not os.path.exists(uni):
                with open(uni + ".t", "w") as f:
                    for s in srcs:
                        f.write('#include "%s"\n' % s)
                os.replace(uni + ".t", uni)
        base = self.base(variant, cap, cfg)
        # the name of the scratch file must not be part of the cache key
        key = hashlib.sha256((self.tree + "lib" + "\0".join(base)).encode()).hexdigest()
        obj = os.path.join(CACHE, "lib-%s.o" % key[:32])

        def go():
            if os.path.exists(obj):
                os.utime(obj)
                return [obj]
            tmp = obj + ".tmp%d" % os.getpid()
            rc, out = run_proc(base + ["-c", uni, "-o", tmp], 600)
            if rc == 0:
                os.replace(tmp, obj)
                return [obj]
            objs = []
            for s in srcs:
                o = os.path.join(self.scratch, "%s-%s-%s-%s.o" % (os.path.basename(s), variant, cap, cfg))
                rc, out = run_proc(base + ["-c", s, "-o", o], 600)
                if rc != 0:
                    raise BuildError("library does not compile:\n" + out)
                objs.append(o)
            return objs
        return self.once(obj, go)

    def perturb(self):
        return self.compile("perturb", ["g++", "-std=c++20", "-O2", "-c", os.path.join(HARNESS, "perturb.cpp")])

    def exe(self, name, variant, cap, extra=(), cfg=None):
        src = os.path.join(HARNESS, name + ".cpp")
        h = self.compile(name, self.base(variant, cap, cfg) + list(extra) + ["-c", src])
        lib = self.lib(variant, cap, cfg)
        per = self.perturb()
        path = os.path.join(self.scratch, "%s.%s.%s%s" % (name, variant, cap or "default", "." + cfg if cfg else ""))

        def link():
            cxx, _, ld = VARIANTS[variant]
            objs = [h.result()] + lib.result() + [per.result()]
            rc, out = run_proc([cxx] + ld + objs + ["-o", path, "-lfmt", "-luring", "-pthread", "-ldl"], 300)
            if rc != 0:
                raise BuildError("link of %s failed:\n%s" % (path, out))
            return path
        return path, link

    def xtrctl(self, variant="rel"):
        src = os.path.join(REPO, "src", "xtrctl.cpp")
        o = self.compile("xtrctl", self.base(variant, 0) + ["-c", src])
        lib = self.lib(variant, 0)
        path = os.path.join(self.scratch, "xtrctl")

        def link():
            cxx, _, ld = VARIANTS[variant]
            extra = [self.perturb().result()] if "-DVP_COV=1" in VARIANTS[variant][1] else []
            rc, out = run_proc([cxx] + ld + [o.result()] + lib.result() + extra +
                               ["-o", path, "-lfmt", "-luring", "-pthread"], 300)
            if rc != 0:
                raise BuildError("link of xtrctl failed:\n" + out)
            return path
        return path, link


def known_findings(pid):
    """The defects listed as known, by the key under which a harness reports them"""
    r = {}
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == pid:
                    r[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return r


def classify(rc, out, known=()):
    """-> (verdict, detail)"""
    m = re.findall(r"VP-VIOLATION (.*)", out)
    for l in re.findall(r"VP-FINDING (.*)", out):
        k = re.search(r"key=(\S+)", l)
        if not k or k.group(1) not in known:
            m.append(l)
    if rc == 10 or m:
        return "violation", m[0] if m else "harness reported a violation"
    if rc == 0:
        return "ok", ""
    if rc == 20:
        m = re.findall(r"VP-INCONCLUSIVE (.*)", out)
        return "inconclusive", m[0] if m else ""
    if rc is None and "VP-STARVED" in out:
        return "inconclusive", "did not finish, threads were not being scheduled"
    if rc is None:
        return "hang", "did not finish"
    m = re.findall(r"(?:SUMMARY: |runtime error: |Assertion|terminate called|WARNING: ThreadSanitizer).*", out)
    if m:
        return "violation", "%s (exit %s)" % (m[-1][:400], rc)
    if rc < 0:
        if -rc in (signal.SIGKILL, signal.SIGTERM):
            return "inconclusive", "killed by signal %d" % -rc
        return "violation", "died of signal %d" % -rc
    return "violation", "exit %d" % rc


def main():
    args = sys.argv[1:]
    rfile = None
    if "--replay" in args:
        i = args.index("--replay")
        rfile = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    os.chmod(scratch, 0o755)
    try:
        code = replay_case(pid, rfile, spec, scratch) if rfile else check(pid, tier, seed, spec, scratch, t0)
    finally:
        with children_lock:
            for p in children:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def check(pid, tier, seed, spec, scratch, t0):
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    replay = os.path.join(ev_dir, "replay", pid + ".txt")
    if os.path.exists(replay):
        os.unlink(replay)
    threading.Thread(target=unstarver, daemon=True).start()
    b = Builder(scratch)
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    links = {}
    try:
        xtrctl = None
        if spec.get("xtrctl"):
            xtrctl, l = b.xtrctl(spec["xtrctl"])
            links[xtrctl] = l
        optional, promised = set(), {}
        for j in list(jobs):
            try:
                path, l = b.exe(j.get("harness", pid.lower()), j["variant"], j.get("cap", 4096),
                                j.get("flags", ()), j.get("cfg"))
            except BuildError as e:
                if not j.get("optional"):
                    raise
                say("note: left out %s: %s" % (j["cfg"], str(e)[-300:]))
                jobs.remove(j)
                continue
            j["exe"] = path
            links[path] = l
            if j.get("optional"):
                optional.add(path)
            elif j.get("cfg"):
                promised[path] = CONFIGS[j["cfg"]] + ["-DXTR_SINK_CAPACITY=%s" % j.get("cap", 4096)]
        for path, l in sorted(links.items(), key=lambda x: x[0] in promised):
            try:
                l()
            except BuildError as e:
                if path in promised:
                    # the same does build in the default configuration
                    return not_built(pid, "configuration %s does not build" % " ".join(promised[path]), str(e), replay)
                if path not in optional:
                    raise
                say("note: left out %s, which does not build: %s" % (os.path.basename(path), str(e)[-300:]))
                jobs = [j for j in jobs if j["exe"] != path]
    except BuildError as e:
        return build_failed(pid, spec, b, str(e), replay)
    t_build = time.time() - t0

    # --- run -----------------------------------------------------------------
    runs = []
    for ji, j in enumerate(jobs):
        shards = j.get("shards", 1) * (j.get("tfactor", 3) if tier == "thorough" else 1)
        for s in range(shards):
            cases = j["cases"] * (j.get("tcases", 4) if tier == "thorough" else 1)
            runs.append(dict(job=j, shard=s, ji=ji, cases=cases,
                             seed=(seed * 7919 + ji * 101 + s * 13 + 1) & 0x7fffffff))
    known = known_findings(pid)
    stop = threading.Event()
    results = []
    rlock = threading.Lock()

    def one(k, r, again=False):
        if stop.is_set():
            return
        j = r["job"]
        d = os.path.join(scratch, "run%d%s" % (k, "b" if again else ""))
        os.mkdir(d)
        os.chmod(d, 0o777)
        st = os.path.join(scratch, "stats%d%s.json" % (k, "b" if again else ""))
        cmd = [j["exe"], "--seed", str(r["seed"]), "--cases", str(r["cases"]), "--shard", str(r["shard"]),
               "--tier", tier, "--dir", d, "--stats", st]
        if j.get("mode"):
            cmd += ["--mode", j["mode"]]
        if xtrctl:
            cmd += ["--xtrctl", xtrctl]
        env = dict(ENV, TMPDIR=d, XDG_RUNTIME_DIR=d)
        env.update(j.get("env", {}))
        if again:
            env["VP_NOPLACE"] = "1"
        timeout = j.get("timeout", 100) * (4 if tier == "thorough" else 1) * (2 if again else 1)
        ts = time.time()
        rc, out = run_proc(cmd, timeout, cwd=d, env=env)
        verdict, detail = classify(rc, out, known)
        r2 = dict(r, verdict=verdict, detail=detail, out=out, cmd=cmd, wall=time.time() - ts, rc=rc)
        if verdict in ("hang", "inconclusive") and not again and not stop.is_set():
            say("note: %s: %s (%s); running it again" % (" ".join(cmd[:5]), verdict, detail))
            shutil.rmtree(d, ignore_errors=True)
            one(k, r, True)
            return
        if verdict == "hang":
            r2["verdict"] = "violation"
            r2["detail"] = "hang: did not finish within %d s, twice" % timeout
        try:
            with open(st) as f:
                r2["stats"] = json.load(f)
        except (OSError, ValueError):
            r2["stats"] = None
        shutil.rmtree(d, ignore_errors=True)
        with rlock:
            results.append(r2)
        if r2["verdict"] == "violation":
            stop.set()
            # the others cannot change the verdict
            with children_lock:
                for p in list(children):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass

    with cf.ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
        list(ex.map(lambda kr: one(*kr), enumerate(runs)))

    # --- verdict ---------------------------------------------------------------
    bad = [r for r in results if r["verdict"] == "violation"]
    ok = [r for r in results if r["verdict"] == "ok"]
    counters, maxima, distinct, samples, variants = {}, {}, set(), [], {}
    edges_hit = edges_total = delays = tdelays = 0
    for r in results:
        s = r["stats"]
        if not s:
            continue
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        distinct.update(s["distinct"])
        if len(samples) < 8:
            samples += ["[%s] %s" % (r["job"]["variant"], x) for x in s["samples"][:1]]
        if s["edges_total"]:
            edges_hit = max(edges_hit, s["edges_hit"])
            edges_total = max(edges_total, s["edges_total"])
        delays += s["delays"]
        tdelays += s["target_delays"]
        vk = "%s/%s" % (r["job"]["variant"], r["job"].get("cap", 4096) or "default")
        if r["job"].get("cfg"):
            vk += "/" + r["job"]["cfg"]
        variants[vk] = variants.get(vk, 0) + s["counters"].get("cases", 0)
    evaluations = sum(counters.get(k, 0) for k in spec["evaluations"])
    incon = [r for r in results if r["verdict"] == "inconclusive"]
    coverage = dict(
        evaluations=evaluations, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=samples,
        counters=counters, maxima=maxima, cases_per_variant=variants, runs=len(results),
        inconclusive_runs=len(incon),
        library_and_harness_edges_hit=edges_hit, library_and_harness_edges_total=edges_total,
        injected_delays=delays, injected_delays_at_targeted_points=tdelays,
        build_s=round(t_build, 1), threads_moved_because_starved=nudges[0])
    for m in spec.get("require", ()):
        if not bad and counters.get(m, 0) == 0:
            say("note: nothing was counted for %s" % m)
            incon.append(dict(detail="monitor %s observed nothing" % m))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=coverage, wall_s=round(time.time() - t0, 1),
              assumptions=spec.get("assumptions", []),
              violations=len(bad))
    if bad:
        coverage["violation_details"] = [r["detail"][:1000] for r in bad]
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s %s: %d runs, %d evaluations, %d distinct, %.1f s (build %.1f s)" %
        (pid, tier, len(results), evaluations, len(distinct), time.time() - t0, t_build))
    seen = set()
    for r in results:
        for k in re.findall(r"VP-FINDING .*key=(\S+)", r["out"]):
            if k in known and k not in seen:
                seen.add(k)
                say("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if bad:
        r = bad[0]
        m = re.search(r"case=(\d+)", r["detail"])
        with open(replay, "w") as f:
            f.write("property %s violated: %s\n\n" % (pid, r["detail"]))
            f.write("variant %s, configuration %s, sink capacity %s, seed %d, case %s\n" % (
                r["job"]["variant"], r["job"].get("cfg") or "default", r["job"].get("cap", 4096) or "default", r["seed"], m.group(1) if m else "?"))
            f.write("to run it again: VERIF_SEED=%d python3 /verif/run.py %s %s\n" % (seed, pid, tier))
            f.write("harness command: %s%s\n\n" % (" ".join(r["cmd"]), (" --case " + m.group(1)) if m else ""))
            f.write(r["out"])
        say(r["detail"][:600])
        say("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if not ok or (incon and len(incon) > len(results) // 2) or any("cmd" not in r for r in incon):
        say("no verdict: %s" % "; ".join(str(r["detail"]) for r in incon[:3]))
        return 2
    return 0


def replay_case(pid, rfile, spec, scratch):
    """Runs the one case again that a replay file is about"""
    with open(rfile) as f:
        m = re.search(r"^harness command: (.*)$", f.read(), re.M)
    if not m:
        say("nothing to run again in " + rfile)
        return 2
    cmd = m.group(1).split()
    b = Builder(scratch)
    xtrctl = None
    if spec.get("xtrctl"):
        xtrctl, l = b.xtrctl(spec["xtrctl"])
        l()
    for j in spec["jobs"]:
        path, l = b.exe(j.get("harness", pid.lower()), j["variant"], j.get("cap", 4096), j.get("flags", ()), j.get("cfg"))
        if os.path.basename(path) == os.path.basename(cmd[0]):
            break
    else:
        say("no such job: " + cmd[0])
        return 2
    l()
    new, d = [path], os.path.join(scratch, "replay")
    os.mkdir(d)
    for k, v in zip(cmd[1::2], cmd[2::2]):
        new += [k, {"--dir": d, "--stats": os.path.join(scratch, "stats.json"), "--xtrctl": xtrctl}.get(k, v)]
    say("$ " + " ".join(new))
    rc, out = run_proc(new, 400, cwd=d, env=dict(ENV, TMPDIR=d, XDG_RUNTIME_DIR=d))
    say(out)
    verdict, detail = classify(rc, out, known_findings(pid))
    say("%s %s" % (verdict, detail))
    return 1 if verdict in ("violation", "hang") else 0


def not_built(pid, what, out, replay):
    with open(replay, "w") as f:
        f.write("%s\n\n%s" % (what, out))
    say(what)
    say("VIOLATION property=%s replay=%s" % (pid, replay))
    return 1


def build_failed(pid, spec, b, msg, replay):
    """A harness that no longer compiles gives no answer, unless what does not
    compile is a use of the library that the property promises"""
    probes = spec.get("compile_probes")
    if probes:
        def compiles(code):
            f = os.path.join(b.scratch, "probe.cpp")
            with open(f, "w") as fh:
                fh.write(code)
            return run_proc(b.base("rel", 4096) + ["-fsyntax-only", f], 300)
        if compiles(probes["baseline"])[0] == 0:
            for what, code in probes["promised"].items():
                rc, out = compiles(code)
                if rc != 0:
                    return not_built(pid, "does not compile: " + what, code + "\n\n" + out, replay)
    say(msg[-4000:])
    say("no verdict: build failed")
    return 2


if __name__ == "__main__":
    main()
