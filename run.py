#!/usr/bin/env python3
"""Driver of the checks: run.py PROPERTY [--replay FILE]

Builds the property's harness from /repo's working tree, runs its generated
cases on several workers, confirms, shrinks and reports failures, and writes
/verif/evidence/PROPERTY.json. Exit 0: held on everything explored. Exit 1 and
a line "VIOLATION property=.. replay=..": broken. Anything else: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import mmap
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX, CC = "clang++-18", "clang-18"
T0 = time.time()

MSG_OFF, DESC_OFF, CH_OFF = 64, 64 + 4096, 64 + 4096 + 8192
MAXCH = 1 << 16
SHARED_SIZE = CH_OFF + 8 * MAXCH

COMMON_FLAGS = ["-std=c++17", "-fopenmp", "-fno-rtti", "-fno-exceptions", "-g1", "-w"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "opt": ["-O3", "-funroll-loops"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "fuzz": ["-O1", "-fsanitize=address,fuzzer-no-link", "-fno-omit-frame-pointer"],
    "vg": ["-O1", "-fno-inline-functions"],
}


FUZZLIB = ["/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a", "-lstdc++"]
VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--fair-sched=try"]


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def run_quiet(cmd, cwd=None, env=None):
    for attempt in (1, 2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env)
        if p.returncode == 0:
            return
        if p.returncode >= 0 and b"unable to execute" not in p.stdout:
            break
    raise NoAnswer("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))


def build(prop, spec, bdir):
    """Returns {variant: executable}"""
    jobs, links, exes = [], [], {}
    inc = ["-I" + os.path.join(HERE, "lib"), "-I" + REPO + "/include", "-I" + REPO + "/dep", "-I" + REPO]
    for variant in sorted({v for v, _ in spec["workers"]}):
        if variant == "py":
            continue
        fl = COMMON_FLAGS + VARIANTS[variant] + spec.get("flags", [])
        objs = []

        def obj(name, cmd):
            o = os.path.join(bdir, variant + "." + name + ".o")
            jobs.append(cmd + ["-c", "-o", o])
            objs.append(o)

        for i, tu in enumerate(spec["tus"]):
            defs = ["-D%s=%s" % (k, v if k != "TAG" else '"%s"' % v) for k, v in tu.items()]
            obj("tu%d" % i, [CXX] + fl + inc + defs + [os.path.join(HERE, "harness", spec["src"])])
        obj("main", [CXX] + fl + inc + (["-DPBT_FUZZ"] if variant == "fuzz" else []) + [os.path.join(HERE, "lib/pbt_main.cpp")])
        obj("common", [CXX] + fl + inc + [REPO + "/src/common.cpp"])
        cfl = [f for f in fl if f not in ("-std=c++17", "-fno-rtti")]
        obj("mm_io", [CC] + cfl + inc + [REPO + "/dep/mm_io/mm_io.c"])
        for x in spec.get("extra_src", []):
            obj("x_" + os.path.basename(x), [CXX] + fl + inc + [os.path.join(HERE, "harness", x)])
        exe = os.path.join(bdir, variant + ".exe")
        links.append([CXX] + fl + objs + spec.get("libs", []) + (FUZZLIB if variant == "fuzz" else []) + ["-o", exe])
        exes[variant] = [exe] if variant != "vg" else VALGRIND + [exe]
    for name, cmd in spec.get("programs", {}).items():
        out = os.path.join(bdir, name)
        jobs.append([a.replace("{REPO}", REPO).replace("{B}", bdir).replace("{HERE}", HERE) for a in cmd] + ["-o", out])
    # Big jobs first
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run_quiet, jobs))
        list(ex.map(run_quiet, links))
    if any(v == "py" for v, _ in spec["workers"]):
        exes["py"] = [sys.executable, os.path.join(HERE, "harness", spec["src"]), bdir]
    return exes


# ------------------------------------------------------------------ running

def worker_env(variant, w, spec):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "KMP_", "GLIBC_", "ASAN_", "TSAN_", "MALLOC_"))}
    env.update(OMP_WAIT_POLICY="passive", KMP_BLOCKTIME="0", OMP_DYNAMIC="false", OMP_NUM_THREADS="4", LC_ALL="C",
               OMP_MAX_ACTIVE_LEVELS="1", OMP_THREAD_LIMIT="64")
    fill = [0xBE, 0xFF, 0x01, 0x00, 0x5A, 0x80, 0x7F, 0xA5][w % 8]
    if variant in ("asan", "fuzz"):
        env["ASAN_OPTIONS"] = ("exitcode=99:detect_leaks=0:malloc_fill_byte=%d:max_malloc_fill_size=134217728:"
                               "max_allocation_size_mb=3000:hard_rss_limit_mb=3500:quarantine_size_mb=32:"
                               "allocator_may_return_null=0:detect_stack_use_after_return=0" % fill) + spec.get("asan", "")
    elif variant == "tsan":
        env["OMP_TOOL_LIBRARIES"] = "/usr/lib/llvm-18/lib/libarcher.so"
        env["TSAN_OPTIONS"] = "ignore_noninstrumented_modules=1:exitcode=66:halt_on_error=1:history_size=4"
    elif variant == "opt":
        env["GLIBC_TUNABLES"] = "glibc.malloc.perturb=%d" % (fill or 7)
    env.update(spec.get("env", {}))
    return env


def limits(variant):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant == "opt":
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


class Shared:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.truncate(SHARED_SIZE)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), SHARED_SIZE)

    def head(self):
        return struct.unpack_from("<5Q", self.m, 0)   # magic idx state nch cases

    def text(self, off, n):
        return self.m[off:off + n].split(b"\0")[0].decode("utf-8", "replace")

    def msg(self):
        return self.text(MSG_OFF, 4096)

    def desc(self):
        return self.text(DESC_OFF, 8192)

    def choices(self):
        n = min(self.head()[3], MAXCH)
        return list(struct.unpack_from("<%dQ" % n, self.m, CH_OFF))

    def close(self):
        self.m.close()
        self.f.close()


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.kill()
    except ProcessLookupError:
        pass


def kind_of(rc, state):
    if rc == 0:
        return "ok"
    if rc == 78 or state == 4:
        return "engine"
    if rc == 77:
        return "oracle"
    if rc == 99:
        return "memory error"
    if rc == 98:
        return "memory error (valgrind)"
    if rc == 66:
        return "data race"
    if rc == -signal.SIGKILL:
        return "killed"
    if rc < 0:
        return "crash (%s)" % signal.Signals(-rc).name
    return "exit status %d" % rc


class Runner:
    def __init__(self, prop, spec, exes, wdir):
        self.prop, self.spec, self.exes, self.wdir = prop, spec, exes, wdir
        self.n = 0

    def replay_once(self, variant, w, choices, reps=1, timeout=60):
        """Returns (kind, msg, desc, stderr)"""
        self.n += 1
        tag = os.path.join(self.wdir, "r%d" % self.n)
        with open(tag + ".ch", "w") as f:
            f.write("\n".join(map(str, choices)) + "\n")
        sh = Shared(tag + ".sh")
        env = worker_env(variant, w, self.spec)
        env["VERIF_SCRATCH"] = tag + ".d"
        os.makedirs(tag + ".d", exist_ok=True)
        with open(tag + ".err", "wb") as err:
            p = subprocess.Popen(self.exes[variant] + ["--replay", tag + ".ch", tag + ".sh", str(reps)],
                                 stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL,
                                 cwd=tag + ".d", env=env, preexec_fn=limits(variant))
            try:
                rc = p.wait(timeout=timeout)
                kind = kind_of(rc, sh.head()[2])
            except subprocess.TimeoutExpired:
                kind = "hang"
            killpg(p)
            p.wait()
        with open(tag + ".err", "rb") as f:
            err = ends(f.read())
        out = (kind, sh.msg(), sh.desc(), err)
        sh.close()
        for s in (".ch", ".sh", ".err"):
            os.unlink(tag + s)
        shutil.rmtree(tag + ".d", ignore_errors=True)
        return out


def ends(b):
    """The start and the end of an output"""
    if len(b) > 12000:
        b = b[:6000] + b"\n...\n" + b[-6000:]
    return b.decode("utf-8", "replace")


def in_runtime(text):
    """Crashed inside the OpenMP runtime itself? It does so by itself now and then, when the number of threads changes"""
    if re.search(r"OMP: Error|Assertion failure at kmp", text):
        return True
    m = re.search(r"crash, called from:\n(.*)\n(.*)\n(.*)", text)
    if m:
        return "libomp.so" in m.group(3)
    m = re.search(r"Sanitizer: (?:SEGV|BUS|ABRT|FPE)[\s\S]*?\n\s*#0 (.*)", text)
    return bool(m and "libomp.so" in m.group(1))


def failing(kind):
    return kind not in ("ok", "engine", "killed")


def overloaded():
    """How much longer everything may take because other programs use the machine, at most 3"""
    return min(3, max(1, os.getloadavg()[0] / (3 * (os.cpu_count() or 1))))


def confirm(runner, variant, w, choices, kind, racy, runtime):
    """Does the recorded case fail when run alone? Returns the number of failures and the last outcome."""
    bad, last = 0, None
    if runtime:                                     # only what fails always
        outs = [runner.replay_once(variant, w, choices, timeout=60) for i in range(4)]
        return (4, outs[0]) if all(failing(o[0]) for o in outs) else (0, None)
    tries, slow = (3, 1) if kind != "hang" else (2, overloaded())
    for i in range(tries):
        o = runner.replay_once(variant, w, choices, timeout=60 * slow)
        if failing(o[0]):
            bad, last = bad + 1, o
        elif slow > 1:
            return 0, None
    if bad == 0 and racy:
        for i in range(15):
            o = runner.replay_once(variant, w, choices, reps=20, timeout=120)
            if failing(o[0]):
                bad, last = bad + 1, o
                break
    return bad, last


def shrink(runner, variant, w, choices, kind, budget=30.0, racy=False):
    t0 = time.time()
    cur = list(choices)
    while cur and cur[-1] == 0:
        cur.pop()
    tmo = 60 if kind == "hang" else 30
    if kind == "hang":
        return cur   # every candidate would take the whole time limit

    reps = 10 if racy else 1

    def fails(c):
        if time.time() - t0 > budget:
            return False
        return failing(runner.replay_once(variant, w, c, reps=reps, timeout=tmo)[0])

    def first(cands):
        """First candidate (in order) that still fails; eight at a time"""
        with cf.ThreadPoolExecutor(8) as ex:
            for i in range(0, len(cands), 8):
                if time.time() - t0 > budget:
                    return None
                res = list(ex.map(fails, cands[i:i + 8]))
                for c, r in zip(cands[i:i + 8], res):
                    if r:
                        return c
        return None

    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        n = len(cur)
        size = max(1, n // 2)
        while size >= 1:
            cands = []
            for i in range(0, len(cur), size):
                if any(cur[i:i + size]):
                    cands.append(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:])
                cands.append(cur[:i] + cur[i + size:])
            cands = [c for c in cands if c != cur][:64]
            got = first(cands)
            if got is not None:
                cur, progress = got, True
                while cur and cur[-1] == 0:
                    cur.pop()
                size = min(size, max(1, len(cur)))
                continue
            size //= 2
        cands = []
        for i, v in enumerate(cur[:200]):
            for nv in (v // 2, v // 4 * 3, v - 1):
                if 0 <= nv < v:
                    cands.append(cur[:i] + [nv] + cur[i + 1:])
        got = first(cands)
        if got is not None:
            cur, progress = got, True
    return cur


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                key, _, what = line.split(" key=", 1)[1].strip().partition(" ")
                out.append((key, what))
    return out


def explore(prop, spec, exes, seed, tier, wdir):
    runner = Runner(prop, spec, exes, wdir)
    cap = {"quick": 400.0, "thorough": 3000.0}[tier]
    nworkers = len(spec["workers"])
    ws = []
    totals = dict(cases=0, labels={}, hashes=set(), samples=[], nontrivial=0, workers={}, unconfirmed=0, runtime=0, lost=0)
    findings = known_findings(prop)
    seen_findings = {}

    def start(w, start_idx, count):
        variant = spec["workers"][w][0]
        tag = os.path.join(wdir, "w%d.%d" % (w, len(ws)))
        sh = Shared(tag + ".sh")
        env = worker_env(variant, w, spec)
        env["VERIF_SCRATCH"] = tag + ".d"
        os.makedirs(tag + ".d")
        err = open(tag + ".err", "wb")
        cmd = exes[variant] + ["--worker", prop, str(seed), str(start_idx), str(nworkers), str(count), tag + ".sh",
                               tag + ".out", str(cap)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, env=env,
                             cwd=tag + ".d", preexec_fn=limits(variant))
        ws.append(dict(w=w, variant=variant, tag=tag, sh=sh, p=p, err=err, start=start_idx, count=count,
                       last=(-1, time.time()), done=False))

    for w, (variant, share) in enumerate(spec["workers"]):
        start(w, w, max(1, int(spec["count"][tier] * share)))

    violation = None
    kills = {}
    while violation is None and any(not x["done"] for x in ws):
        time.sleep(0.05)
        for x in list(ws):
            if x["done"]:
                continue
            rc = x["p"].poll()
            _, idx, state, _, cases = x["sh"].head()
            hang = False
            if rc is None:
                if cases != x["last"][0]:
                    x["last"] = (cases, time.time())
                    continue
                if time.time() - x["last"][1] <= spec.get("hang_s", 60):
                    continue
                hang = True
            kind = "hang" if hang else kind_of(rc, state)
            if hang:
                killpg(x["p"])
                x["p"].wait()
            else:
                killpg(x["p"])      # anything it left behind
            x["done"] = True
            x["err"].close()
            if kind == "ok":
                d = json.load(open(x["tag"] + ".out"))
                totals["cases"] += d["cases"]
                totals["nontrivial"] += d["nontrivial"]
                totals["hashes"].update(d["hashes"])
                for k, v in d["labels"].items():
                    totals["labels"][k] = totals["labels"].get(k, 0) + v
                totals["samples"].append(d["samples"])
                totals["workers"][x["variant"]] = totals["workers"].get(x["variant"], 0) + d["cases"]
                continue
            errtext = ends(open(x["tag"] + ".err", "rb").read())
            if kind == "engine":
                raise NoAnswer("harness error in case %d: %s %s" % (idx, x["sh"].msg(), errtext[-2000:]))
            if kind == "killed":
                # Most likely ended for want of memory: run the worker again
                kills[x["w"]] = kills.get(x["w"], 0) + 1
                if kills[x["w"]] > 3:
                    raise NoAnswer("a worker was killed repeatedly")
                totals["lost"] += 1
                start(x["w"], x["start"], x["count"])
                continue
            totals["cases"] += cases
            msg, desc, choices = x["sh"].msg(), x["sh"].desc(), x["sh"].choices()
            f = next((k for k in findings if k[0] in msg), None)
            k = (idx - x["start"]) // nworkers + 1
            if f is not None:
                seen_findings[f] = seen_findings.get(f, 0) + 1
                if k < x["count"]:
                    start(x["w"], idx + nworkers, x["count"] - k)
                continue
            if state == 0 and kind != "hang":
                raise NoAnswer("worker failed outside a case: %s %s" % (kind, errtext[-2000:]))
            log("# case %d (%s, worker %d): %s: %s" % (idx, x["variant"], x["w"], kind, msg))
            for y in ws:
                if not y["done"]:
                    os.killpg(y["p"].pid, signal.SIGSTOP)
            runtime = in_runtime(errtext)
            bad, last = confirm(runner, x["variant"], x["w"], choices, kind, spec.get("racy", False), runtime)
            if bad:
                violation = dict(kind=last[0], msg=last[1], desc=last[2], err=last[3], choices=choices, first_kind=kind,
                                 variant=x["variant"], w=x["w"], history=None)
            else:
                # Perhaps it depends on the cases that ran before in the same process
                h = None if runtime else history_run(runner, prop, spec, exes, x, seed, idx, nworkers)
                if h is not None:
                    violation = dict(kind=h[0], msg=h[1], desc=h[2], err=h[3], choices=choices, first_kind=kind,
                                     variant=x["variant"], w=x["w"],
                                     history=dict(seed=seed, start=x["start"], stride=nworkers, count=k))
                else:
                    totals["runtime" if runtime else "unconfirmed"] += 1
                    log("# not reproducible, going on: %s %s" % (kind, errtext))
                    if totals["unconfirmed"] > 5 or totals["runtime"] > 40:
                        raise NoAnswer("too many failures that do not reproduce")
                    for y in ws:
                        if not y["done"]:
                            os.killpg(y["p"].pid, signal.SIGCONT)
                            y["last"] = (y["last"][0], time.time())
                    if k < x["count"]:
                        start(x["w"], idx + nworkers, x["count"] - k)
            if violation:
                break
    for x in ws:
        if not x["done"]:
            killpg(x["p"])
            x["p"].wait()
            totals["cases"] += x["sh"].head()[4]
        x["sh"].close()
    for f, n in sorted(seen_findings.items()):
        log("KNOWN-FINDING: property=%s %s %s (%d cases)" % (prop, f[0], f[1], n))
    totals["findings"] = {k[0]: n for k, n in seen_findings.items()}
    if violation and violation["history"] is None:
        v = violation
        small = shrink(runner, v["variant"], v["w"], v["choices"], v["kind"], racy=spec.get("racy", False))
        o = None
        for i in range(3):
            o = runner.replay_once(v["variant"], v["w"], small, reps=10 if spec.get("racy") else 1)
            if failing(o[0]):
                break
        if failing(o[0]):
            v.update(kind=o[0], msg=o[1], desc=o[2], err=o[3], original=v["choices"], choices=small)
    return totals, violation


def history_run(runner, prop, spec, exes, x, seed, idx, nworkers):
    count = (idx - x["start"]) // nworkers + 1
    for i in range(2):
        tag = os.path.join(runner.wdir, "h%d.%d" % (x["w"], i))
        sh = Shared(tag + ".sh")
        env = worker_env(x["variant"], x["w"], spec)
        env["VERIF_SCRATCH"] = tag + ".d"
        os.makedirs(tag + ".d", exist_ok=True)
        with open(tag + ".err", "wb") as err:
            p = subprocess.Popen(exes[x["variant"]] + ["--worker", prop, str(seed), str(x["start"]), str(nworkers), str(count),
                                                       tag + ".sh", tag + ".out", "200"],
                                 stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, cwd=tag + ".d", env=env,
                                 preexec_fn=limits(x["variant"]))
            try:
                kind = kind_of(p.wait(timeout=200), sh.head()[2])
            except subprocess.TimeoutExpired:
                kind = "hang"
            killpg(p)
            p.wait()
        out = (kind, sh.msg(), sh.desc(), ends(open(tag + ".err", "rb").read()))
        same = sh.head()[1] == idx
        sh.close()
        if failing(kind) and kind != "hang" and same:
            return out
    return None


# ------------------------------------------------------------------ main

def write_evidence(prop, spec, tier, seed, totals, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    for i in range(4):
        for s in totals["samples"]:
            if i < len(s) and len(samples) < 8:
                samples.append(s[i])
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=totals["cases"], distinct_nontrivial=len(totals["hashes"]), rule=spec["rule"],
                            samples=samples, classes=dict(sorted(totals["labels"].items())),
                            cases_per_build=totals["workers"], unconfirmed_failures=totals["unconfirmed"], crashes_inside_libomp=totals["runtime"],
                            restarted_workers=totals["lost"], known_findings_seen=totals.get("findings", {})),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=violations)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def do_replay(prop, spec, exes, wdir, path):
    r = json.load(open(path))
    runner = Runner(prop, spec, exes, wdir)
    if r.get("history"):
        h = r["history"]
        x = dict(w=r["w"], variant=r["variant"], start=h["start"])
        o = history_run(runner, prop, spec, exes, x, h["seed"], h["start"] + h["stride"] * (h["count"] - 1), h["stride"])
        o = o or ("ok", "", "", "")
    else:
        for i in range(5):
            o = runner.replay_once(r["variant"], r["w"], r["choices"], reps=20 if spec.get("racy") else 1)
            if failing(o[0]):
                break
    log("%s: %s\n%s\n%s" % o)
    if failing(o[0]):
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    bdir = os.path.join(HERE, "build", prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    wdir = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=shm)
    try:
        exes = build(prop, spec, bdir)
        log("# built in %.1f s" % (time.time() - T0))
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return do_replay(prop, spec, exes, wdir, sys.argv[3])
        totals, v = explore(prop, spec, exes, seed, tier, wdir)
        write_evidence(prop, spec, tier, seed, totals, 1 if v else 0)
        log("# %s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, totals["cases"], len(totals["hashes"]),
                                                                    time.time() - T0))
        if v:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            h = hashlib.sha1(json.dumps([v["choices"], v["variant"]]).encode()).hexdigest()[:10]
            path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(dict(property=prop, **v), f, indent=1)
            log("# %s: %s" % (v["kind"], v["msg"]))
            log("# case: %s" % v["desc"])
            if v["kind"] != "oracle":
                log("# " + v["err"][-3000:].replace("\n", "\n# "))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        mn = spec.get("min_nontrivial", 50)
        if len(totals["hashes"]) < mn:
            raise NoAnswer("only %d non-trivial cases" % len(totals["hashes"]))
        return 0
    except NoAnswer as e:
        log("# NO ANSWER: %s" % e)
        return 2
    finally:
        shutil.rmtree(wdir, ignore_errors=True)
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
