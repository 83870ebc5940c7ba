"""The engine of pbt.h for harnesses written in Python (those that drive whole
programs). Same protocol: see run.py and pbt_main.cpp."""
import errno
import json
import mmap
import os
import random
import resource
import struct
import subprocess
import sys
import time
import traceback

M64 = (1 << 64) - 1
MAXCH = 1 << 16
MSG, DESC, CH = 64, 4160, 12352
SIZE = CH + 8 * MAXCH
FAIL_EXIT, ENGINE_EXIT = 77, 78


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def fnv(s):
    h = 1469598103934665603
    for b in s.encode():
        h = ((h ^ b) * 1099511628211) & M64
    return h


class Shared:
    def __init__(self, path):
        fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, SIZE)
        self.m = mmap.mmap(fd, SIZE)
        os.close(fd)

    def put(self, i, v):
        struct.pack_into("<Q", self.m, 8 * i, v & M64)

    def text(self, off, n, s):
        b = s.encode("ascii", "replace").replace(b"\0", b"?")[:n - 1] + b"\0"
        self.m[off:off + len(b)] = b


shared = None


def fail(msg):
    shared.text(MSG, 4096, msg)
    shared.put(2, 2)
    os._exit(FAIL_EXIT)


def engine_error(msg):
    shared.text(MSG, 4096, msg)
    shared.put(2, 4)
    os._exit(ENGINE_EXIT)


class Case:
    def __init__(self, rng=0, replay=None, labels=None):
        self.rng, self.replay, self.labels = rng, replay, labels if labels is not None else {}
        self.ch, self.nontriv, self.d = [], False, ""

    def draw(self, n):
        n = max(1, n)
        if self.replay is not None:
            v = self.replay[len(self.ch)] % n if len(self.ch) < len(self.replay) else 0
        else:
            self.rng = (self.rng + 0x9E3779B97F4A7C15) & M64
            v = mix(self.rng) % n
        if len(self.ch) >= MAXCH:
            engine_error("too many draws")
        struct.pack_into("<Q", shared.m, CH + 8 * len(self.ch), v)
        self.ch.append(v)
        shared.put(3, len(self.ch))
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, l):
        return l[self.draw(len(l))]

    def chance(self, pct):
        return self.draw(100) >= 100 - pct

    def seed(self):
        return self.draw(1 << 32)

    def bulk(self):
        return random.Random(self.seed())

    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1

    def nontrivial(self):
        self.nontriv = True

    def desc(self, s):
        self.d += s
        shared.text(DESC, 8192, self.d)

    def check(self, cond, msg):
        if not cond:
            fail(msg() if callable(msg) else msg)


def run(cmd, timeout=40, env=None, cwd=None, fsize=None, stdout=None, signals=False):
    """Runs a program; returns (status, stdout, stderr). A hang is a failure of the case. fsize: files cannot grow
    beyond that many bytes (Python ignores SIGXFSZ, and so will the program). signals: being stopped by SIGABRT is a status
    like any other."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         restore_signals=False,
                         preexec_fn=fsize is not None and (lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))) or None)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        fail("%s did not end within %d s" % (os.path.basename(cmd[0]), timeout))
    if p.returncode in (-9, 127):
        engine_error("%s: status %d" % (cmd[0], p.returncode))
    if p.returncode < 0 and not (signals and p.returncode == -6):
        fail("%s was killed by signal %d: %s" % (os.path.basename(cmd[0]), -p.returncode, err[-1500:].decode("latin1")))
    if p.returncode == 99 and b"Sanitizer" in err:
        i = err.find(b"ERROR: ")
        fail("%s: %s" % (os.path.basename(cmd[0]), err[max(i, 0):][:1500].decode("latin1")))
    return p.returncode, out, err


def main(body):
    """body(case, bdir)"""
    global shared
    bdir, a = sys.argv[1], sys.argv[2:]
    names = ("prop", "seed", "start", "stride", "count", "shared", "out", "maxsec")

    def one(c, idx=0):
        shared.put(1, idx)
        shared.put(3, 0)
        shared.text(MSG, 4096, "")
        shared.text(DESC, 8192, "")
        shared.put(2, 1)
        try:
            body(c, bdir)
        except (KeyboardInterrupt, SystemExit):
            raise
        except OSError as e:
            if e.errno in (errno.ENOMEM, errno.ENOSPC, errno.EAGAIN, errno.EMFILE, errno.ENFILE):
                engine_error(repr(e))
            fail(traceback.format_exc()[-3000:])
        except MemoryError:
            engine_error("out of memory")
        except Exception:                      # such as output that cannot be understood
            fail(traceback.format_exc()[-3000:])
        shared.put(2, 0)

    if a[0] == "--worker":
        o = dict(zip(names, a[1:]))
        shared = Shared(o["shared"])
        seed, start, stride, count = (int(o[k]) for k in ("seed", "start", "stride", "count"))
        ph = fnv(o["prop"])
        labels, samples, hashes, nontriv, done = {}, [], set(), 0, 0
        t0 = time.monotonic()
        for k in range(count):
            idx = start + k * stride
            c = Case(rng=mix((mix(seed ^ ph) + mix((idx * 0x9E3779B97F4A7C15 + 1) & M64)) & M64), labels=labels)
            one(c, idx)
            done += 1
            shared.put(4, done)
            if c.nontriv:
                nontriv += 1
                h = 7
                for v in c.ch:
                    h = mix(h ^ v)
                hashes.add(h)
                if len(samples) < 2 or (len(samples) < 4 and k & 63 == 63):
                    samples.append(c.d)
            if time.monotonic() - t0 > float(o["maxsec"]):
                break
        with open(o["out"], "w") as f:
            json.dump(dict(cases=done, nontrivial=nontriv, labels=labels, samples=samples, hashes=["%x" % h for h in hashes]), f)
        shared.put(2, 3)
        os._exit(0)
    if a[0] == "--replay":
        shared = Shared(a[2])
        ch = [int(x) for x in open(a[1]).read().split()]
        for i in range(int(a[3]) if len(a) > 3 else 1):
            one(Case(replay=ch))
        shared.put(2, 3)
        os._exit(0)
    os._exit(ENGINE_EXIT)
