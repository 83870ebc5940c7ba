"""C21: the multiplication and benchmark programs work on every valid matrix file."""
import os
import re
import shutil
import sys
from array import array

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from mats import *

ITERATIONS = 3                       # as built, see checks.py
THREADS = [1, 1, 2, 3, 8, 13]
FLOAT = r"(?:-?(?:\d+(?:\.\d*)?(?:e[-+]?\d+)?|inf|nan))"
CLEAN = {"GLIBC_TUNABLES": "glibc.malloc.perturb=255:glibc.malloc.tcache_count=0",
         "ASAN_OPTIONS": os.environ.get("ASAN_OPTIONS", "") + ":malloc_fill_byte=0:max_malloc_fill_size=1000000000"}


def go(c, bdir, name, args, clean=False):
    """clean: memory is zero, because the program (a test) relies on it"""
    v = c.pick(["plain", "plain", "asan"])
    c.label("%s, %s" % (name, v))
    t = c.pick(THREADS)
    env = {"OMP_NUM_THREADS": str(t)}
    if clean:
        env.update(CLEAN)
    rc, out, err = pbt.run([os.path.join(bdir, name + "." + v)] + args, env=env, timeout=60, signals=True)
    out = out.decode("latin1")
    if rc == 99 and b"Sanitizer" in err:
        i = err.find(b"ERROR: ")
        pbt.fail("%s: %s" % (name, err[max(i, 0):][:1500].decode("latin1")))
    return rc, out, err.decode("latin1"), t


def gen_matrix(c, tame=False, square=False, max_dim=5000):
    """Writes a file, returns (name, rows, cols, entries)"""
    if not square and c.draw(3) == 0:
        text, R, C, e = gen_mtx(c, max_dim=max_dim)
        f = c.pick(["m.mtx", "with space.mtx", "a.bin.mtx", ".mtx"])
        write(f, text)
        return f, R, C, e
    R = min(max_dim, gen_dim(c, 0 if tame else 300000) if c.draw(4) else 1 << c.draw(13))
    C = R if square or c.draw(3) == 0 else min(max_dim, gen_dim(c, 0 if tame else 300000))
    n = gen_count(c)
    pos = gen_positions(c, R, C, n)
    if c.draw(6) == 5 and R * C <= 3000:                # full
        pos = [(r, k) for r in range(R) for k in range(C)]
        n = len(pos)
    if tame:
        g = c.bulk()
        k = c.draw(2)
        v = [bits32(float(g.randrange(-9, 10)) if k else g.uniform(-1, 1)) for _ in range(n)]
    else:
        v = values32(c, n, finite=False)
    e = [(r, k, x) for (r, k), x in zip(pos, v)]
    if square or c.draw(3):
        f = c.pick(["m.bin", "with space.bin", "a.mtx.bin", ".bin"])
        head = u32s([R, C, n])
        write(f, head + u32s([x[0] for x in e]) + u32s([x[1] for x in e]) + u32s([x[2] for x in e]))
    else:
        f = "m.mtx"
        e = [(r, k, x) for r, k, x in e if x & 0x7f800000 != 0x7f800000]
        write(f, "%%MatrixMarket matrix coordinate real general\n" + "%d %d %d\n" % (R, C, len(e)) +
              "".join("%d %d %.9g\n" % (r + 1, k + 1, from32(x)) for r, k, x in e))
    return f, R, C, [(r, k, from32(x)) for r, k, x in e]


def unreadable(c, f):
    """Makes the file one that cannot be read"""
    k = c.draw(7)
    d = read(f)
    if k == 0:
        os.unlink(f)
        return f, "the file is missing"
    if k == 1:
        g = f.replace(".", "_")
        os.rename(f, g)
        return g, "the file has no known extension"
    if k == 2 and f.endswith(".bin"):
        write(f, d[:c.draw(len(d))])
        return f, "the file is cut short"
    if k == 3 and f.endswith(".mtx"):
        write(f, d[2:])
        return f, "the file has no banner"
    if k == 4 and f.endswith(".mtx"):
        write(f, d[:d.index(b"\n") + c.draw(2)])
        return f, "the file ends after the banner"
    os.unlink(f)
    os.mkdir(f)
    return f, "the file is a directory"


def number(pattern, out, what):
    m = re.findall(pattern, out)
    if len(m) != 1:
        pbt.fail("%s found %d times in the output:\n%s" % (what, len(m), out[-1500:]))
    return m[0]


def rows_nnz(c, out, R, n, head="CSR matrix"):
    have = number(head + r"\s*:\s*(\d+) rows, (\d+) non-zeros", out, "the CSR information")
    c.check(have == (str(R), str(n)), "CSR information %r, expected %d rows, %d non-zeros" % (have, R, n))


def wide_rows(c, out, R, n, W):
    have = number(r"Cswr matrix\s*:\s*(\d+) rows in (\d+) groups of (\d+), (\d+) non-zeros", out, "the CSWR information")
    want = (R, -(-R // W), W, n)
    c.check(tuple(map(int, have)) == want, "CSWR information %r, expected %r" % (have, want))


def one_blocks(c, text, R, C, n, blocks):
    """blocks(br, bc): the number of non-empty ones, or None if there cannot be so many block-rows and columns"""
    have = number(r"(\d+) rows x (\d+) columns\s+(\d+) block-rows x (\d+) block-columns\s+(\d+) non-zeros in (\d+) blocks", text, "the block information")
    r, k, br, bc, z, nb = map(int, have)
    c.check((r, k, z) == (R, C, n), "sizes %r, expected %r" % ((r, k, z), (R, C, n)))
    want = blocks(br, bc)
    c.check(want is not None, lambda: "there cannot be %d x %d blocks in this matrix of %d x %d" % (br, bc, R, C))
    c.check(nb in want, lambda: "%d non-empty blocks of %d x %d, expected %s" % (nb, br, bc, want))
    p = number("(" + FLOAT + r")% non-zeros", text, "the percentage of non-zeros")
    q = number("(" + FLOAT + r")% non-zero blocks", text, "the percentage of blocks")
    for a, b, w in ((p, 100.0 * n / (R * C), "non-zeros"), (q, 100.0 * nb / (br * bc), "non-zero blocks")):
        c.check(abs(float(a) - b) <= 1e-4 + 1e-5 * b, "%s%% %s, expected %.4f" % (a, w, b))
    kinds = re.findall(r"(Blocks|Non-Zeros)\s*:((?:\s*\d+ [^\d,\n]+,?)+)", text)
    for w, l in kinds:
        s = sum(int(x) for x in re.findall(r"\d+", l))
        c.check(s == (nb if w == "Blocks" else n), "%s :%s, which are %d in total" % (w, l, s))
    return nb, br, len(kinds)


def given(e, rs, cs):
    a, b = block_of(rs), block_of(cs)
    s = {(a(x[0]), b(x[1])) for x in e}
    return lambda br, bc: {len(s)} if (br, bc) == (len(rs), len(cs)) else None


def powers(e, R, C, also=()):
    """Square blocks of some size that the programs may choose; what remains goes to the last block"""
    def f(br, bc):
        out = set()
        for s in [1 << i for i in range(33)] + list(also):
            if (br, bc) == (max(1, R // s), max(1, C // s)):
                out.add(len({(min(x[0] // s, br - 1), min(x[1] // s, bc - 1)) for x in e}))
        return out or None
    return f


def timing(c, out, method, n):
    l = []
    for w in ("best", "median", "mean", "worst"):
        t = float(number(r"Execution time %s \(%s\)\s*:\s*(%s)" % (method, w, FLOAT), out, "the %s time of %s" % (w, method)))
        m = float(number(r"MFLOP/s\s+%s \(%s\)\s*:\s*(%s)" % (method, w, FLOAT), out, "the %s MFLOP/s of %s" % (w, method)))
        d = 6e-7 + 1e-6 * t
        lo, hi = 2e-6 * n / (t + d) * .9999 - .51, 2e-6 * n / max(t - d, 1e-12) * 1.0001 + .51
        c.check(t >= 0 and (lo <= m <= hi), "%s (%s): %f s and %f MFLOP/s for %d non-zeros" % (method, w, t, m, n))
        l.append((t, m))
    b, med, mean, wo = l
    tol = 1.1e-6
    c.check(b[0] <= med[0] + tol and med[0] <= wo[0] + tol and b[0] <= mean[0] + tol and mean[0] <= wo[0] * 1.00001 + tol,
            "times of %s out of order: best, median, mean, worst are %r" % (method, [x[0] for x in l]))


def csv(c, out, method, n):
    m = number(r"(?m)^(?:.*[^\w(])?%s,(%s),(%s),(%s),(%s)\s*$" % ((method,) + (FLOAT,) * 4), out, "the line of %s" % method)
    b, med, mean, wo = map(float, m)
    c.check(b >= med >= wo >= 0 and b >= mean - 1 and mean >= wo - 1, "MFLOP/s of %s out of order: %r" % (method, m))
    if n == 0:
        c.check(b == 0, "%s MFLOP/s without non-zeros" % m[0])


def partition(c, out, n, nb, br):
    """Chunks of every block-row cover its blocks"""
    lines = re.findall(r"(?m)^(\d+),(\d+):\t((?:\d+ )*)$", out)
    c.check([int(l[0]) for l in lines] == list(range(br)), lambda: "block-rows %s dumped, expected %d:\n%s" % ([l[0] for l in lines][:20], br, out[-500:]))
    total = 0
    for i, k, s in lines:
        s = [int(x) for x in s.split()]
        c.check(len(s) == int(k), "block-row %s: %s chunks announced, %d sizes" % (i, k, len(s)))
        total += sum(s)
    c.check(total == nb, "the chunks hold %d blocks, expected %d" % (total, nb))


def simple(c, bdir):
    """csr, csr2, cswr, bench"""
    prog = c.pick(["csr", "csr2", "cswr", "bench"])
    f, R, C, e = gen_matrix(c)
    n = len(e)
    bad = ""
    if c.draw(6) == 0:
        f, bad = unreadable(c, f)
    args = [f]
    W = 32
    if c.draw(20) == 0:
        args, bad = [], "there are no arguments"
    elif prog == "cswr" and c.draw(2):
        W = c.pick([1, 2, 255, 256]) if c.draw(4) == 3 else 1 + c.draw(256)
        args.append(str(W))
    c.desc("%s %s: %dx%d, %d entries %s; %s" % (prog, args, R, C, n, e[:4], bad))
    if n or bad:
        c.nontrivial()
    rc, out, err, t = go(c, bdir, prog, args)
    if bad:
        c.label("with a fault")
        return c.check(rc != 0, "%s: exit status 0 although %s" % (prog, bad))
    c.check(rc == 0, lambda: "%s: exit status %d: %s" % (prog, rc, err[:800]))
    if prog == "cswr":
        wide_rows(c, out, R, n, W)
        timing(c, out, "CSWR", n)
    elif prog == "bench":
        th = number(r"Threads\s*:\s*(\d+)", out, "the number of threads")
        c.check(int(th) == t, "%s threads reported of %d" % (th, t))
        timing(c, out, "CSR", n)
        timing(c, out, "GSB", n)
    else:
        rows_nnz(c, out, R, n)
        timing(c, out, "CSR", n)


def blocked(c, bdir):
    prog = c.pick(["csbr", "csbr2", "cgbr", "cgbr2", "partition"])
    f, R, C, e = gen_matrix(c)
    n = len(e)
    bad = ""
    args = [f]
    info = powers(e, R, C)
    if c.draw(2):
        rs, cs = gen_sizes(c, R), gen_sizes(c, C)
        small = max(rs + cs) <= 65536 or prog in ("csbr", "csbr2")
        if not small:
            rs, cs = [min(65536, R - i) for i in range(0, R, 65536)], [min(65536, C - i) for i in range(0, C, 65536)]
        info = given(e, rs, cs)
        k = c.draw(10)
        if k == 0:
            w = c.pick([rs, cs])
            if c.draw(2):
                w[c.draw(len(w))] += 1 + c.draw(5)
            elif len(w) > 1 and w[-1] and c.draw(2):
                w.pop()
            elif w[-1] > 1:
                w[-1] -= 1
            else:
                w.append(1)
            bad = "the block sizes do not add up"
        write("rs", u32s(rs))
        write("cs", u32s(cs))
        args += ["rs", "cs"]
        if k == 1:
            os.unlink(c.pick(["rs", "cs"]))
            bad = "block sizes are missing"
        c.desc("block sizes %s (%d) and %s (%d); " % (rs[:8], len(rs), cs[:8], len(cs)))
    if not bad and c.draw(7) == 0:
        args[0], bad = unreadable(c, f)
    elif c.draw(20) == 0:
        args, bad = c.pick([([], "there are no arguments"), ([f, "rs"], "there is one argument too few"), ([f] * 4, "there are too many arguments")])
    c.desc("%s %s: %dx%d, %d entries %s; %s" % (prog, args, R, C, n, e[:4], bad))
    if n or bad:
        c.nontrivial()
    rc, out, err, t = go(c, bdir, prog, args)
    if bad:
        c.label("with a fault")
        return c.check(rc != 0, "%s: exit status 0 although %s" % (prog, bad))
    c.check(rc == 0, lambda: "%s: exit status %d: %s" % (prog, rc, err[:800]))
    nb, br, kinds = one_blocks(c, out, R, C, n, info)
    c.check(kinds == (0 if "csbr" in prog else 2), "%d lines about the kinds of blocks" % kinds)
    if prog == "partition":
        partition(c, out, n, nb, br)
    else:
        timing(c, out, "GSB", n)
    c.label(("given" if len(args) > 1 else "chosen") + " block sizes" + (", one block" if br == 1 else ", blocks"))


def compare(c, bdir):
    """bin/test/result"""
    f, R, C, e = gen_matrix(c, tame=True)
    n = len(e)
    bad = ""
    if c.draw(8) == 0:
        f, bad = unreadable(c, f)
    args = [f] if c.draw(20) else []
    if not args:
        bad = "there are no arguments"
    c.desc("result %s: %dx%d, %d entries %s; %s" % (args, R, C, n, e[:4], bad))
    if n or bad:
        c.nontrivial()
    rc, out, err, t = go(c, bdir, "result", args, clean=True)
    if bad:
        c.label("with a fault")
        return c.check(rc != 0, "result: exit status 0 although %s" % bad)
    c.check(rc == 0, lambda: "result: exit status %d: %s" % (rc, err[:800]))
    p = re.split(r"(?m)^-+ ([^\n-]+) -+\n", out)
    names, texts = p[1::2], p[2::2]
    c.check(len(names) == 7, "formats %r" % names)
    rows_nnz(c, p[0], R, n)
    s, k = [0.0] * R, [0] * R
    for r, _, v in e:
        s[r] += abs(f32(v))
        k[r] += 1
    bound = max([2.0 * (k[r] + 2) * 2.0 ** -24 * s[r] * 1.01 + (k[r] + 1) * 1e-44 for r in range(R)])
    exact = max(k) <= 1
    size = int(number(r"Block size\s*:\s*(\d+)", p[0], "the block size"))
    c.check(0 < size <= max(1, min(R, C)), "block size %d" % size)
    for name, x in zip(names, texts):
        if "CSWR" in name:
            wide_rows(c, x, R, n, 32)
        elif "BR" in name:
            one_blocks(c, x, R, C, n, powers(e, R, C, [size]))
        if "produced the same result" in x:
            continue
        d = number(r"differ in (\d+) elements", x, "the comparison")
        c.check(not exact, "%s differs from CSR in %s rows, of one element each" % (name, d))
        m = [float(number(w + r"\s*:\s*(%s)" % FLOAT, x, w)) for w in (r"\bMSE", "NMSE", "Maximum error")]
        c.check(m[2] * .99999 <= bound and m[0] <= bound * bound * 1.01 + 1e-37, "%s differs from CSR in %s rows by up to %g (MSE %g), beyond rounding (%g)" % (name, d, m[2], m[0], bound))
        c.label("compared within rounding")


def permuted(c, bdir):
    """pbench"""
    f, R, C, e = gen_matrix(c, square=True)
    n = len(e)
    perm = list(range(R))
    if c.draw(4):
        c.bulk().shuffle(perm)
    bad = ""
    k = c.draw(9)
    if k == 0:
        f, bad = unreadable(c, f)
    elif k == 1:
        if c.draw(2):
            perm.append(R)
        else:
            perm.remove(R - 1)
        bad = "the permutation has another size"
    write("perm", u32s(perm))
    args = [f, "perm"]
    if k == 3 and c.draw(3) == 0:
        os.unlink("perm")
        bad = "the permutation is missing"
    if c.draw(20) == 0:
        args, bad = args[:c.draw(2)], "an argument is missing"
    c.desc("pbench %s: %dx%d, %d entries %s, permutation %s; %s" % (args, R, C, n, e[:4], perm[:8], bad))
    if n or bad:
        c.nontrivial()
    rc, out, err, t = go(c, bdir, "pbench", args)
    if bad:
        c.label("with a fault")
        return c.check(rc != 0, "pbench: exit status 0 although %s" % bad)
    c.check(rc == 0, lambda: "pbench: exit status %d: %s" % (rc, err[:800]))
    inv = [0] * R
    for i, p in enumerate(perm):
        inv[p] = i
    th = number(r"Threads\s*:\s*(\d+)", out, "the number of threads")
    c.check(int(th) == t, "%s threads reported of %d" % (th, t))
    one_blocks(c, out, R, C, n, powers([(inv[r], inv[k], v) for r, k, v in e], R, C))
    csv(c, out, "CSR", n)
    csv(c, out, "GSB", n)


def listing(c, bdir):
    """bin/test/block"""
    names, want, bad = [], [], ""
    for i in range(1 + c.draw(3)):
        f, R, C, e = gen_matrix(c, max_dim=400)
        size, ratio = c.draw(100000), c.draw(1000) / 8.0
        g = "size%dratio%g_%d%s" % (size, ratio, i, f[-4:])
        os.rename(f, g)
        names.append(c.pick(["", "./", os.getcwd() + "/"]) + g)
        want.append((size, len(e), ratio, R, C))
    if c.draw(8) == 0:
        f, bad = unreadable(c, os.path.basename(names[-1]))
        names[-1] = f
    c.desc("block %s: %s; %s" % (names, want, bad))
    c.nontrivial()
    rc, out, err, t = go(c, bdir, "block", names)
    if bad:
        c.label("with a fault")
        return c.check(rc != 0, "block: exit status 0 although %s" % bad)
    c.check(rc == 0, lambda: "block: exit status %d: %s" % (rc, err[:800]))
    t = re.split(r"[,\n]\s*", out.split("\n", 1)[1].strip().rstrip(","))
    t = [x for x in re.split(r"[,\s]+", out.split("\n", 1)[1]) if x]
    c.check(len(t) == 10 * len(want), lambda: "%d numbers for %d matrices:\n%s" % (len(t), len(want), out[-1000:]))
    for i, (size, n, ratio, R, C) in enumerate(want):
        w = t[10 * i:10 * i + 10]
        c.check((int(w[0]), int(w[1])) == (size, n) and abs(float(w[2]) - ratio) < 1e-5 * (1 + ratio), "%r reported, expected %d, %d, %f" % (w[:3], size, n, ratio))
        c.check(all(0 <= float(x) < 60 for x in w[3:]), "times %r" % w[3:])


def body(c, bdir):
    shutil.rmtree("d", ignore_errors=True)
    os.mkdir("d")
    os.chdir("d")
    try:
        c.pick([simple, simple, blocked, blocked, blocked, compare, compare, permuted, listing])(c, bdir)
    finally:
        os.chdir("..")


if __name__ == "__main__":
    pbt.main(body)
