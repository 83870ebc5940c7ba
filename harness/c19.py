"""C19: the matrix file tools keep the matrix and order it as documented."""
import os
import shutil
import struct
import subprocess
import sys
from array import array

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from mats import *


def exe(c, bdir, name):
    v = c.pick(["plain", "plain", "asan"])
    c.label(v)
    return os.path.join(bdir, name + "." + v)


def names(c, n):
    l = ["rows", "cols", "vals", "x.bin", "with space", "percent%s%n", "a"]
    s = c.draw(len(l)) if c.draw(3) == 2 else 0
    return [l[(i + s) % len(l)] + ("%d" % i if i + s >= len(l) else "") for i in range(n)]


def unwritable(c, path):
    if os.path.lexists(path):
        os.unlink(path)
    if c.draw(2):
        os.symlink("/dev/full", path)
        return "%s: the device is full" % path
    os.mkdir(path)
    return "%s cannot be created" % path


def same(c, what, have, want, key, blocks=None):
    """have: the entries of want, ordered by key"""
    c.check(len(have) == len(want), "%s: %d entries, expected %d" % (what, len(have), len(want)))
    ks = [key(e) for e in have]
    for i in range(1, len(ks)):
        if ks[i] < ks[i - 1]:
            pbt.fail("%s: entry %d, %r, is out of order after %r" % (what, i, have[i], have[i - 1]))
    a, b = sorted(have), sorted(want)
    if a != b:
        i = [x != y for x, y in zip(a, b)].index(True)
        pbt.fail("%s: entries differ, such as %r instead of %r" % (what, a[i], b[i]))


def row_major(e):
    return e[0], e[1]


def col_major(e):
    return e[1], e[0]


def dims(c, what, have, want, empty_ok=False):
    if have != want and not (empty_ok and all(h in (0, 1) for h in have)):
        pbt.fail("%s: dimensions %r, expected %r" % (what, have, want))


def try_parse(what, f, *a):
    try:
        return f(*a)
    except (Bad, ValueError, struct.error, UnicodeDecodeError, IndexError) as e:
        pbt.fail("%s cannot be understood: %s" % (what, e))


def output(what, path):
    if not os.path.isfile(path):
        pbt.fail("%s was not written (there are %s)" % (path, sorted(os.listdir("."))))
    return read(path)


def reader(c, bdir, args, nbytes):
    rc, out, err = pbt.run([os.path.join(bdir, "reader.asan")] + args)
    c.check(rc == 0, lambda: "the library's reader refuses %s: status %d, %s" % (args, rc, err[:300]))
    if nbytes == 0:
        return struct.unpack("<4I", out)
    r, k, n = struct.unpack_from("<3I", out)
    return r, k, list(struct.iter_unpack("<IIQ" if nbytes == 8 else "<III", out[12:]))


def three(names_, e, vb=4):
    write(names_[0], u32s([x[0] for x in e]))
    write(names_[1], u32s([x[1] for x in e]))
    write(names_[2], array("I" if vb == 4 else "Q", [x[2] for x in e]).tobytes())


def damage(c, ns, e, vb):
    """Makes the three files disagree, or one of them missing"""
    i = c.draw(3)
    f = ns[i]
    if c.draw(2) or not e:
        os.unlink(f)
        return "%s is missing" % f
    d = read(f)
    w = vb if i == 2 else 4
    if c.draw(2):
        write(f, d[:w * c.draw(len(e))])
    else:
        write(f, d + b"\1" * w * (1 + c.draw(3)))
    return "%s has another length" % f


def finish(c, tool, what, bad, rc, err, inputs):
    for f, d in inputs.items():
        if os.path.exists(f):
            c.check(read(f) == d, "%s changed its input %s" % (tool, f))
    if bad:
        c.check(rc != 0, "%s: exit status 0 although %s" % (tool, bad))
        return False
    c.check(rc == 0, lambda: "%s: exit status %d: %s" % (tool, rc, err[:500]))
    return True


def snapshot(fs):
    return {f: read(f) for f in fs if os.path.isfile(f)}


THREADS = [1, 2, 4, 7]


def convert(c, bdir):
    mode = c.pick(["bin", "mtx", "all"])
    huge = 0xfffffffe if mode == "bin" else 0x7ffffffe
    n = gen_count(c)
    R, C = gen_dim(c, huge), gen_dim(c, huge)
    pos = gen_positions(c, R, C, n)
    e = [(r, k, v) for (r, k), v in zip(pos, values32(c, n, finite=mode != "bin"))]
    ns = names(c, 3)
    three(ns, e)
    out = c.pick(["out", "o.x", "dir/o"])
    if "/" in out:
        os.mkdir("dir")
    args, bad = ns + [out, mode], ""
    fault = c.draw(8)
    if fault == 0:
        bad = damage(c, ns, e, 4)
    elif fault == 1:
        args, bad = c.pick([(args[:-1], "an argument is missing"), (args[:-1] + [c.pick(["BIN", "binary", "", "both", "mt", "mtxx"])], "the option is unknown"),
                            ([], "there are no arguments"), (args + ["x"], "there are too many arguments")])
    elif fault == 2:
        bad = unwritable(c, out + (".bin" if mode == "bin" else ".mtx" if mode == "mtx" else c.pick([".bin", ".mtx"])))
    inputs = snapshot(ns)
    c.label("convert " + mode + (", with a fault" if bad else ""))
    c.desc("convert %s: %dx%d, %d entries %s; %s" % (args, R, C, n, e[:4], bad))
    if n or bad:
        c.nontrivial()
    rc, o, err = pbt.run([exe(c, bdir, "convert")] + args, env={"OMP_NUM_THREADS": str(c.pick(THREADS))})
    if not finish(c, "convert", "", bad, rc, err, inputs):
        return
    want = (max([x[0] for x in e] or [0]) + 1, max([x[1] for x in e] or [0]) + 1)
    if mode != "mtx":
        r, k, have = try_parse("output", parse_bin, output("convert", out + ".bin"))
        dims(c, "convert bin", (r, k), want, not e)
        same(c, "convert bin", have, e, col_major)
        if c.draw(4) == 3:
            c.check(reader(c, bdir, ["float", out + ".bin"], 4) == (r, k, have), "the library reads another matrix from the .bin file")
    if mode != "bin":
        r, k, have = try_parse("output", parse_mtx, output("convert", out + ".mtx"), lambda x: bits32(x) if abs(x) < 3.4028235677973366e38 else -1)
        dims(c, "convert mtx", (r, k), want, not e)
        same(c, "convert mtx", have, e, col_major)
        if c.draw(4) == 3:
            c.check(reader(c, bdir, ["float", out + ".mtx"], 4) == (r, k, have), "the library reads another matrix from the .mtx file")


def sort(c, bdir):
    mtx = c.draw(2) == 1
    blocks = c.draw(2) == 1
    bad = ""
    if mtx:
        text, R, C, e = gen_mtx(c)
        e = [(r, k, bits64(v)) for r, k, v in e]
        ns = [c.pick(["m.mtx", "m", "with space.mtx"])]
        write(ns[0], text)
        want = (R, C)
    else:
        n = gen_count(c)
        R, C = gen_dim(c, 0 if blocks else 0xfffffffe), gen_dim(c, 0 if blocks else 0xfffffffe)
        pos = gen_positions(c, R, C, n)
        e = [(r, k, v) for (r, k), v in zip(pos, values64(c, n, finite=False))]
        ns = names(c, 3)
        three(ns, e, 8)
    args = list(ns)
    if blocks:
        sizes = gen_sizes(c, max(R, C))
        write("sizes", u32s(sizes))
        args.append("sizes")
        b = block_of(sizes)
    fault = c.draw(7)
    if fault == 0:
        if mtx:
            if c.draw(2):
                os.unlink(ns[0])
                bad = "the file is missing"
            else:
                write(ns[0], text[:text.index("\n") + c.draw(3)])
                bad = "the file is cut short"
        elif blocks and c.draw(3) == 2:
            os.unlink("sizes")
            bad = "the block sizes are missing"
        else:
            bad = damage(c, ns, e, 8)
    elif fault == 1:
        args, bad = c.pick([([], "there are no arguments"), ((ns * 5)[:5], "there are too many arguments")])
    elif fault == 2:
        bad = unwritable(c, c.pick(ns) + ".sorted")
        if not e and not mtx and "full" in bad:
            bad = ""                                   # nothing to write
            for f in ns:
                if os.path.islink(f + ".sorted"):
                    os.unlink(f + ".sorted")
    elif fault == 3 and blocks and e:
        sizes = outside(c, sizes, e, max(R, C))
        write("sizes", u32s(sizes))
        bad = "an entry is outside the blocks"
    inputs = snapshot(args)
    c.label("sort%s%s%s" % (" mtx" if mtx else "", " by blocks" if blocks else "", ", with a fault" if bad else ""))
    c.desc("sort %s: %dx%d, %d entries %s%s; %s" % (args, R, C, len(e), e[:4], ", block sizes %s" % sizes[:8] if blocks else "", bad))
    if e or bad:
        c.nontrivial()
    rc, o, err = pbt.run([exe(c, bdir, "sort")] + args, env={"OMP_NUM_THREADS": str(c.pick(THREADS))})
    if not finish(c, "sort", "", bad, rc, err, inputs):
        return
    if mtx:
        r, k, have = try_parse("output", parse_mtx, output("sort", ns[0] + ".sorted"), bits64)
        dims(c, "sort", (r, k), want)
        if c.draw(4) == 3:
            c.check(reader(c, bdir, ["double", ns[0] + ".sorted"], 8) == (r, k, have), "the library reads another matrix from the sorted file")
    else:
        d = [output("sort", f + ".sorted") for f in ns]
        c.check([len(x) for x in d] == [4 * len(e), 4 * len(e), 8 * len(e)], "sort: outputs of %s bytes for %d entries" % ([len(x) for x in d], len(e)))
        a = [array("I"), array("I"), array("Q")]
        for x, y in zip(a, d):
            x.frombytes(y)
        have = list(zip(*a))
        if c.draw(4) == 3 and have:
            c.check(reader(c, bdir, ["three"] + [f + ".sorted" for f in ns], 8)[2] == have, "the library reads another matrix from the sorted files")
    same(c, "sort", have, e, (lambda x: (b(x[0]), b(x[1]))) if blocks else row_major)


def blocked_case(c):
    """A matrix in three files and block sizes that cover it"""
    n = gen_count(c)
    D = gen_dim(c, 2000000)
    sizes = gen_sizes(c, D)
    while len(sizes) * pow2(max(sizes)) >= U32:
        sizes = [D]
    pos = gen_positions(c, D, D, n)
    return D, sizes, [(r, k, v) for (r, k), v in zip(pos, values32(c, n, finite=False))]


def pow2(x):
    p = 1
    while p < x:
        p *= 2
    return p


def outside(c, sizes, e, D):
    """Drops blocks from the end, so that something is outside"""
    far = max(max(x[0], x[1]) for x in e)
    b = block_of(sizes)(far)
    if b == 0 or c.draw(3) == 0:
        return []
    return sizes[:c.draw(b) + 1] if c.draw(2) else sizes[:b]


def check_blocked(c, what, bdir, path, D, sizes, e):
    h, have, blocks = try_parse(path, parse_blocked, output(what, path))
    nb, b = len(sizes), block_of(sizes)
    ids = [b(x[0]) * nb + b(x[1]) for x in have]
    c.check(h[:5] == (D, D, len(e), nb, nb), "%s: sizes %r, expected %r" % (what, h[:5], (D, D, len(e), nb, nb)))
    c.check(h[5] == len(set(ids)), "%s: %d non-empty blocks, expected %d" % (what, h[5], len(set(ids))))
    for i in range(len(ids)):
        if ids[i] != blocks[i]:
            pbt.fail("%s: entry %d, %r, is in block %d, not %d" % (what, i, have[i], ids[i], blocks[i]))
    same(c, what, have, e, lambda x: (b(x[0]) * nb + b(x[1]), x[0], x[1]))
    if c.draw(4) == 3 and e:
        write("sizes.all", u32s(sizes))
        r = reader(c, bdir, ["blocked", path, "sizes.all"], 0)
        c.check(r == (D, D, len(e), h[5]), "the library reads another matrix, %r, from the blocked file" % (r,))


def expand(sizes, e):
    N, b = pow2(max(sizes)), block_of(sizes)
    off = [0]
    for s in sizes:
        off.append(off[-1] + s)

    def f(i):
        k = b(i)
        return k * N + i - off[k]
    return N, [(f(x[0]), f(x[1]), x[2]) for x in e]


def with_blocks(c, bdir):
    tool = c.pick(["convert_blocked", "expanded"])
    D, sizes, e = blocked_case(c)
    ns = names(c, 3)
    three(ns, e)
    given = sizes
    bad = ""
    fault = c.draw(8)
    if fault == 0:
        bad = damage(c, ns, e, 4)
    elif fault == 1 and e:
        given = outside(c, sizes, e, D)
        bad = "an entry is outside the blocks"
    if not (fault == 2 and c.draw(2)):
        write("sizes", u32s(given))
    else:
        bad = "the block sizes are missing"
    N, x = expand(sizes, e)
    out = c.pick(["out", "o.x"])
    args = ns + ["sizes", out]
    final = out if tool == "convert_blocked" else "%s.exp%d" % (out, N)
    if fault == 3:
        args, bad = args[:c.draw(5)], "an argument is missing"
    elif fault == 4:
        bad = unwritable(c, final)
    inputs = snapshot(args)
    c.label(tool + (", with a fault" if bad else ""))
    c.desc("%s %s: %dx%d, %d entries %s, block sizes %s (%d); %s" % (tool, args, D, D, len(e), e[:4], given[:8], len(given), bad))
    if e or bad:
        c.nontrivial()
    rc, o, err = pbt.run([exe(c, bdir, tool)] + args, env={"OMP_NUM_THREADS": str(c.pick(THREADS))})
    if not finish(c, tool, "", bad, rc, err, inputs):
        return
    if tool == "convert_blocked":
        check_blocked(c, tool, bdir, out, D, sizes, e)
    else:
        check_bin(c, tool, bdir, final, (N * len(sizes),) * 2, x, col_major)


def check_bin(c, what, bdir, path, d, e, key):
    r, k, have = try_parse(path, parse_bin, output(what, path))
    dims(c, what, (r, k), d)
    same(c, what, have, e, key)
    if c.draw(6) == 5:
        c.check(reader(c, bdir, ["float", "./" + path if not path.endswith(".bin") else path], 4)[2] == have if path.endswith(".bin") else True,
                "the library reads another matrix from %s" % path)


def prepare(c, bdir):
    """One run, or several at the same time"""
    k = 1 + (c.draw(4) == 3) * (1 + c.draw(2))
    jobs = []
    bad = ""
    for i in range(k):
        d = "run%d" % i
        os.mkdir(d)
        D, sizes, e = blocked_case(c)
        if D > 20000:                                  # a permutation of everything would be slow to make
            D = 20000
            sizes = gen_sizes(c, D)
            e = [(a % D, b % D, v) for a, b, v in e]
        P = c.pick([D, D, D, D + 1 + c.draw(50), max(1, D - 1 - c.draw(9))])
        perm = list(range(P))
        if c.draw(4):
            c.bulk().shuffle(perm)
        e = [x for x in e if x[0] < P and x[1] < P and perm[x[0]] < D and perm[x[1]] < D]
        ns = [os.path.join(d, x) for x in names(c, 3)]
        three(ns, e)
        write(d + "/perm", u32s(perm))
        write(d + "/sizes", u32s(sizes))
        args = ns + [d + "/perm", d + "/sizes", d + "/out"]
        pe = [(perm[a], perm[b], v) for a, b, v in e]
        N, x = expand(sizes, pe)
        jobs.append((args, D, sizes, pe, N, x))
        fault = c.draw(8)
        if k > 1 or bad:
            continue
        if fault == 0:
            bad = damage(c, ns, e, 4)
        elif fault == 1 and e:
            far = max(max(a, b) for a, b, v in e)
            write(d + "/perm", u32s(perm[:c.draw(far + 1)]))
            bad = "an index is beyond the permutation"
        elif fault == 2 and e:
            write(d + "/sizes", u32s(outside(c, sizes, pe, D)))
            bad = "an entry is outside the blocks"
        elif fault == 3:
            f = c.pick(["/perm", "/sizes"])
            os.unlink(d + f)
            bad = f + " is missing"
        elif fault == 4:
            bad = unwritable(c, d + c.pick(["/out.row", "/out.block", "/out.col", "/out.col.exp%d" % N]))
        elif fault == 5 and c.draw(2):
            args[:] = args[:c.draw(6)]
            bad = "an argument is missing"
    c.label("prepare" + (", several at once" if k > 1 else "") + (", with a fault" if bad else ""))
    for args, D, sizes, pe, N, x in jobs:
        c.desc("prepare %s: %dx%d, %d entries (permuted) %s, block sizes %s (%d); " % (args, D, D, len(pe), pe[:4], sizes[:8], len(sizes)))
    c.desc(bad)
    if bad or any(j[3] for j in jobs):
        c.nontrivial()
    p = exe(c, bdir, "prepare")
    env = {"OMP_NUM_THREADS": str(c.pick(THREADS))}
    inputs = snapshot([f for j in jobs for f in j[0]])
    ps = [subprocess.Popen([p] + j[0], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, **env))
          for j in jobs[1:]]
    rc, o, err = pbt.run([p] + jobs[0][0], env=env)
    rcs = [rc] + [q.wait() for q in ps]
    for j, rc in zip(jobs, rcs):
        if not finish(c, "prepare", "", bad, rc, err, inputs):
            return
        args, D, sizes, pe, N, x = j
        out = args[5]
        check_bin(c, "prepare .row", bdir, out + ".row", (D, D), pe, row_major)
        check_blocked(c, "prepare .block", bdir, out + ".block", D, sizes, pe)
        check_bin(c, "prepare .col", bdir, out + ".col", (D, D), pe, col_major)
        check_bin(c, "prepare .col.exp", bdir, "%s.col.exp%d" % (out, N), (N * len(sizes),) * 2, x, col_major)


def body(c, bdir):
    shutil.rmtree("d", ignore_errors=True)
    os.mkdir("d")
    os.chdir("d")
    try:
        c.pick([convert, sort, sort, with_blocks, with_blocks, prepare])(c, bdir)
    finally:
        os.chdir("..")


pbt.main(body)
