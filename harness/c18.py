"""C18: the index and vector file tools transform exactly what they say."""
import os
import shutil
import struct
import sys
from array import array
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt

U32 = 2 ** 32


def u32s(l):
    a = array("I", l)
    assert a.itemsize == 4
    return a.tobytes()


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def count(c, big=20000):
    k = c.draw(9)
    if k == 0:
        return c.draw(3)
    if k < 4:
        return c.draw(20)
    if k < 7:
        return c.draw(700)
    if k == 8:                                    # around whole buffers
        return (1 << c.draw(14)) * (1 + c.draw(3)) + c.draw(3) - 1
    return c.draw(big)


NAMES = ["a", "rows", "x.bin", "with space", "percent%s%n%d", "dot.", "-x", "sub/dir/f", "n" * 180, "ABS"]


def names(c, n):
    """n different file names"""
    out = []
    for i in range(n):
        s = NAMES[c.draw(len(NAMES)) if c.draw(3) == 2 else i]
        if s == "ABS":
            s = os.path.join(os.getcwd(), "abs")
        s = (s if not s.startswith("-") else "./" + s) + (str(i) if c.draw(2) else "_%d" % i)
        if "/" in s and not s.startswith(("/", ".")):
            os.makedirs("sub/dir", exist_ok=True)
        out.append(s)
    return out


def unwritable(c, path):
    """Makes sure that path cannot be written; returns a limit for the size of files or None"""
    k = c.draw(3)
    if k == 0:
        os.mkdir(path)
        return None, "a directory is in the way"
    os.symlink("/dev/full", path)
    return None, "the device is full"


def exe(c, bdir, name):
    v = c.pick(["plain", "plain", "asan"])
    c.label(v)
    return os.path.join(bdir, name + "." + v)


def indices(c, n, lim):
    g = c.bulk()
    k = c.draw(5)
    if k == 0:
        return [lim - 1] * n
    if k == 1:
        return [i % lim for i in range(n)]
    return [g.randrange(lim) for _ in range(n)]


def permute(c, bdir):
    inverse = c.draw(2) == 1
    tool = "ipermute" if inverse else "permute"
    np_ = 1 + count(c)
    perm = list(range(np_))
    k = c.draw(5)
    if k == 1:
        perm.reverse()
    elif k == 2:
        s = c.draw(np_)
        perm = perm[s:] + perm[:s]
    elif k > 2:
        c.bulk().shuffle(perm)
    rows, cols = indices(c, count(c), np_), indices(c, count(c), np_)
    rn, cn, pn = names(c, 3)
    same = c.draw(12) == 11
    if same:
        cn, cols = rn, rows
    files = {rn: u32s(rows), cn: u32s(cols), pn: u32s(perm)}
    args, want, limit = [rn, cn, pn], 0, None
    fault = c.draw(9)
    what = ""
    must = False
    if fault == 0:
        gone = c.pick(args)
        what, must = "missing " + gone, True
        del files[gone]
    elif fault == 1:
        what, must = "wrong number of arguments", True
        args = c.pick([[], [rn], [rn, cn], [rn, cn, pn, pn]])
    elif fault == 2 and (rows or cols):
        name, l = (rn, rows) if rows and (not cols or c.draw(2)) else (cn, cols)
        l = list(l)
        l[c.draw(len(l))] = c.pick([np_, np_, U32 - 1, min(U32 - 1, np_ + c.draw(100000))])
        files[name] = u32s(l)
        what, must = "an index beyond the permutation", True
    elif fault == 3 and inverse:
        p = list(perm)
        p[c.draw(len(p))] = c.pick([np_, U32 - 1, np_ + c.draw(100000)])
        files[pn] = u32s(p)
        what, must = "not a permutation", True
    stale = not what and fault != 4 and c.draw(6) == 5
    for f, data in files.items():
        write(f, data)
        if stale:
            write(f + ".permuted", b"old" * c.draw(50000))
    if fault == 4 and rows and cols:
        limit, what = unwritable(c, c.pick([rn, cn]) + ".permuted")
        must = True
    c.label(tool + (": " + (what if not what.startswith("missing") else "missing file") if what else ""))
    c.desc("%s %s: permutation of %d (%s), %d rows, %d columns; %s" % (tool, args, np_, perm[:8], len(rows), len(cols), what))
    rc, out, err = pbt.run([exe(c, bdir, tool)] + args, env={"OMP_NUM_THREADS": str(c.pick([1, 2, 4, 7]))}, fsize=limit)
    for f, data in files.items():
        c.check(read(f) == data, "%s changed its input %s" % (tool, f))
    if must:
        c.nontrivial()
        c.check(rc != 0, "%s: exit status 0 although %s" % (tool, what))
        return
    c.check(rc == 0, lambda: "%s: exit status %d: %s" % (tool, rc, err[:500]))
    m = perm
    if inverse:
        m = [0] * np_
        for i, p in enumerate(perm):
            m[p] = i
    if rows or cols:
        c.nontrivial()
    for f, l in ((rn, rows), (cn, cols)):
        have = array("I", b"")
        data = read(f + ".permuted")
        c.check(len(data) == 4 * len(l), "%s: %d bytes in %s.permuted, expected %d" % (tool, len(data), f, 4 * len(l)))
        have.frombytes(data)
        for i, v in enumerate(l):
            if have[i] != m[v]:
                pbt.fail("%s: index %d of %s was %d and became %d, expected %d" % (tool, i, f, v, have[i], m[v]))


def one2zero(c, bdir):
    n = 1 + c.draw(4)
    fs = names(c, n)
    data = []
    zero = None
    g = c.bulk()
    for f in fs:
        k = count(c, 60000)
        kind = c.draw(4)
        data.append([1 + i % (U32 - 1) for i in range(k)] if kind == 0 else [1 + g.randrange(U32 - 1) for _ in range(k)] if kind == 1 else
                    [1 + g.randrange(1 << g.randrange(1, 33)) % (U32 - 1) for _ in range(k)])
    fault = c.draw(7)
    what, miss, full = "", None, None
    if fault == 0:
        zero = c.draw(n)
        if not data[zero]:
            data[zero] = [5]
        data[zero][c.pick([0, len(data[zero]) - 1, c.draw(len(data[zero]))])] = 0
        what = "an index is zero"
    elif fault == 1:
        miss = c.draw(n)
        what = "a file is missing"
    elif fault == 2:
        full = c.draw(n)
        if not data[full]:
            data[full] = [7, 8]
        what = "cannot write"
    for i, f in enumerate(fs):
        if i != miss:
            write(f, u32s(data[i]))
        if c.draw(6) == 5 and not what:
            write(f + ".zero", b"old" * c.draw(50000))
    if full is not None:
        unwritable(c, fs[full] + ".zero")
    c.label("one2zero" + (": " + what if what else ""))
    c.desc("one2zero %s: %s indices; %s" % (fs, [len(d) for d in data], what))
    rc, out, err = pbt.run([exe(c, bdir, "one2zero")] + fs)
    for i, f in enumerate(fs):
        if i != miss:
            c.check(read(f) == u32s(data[i]), "one2zero changed its input")
    stop = n
    if any(data):
        c.nontrivial()
    if what:
        c.check(rc != 0, "one2zero: exit status 0 although %s" % what)
        stop = [x for x in (zero, miss, full) if x is not None][0]
        if zero is not None:
            c.check(not os.path.exists(fs[zero] + ".zero"), "one2zero wrote an output for a file that is not one-indexed")
    else:
        c.check(rc == 0, lambda: "one2zero: exit status %d: %s" % (rc, err[:500]))
    for i in range(stop):
        if what and not os.path.exists(fs[i] + ".zero"):
            continue                                  # what else is done then is not specified
        have = read(fs[i] + ".zero")
        if have != u32s([v - 1 for v in data[i]]):
            c.check(len(have) == 4 * len(data[i]), "one2zero: %d bytes, expected %d" % (len(have), 4 * len(data[i])))
            a = array("I", b"")
            a.frombytes(have)
            j = [a[k] != data[i][k] - 1 for k in range(len(a))].index(True)
            pbt.fail("one2zero: index %d was %d and became %d" % (j, data[i][j], a[j]))


def to_float(bits):
    """Bits of the float nearest to the double with these bits (ties to even); None: not a number"""
    sign, e, m = bits >> 63, bits >> 52 & 0x7ff, bits & ((1 << 52) - 1)
    if e == 0x7ff:
        return None if m else sign << 31 | 0x7f800000
    num = m | (1 << 52 if e else 0)                   # value: num * 2^(x)
    x = (e or 1) - 1075
    if num == 0:
        return sign << 31
    top = num.bit_length() - 1 + x                    # exponent of the leading bit
    q = max(top - 23, -149)                           # of the last bit that is kept
    s = q - x
    if s <= 0:
        k = num << -s
    else:
        k, rest = num >> s, num & ((1 << s) - 1)
        half = 1 << (s - 1)
        if rest > half or rest == half and k & 1:
            k += 1
    # k * 2^q
    if k.bit_length() > 24:
        k >>= 1
        q += 1
    if k.bit_length() == 24:
        ex = q + 23 + 127
        if ex >= 255:
            return sign << 31 | 0x7f800000
        return sign << 31 | ex << 23 | (k & 0x7fffff)
    return sign << 31 | k                             # subnormal (q is -149)


def double_bits(g):
    k = g.randrange(8)
    if k == 0:
        return g.getrandbits(64)
    f = struct.unpack("<I", struct.pack("<f", 0))[0]
    if k == 1:                                         # exactly half way between two floats, or next to that
        e = g.randrange(897, 1151)
        b = g.getrandbits(1) << 63 | e << 52 | g.getrandbits(23) << 29 | 1 << 28
        return b + g.randrange(-1, 2)
    if k == 2:                                         # around the largest float
        return g.getrandbits(1) << 63 | 0x47efffffe0000000 + g.randrange(-3, 1 << g.randrange(2, 31))
    if k == 3:                                         # around and below the smallest ones
        return g.getrandbits(1) << 63 | g.randrange(860, 900) << 52 | g.choice([0, 1, 1 << 51, (1 << 52) - 1, g.getrandbits(52)])
    if k == 4:
        return g.choice([0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, (1 << 63) | 1, 0x7fefffffffffffff])
    return struct.unpack("<Q", struct.pack("<d", g.choice([g.uniform(-10, 10), float(g.randrange(-100000, 100000)), g.randrange(-50, 50) / 4.0, g.gauss(0, 1e30)])))[0]


def double2float(c, bdir):
    n = 1 + c.draw(4)
    fs = names(c, n)
    g = c.bulk()
    data = [[double_bits(g) for _ in range(count(c, 9000))] for _ in fs]
    fault = c.draw(6)
    what, bad = "", None
    if fault < 2:
        bad = c.draw(n)
        what = ["a file is missing", "cannot write"][fault]
        if fault == 0 and c.draw(3) == 2:
            what = "a file cannot be read"
            os.makedirs(fs[bad])
        if fault == 1 and not data[bad]:
            data[bad] = [0]
    for i, f in enumerate(fs):
        if not (fault == 0 and i == bad):
            write(f, array("Q", data[i]).tobytes())
        if c.draw(6) == 5 and not what:
            write(f + ".float", b"old" * c.draw(50000))
    if fault == 1:
        unwritable(c, fs[bad] + ".float")
    c.label("double2float" + (": " + what if what else ""))
    c.desc("double2float %s: %s values; %s" % (fs, [len(d) for d in data], what))
    rc, out, err = pbt.run([exe(c, bdir, "double2float")] + fs)
    for i, f in enumerate(fs):
        if not (fault == 0 and i == bad):
            c.check(read(f) == array("Q", data[i]).tobytes(), "double2float changed its input")
    if any(data):
        c.nontrivial()
    if what:
        c.check(rc != 0, "double2float: exit status 0 although %s" % what)
    else:
        c.check(rc == 0, lambda: "double2float: exit status %d: %s" % (rc, err[:500]))
    for i in range(n if bad is None else bad):
        if what and not os.path.exists(fs[i] + ".float"):
            continue
        have = array("I", b"")
        b = read(fs[i] + ".float")
        c.check(len(b) == 4 * len(data[i]), "double2float: %d bytes, expected %d" % (len(b), 4 * len(data[i])))
        have.frombytes(b)
        for j, d in enumerate(data[i]):
            w = to_float(d)
            ok = have[j] == w if w is not None else have[j] & 0x7f800000 == 0x7f800000 and have[j] & 0x7fffff
            if not ok:
                pbt.fail("double2float: value %d, %016x, became %08x, expected %s" % (j, d, have[j], "%08x" % w if w is not None else "NaN"))


def float_bits(g):
    while True:
        k = g.randrange(4)
        b = g.getrandbits(32) if k == 0 else struct.unpack("<I", struct.pack("<f", g.choice([g.uniform(-9, 9), g.randrange(-1000, 1000), g.gauss(0, 1e6), g.gauss(0, 1e-6)])))[0]
        if b & 0x7f800000 != 0x7f800000 or k == 0 and not b & 0x7fffff:
            return b


def pprint(c, bdir):
    mode = c.pick(["triples", "blocks", "vector", None])
    name = names(c, 1)[0]
    g = c.bulk()
    n = count(c, 6000)

    def u():
        return g.randrange(1 << g.randrange(1, 33)) if g.randrange(4) else g.choice([0, U32 - 1, 1 << 31])

    args = [name] + ([mode] if mode else [])
    fault = c.draw(8)
    idx = [[u() for _ in range(n)] for _ in range(3)]
    val = [float_bits(g) for _ in range(n)]
    val_f = [struct.unpack("<f", struct.pack("<I", v))[0] for v in val]
    R, C = u(), u()
    if mode == "triples":
        data = u32s([R, C, n] + idx[0] + idx[1] + val)
    elif mode == "vector":
        data = u32s(idx[0])
    else:
        data = u32s([R, C, n, u(), u(), u()]) + b"".join(u32s(t) for t in zip(idx[0], idx[1], idx[2], val))
    what = ""
    if fault == 0:
        what = "missing file"
        args[0] = "no" + os.path.basename(name)
        if c.draw(3) == 2:
            what = "unreadable file"
            os.makedirs(args[0])
    elif fault == 1:
        what = "no arguments"
        args = []
    elif fault == 2 and mode != "vector":
        what = "file cut short"
        keep = c.draw(len(data))
        data = data[:keep]
    write(name, data)
    c.label("pprint " + (what or mode or "default"))
    c.desc("pprint %s: %d entries; %s" % (args, n, what))
    rc, out, err = pbt.run([exe(c, bdir, "pprint")] + args)
    c.check(read(name) == data, "pprint changed its input")
    if n:
        c.nontrivial()
    if what:
        c.check(rc != 0, "pprint: exit status 0 although %s" % what)
        return
    c.check(rc == 0, lambda: "pprint: exit status %d: %s" % (rc, err[:500]))
    lines = out.decode("ascii").split("\n")
    c.check(lines and lines[-1] == "", "pprint: the last line is incomplete")
    lines.pop()
    if mode is None:
        lines = [l for l in lines if not l.startswith("Assuming")]
    if mode == "triples":
        head = [int(t) for t in lines[0].replace(",", " ").split() if t.isdigit()]
        c.check(head == [R, C, n], "pprint: says %r, the file %r" % (lines[0], (R, C, n)))
        rest = [l.strip() for l in lines[1:] if not l.startswith("---")]
        want = ["%d" % v for v in idx[0] + idx[1]] + ["%f" % v for v in val_f]
    elif mode == "vector":
        rest, want = [l.strip() for l in lines], ["%d" % v for v in idx[0]]
    else:
        rest, want = [" ".join(l.split()) for l in lines], ["%d %d %d %e" % t for t in zip(idx[0], idx[1], idx[2], val_f)]
    c.check(len(rest) == len(want), "pprint: %d lines of values, expected %d" % (len(rest), len(want)))
    for i, w in enumerate(want):
        if rest[i] != w:
            pbt.fail("pprint %s: value %d is shown as %r, expected %r" % (mode, i, rest[i], w))


def body(c, bdir):
    shutil.rmtree("d", ignore_errors=True)
    os.mkdir("d")
    os.chdir("d")
    try:
        c.pick([permute, permute, one2zero, double2float, pprint])(c, bdir)
    finally:
        os.chdir("..")


pbt.main(body)
