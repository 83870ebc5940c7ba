"""Matrices and their files for the harnesses that drive programs."""
import math
import os
import struct
from array import array

U32 = 2 ** 32


def u32s(l):
    return array("I", l).tobytes()


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def bits32(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def bits64(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def from32(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def from64(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def write(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("latin1"))


def read(path):
    with open(path, "rb") as f:
        return f.read()


def gen_count(c, big=5000):
    if big and c.draw(200) == 199:               # more than 16 bits count
        c.label("60000+ entries")
        return 60000 + c.draw(20000)
    k = c.draw(11)
    if k < 2:
        return c.draw(4)
    if k < 6:
        return c.draw(20)
    if k < 9:
        return c.draw(600)
    if k == 10:                                   # around whole buffers
        return max(0, (1 << c.draw(13)) * (1 + c.draw(3)) + c.draw(3) - 1)
    return c.draw(big)


def gen_dim(c, huge=0):
    k = c.draw(9 if huge else 8)
    if k == 0:
        return 1 + c.draw(4)
    if k < 4:
        return 1 + c.draw(20)
    if k < 7:
        return 1 + c.draw(300)
    if k == 7:
        return 1 + c.draw(5000)
    return 1 + c.draw(huge)


def gen_positions(c, rows, cols, n):
    """n positions, in an order that may be sorted or not"""
    g = c.bulk()
    shape = c.draw(7)
    if shape == 0:
        e = [(g.randrange(rows), g.randrange(cols)) for _ in range(n)]
    elif shape == 1:
        e = [(i % rows, i % cols) for i in range(n)]
    elif shape == 2:
        r = g.randrange(rows)
        e = [(r, g.randrange(cols)) for _ in range(n)]
    elif shape == 3:
        k = g.randrange(cols)
        e = [(g.randrange(rows), k) for _ in range(n)]
    elif shape == 4:
        p = [(g.randrange(rows), g.randrange(cols)) for _ in range(1 + n // 3)]
        e = [g.choice(p) for _ in range(n)]
    elif shape == 5:
        e = [(rows - 1 - g.randrange(min(rows, 8)), cols - 1 - g.randrange(min(cols, 8))) for _ in range(n)]
    else:
        r0, c0 = g.randrange(rows), g.randrange(cols)
        e = [(min(rows - 1, r0 + g.randrange(40)), min(cols - 1, c0 + g.randrange(40))) for _ in range(n)]
    o = c.draw(5)
    if o == 1:
        e.sort()
    elif o == 2:
        e.sort(key=lambda p: (p[1], p[0]))
    elif o == 3:
        e.sort(reverse=True)
    return e


def gen_sizes(c, n, max_blocks=3000):
    """Positive sizes that add up to n"""
    k = c.draw(6)
    if k == 0 or n == 1:
        return [n]
    if k == 1:
        s = max(1 + c.draw(n), -(-n // max_blocks))
        return [s] * (n // s) + ([n % s] if n % s else [])
    if k == 2 and n <= max_blocks:
        return [1] * n
    g = c.bulk()
    m = c.draw(8) if k == 3 else c.draw(min(n, max_blocks))
    cuts = sorted({1 + g.randrange(n - 1) for _ in range(m)}) + [n]
    s = [b - a for a, b in zip([0] + cuts, cuts)]
    if c.draw(3) == 2:                                 # blocks of size zero
        for _ in range(1 + c.draw(3)):
            if len(s) < min(n, max_blocks):            # more blocks than rows are refused
                s.insert(g.randrange(len(s) + 1), 0)
    return s


def block_of(sizes):
    import bisect
    ends = []
    t = 0
    for s in sizes:
        t += s
        ends.append(t)
    return lambda i: bisect.bisect_right(ends, i)


def values32(c, n, finite=True):
    """Bit patterns"""
    g = c.bulk()
    kind = c.draw(3)
    out = []
    while len(out) < n:
        b = g.getrandbits(32) if kind == 0 else bits32(g.randrange(-64, 65) / 4.0) if kind == 1 else bits32(g.uniform(-3, 3) * 10 ** g.randrange(-20, 20))
        if not finite or b & 0x7f800000 != 0x7f800000:
            out.append(b)
    return out


def values64(c, n, finite=True):
    g = c.bulk()
    kind = c.draw(3)
    out = []
    while len(out) < n:
        b = g.getrandbits(64) if kind == 0 else bits64(g.randrange(-64, 65) / 4.0) if kind == 1 else bits64(g.uniform(-3, 3) * 10.0 ** g.randrange(-200, 200))
        if not finite or b & 0x7ff0000000000000 != 0x7ff0000000000000:
            out.append(b)
    return out


class Bad(Exception):
    pass


def parse_bin(data, vbytes=4):
    """Documented layout of .bin files: rows, columns, nnz, row indices, column indices, values"""
    if len(data) < 12:
        raise Bad("%d bytes only" % len(data))
    r, k, n = struct.unpack_from("<3I", data)
    if len(data) != 12 + n * (8 + vbytes):
        raise Bad("%d bytes, %d entries" % (len(data), n))
    a = array("I")
    a.frombytes(data[12:12 + 8 * n])
    v = array("I" if vbytes == 4 else "Q")
    v.frombytes(data[12 + 8 * n:])
    return r, k, list(zip(a[:n], a[n:], v))


def parse_blocked(data):
    if len(data) < 24:
        raise Bad("%d bytes only" % len(data))
    h = struct.unpack_from("<6I", data)
    if len(data) != 24 + 16 * h[2]:
        raise Bad("%d bytes, %d entries" % (len(data), h[2]))
    a = array("I")
    a.frombytes(data[24:])
    return h, list(zip(a[1::4], a[2::4], a[3::4])), list(a[0::4])


def parse_mtx(text, to_bits):
    """General real coordinate files, as the library writes them"""
    lines = text.decode("ascii").split("\n")
    head = lines[0].lower().split()
    if head != ["%%matrixmarket", "matrix", "coordinate", "real", "general"]:
        raise Bad("header %r" % lines[0])
    if lines[-1] != "":
        raise Bad("the last line is incomplete")
    body = [l for l in lines[1:] if l and not l.startswith("%")]
    r, k, n = (int(t) for t in body[0].split())
    if len(body) != n + 1:
        raise Bad("%d lines of entries, %d announced" % (len(body) - 1, n))
    e = []
    for l in body[1:]:
        t = l.split()
        if len(t) != 3:
            raise Bad("line %r" % l)
        e.append((int(t[0]) - 1, int(t[1]) - 1, to_bits(float(t[2]))))
    return r, k, e


def gen_mtx(c, double=True, max_dim=5000, max_nnz=80000, n=None):
    """A MatrixMarket file of any kind the library reads: (text, rows, cols, entries with values as floats)"""
    sym = c.pick(["general", "general", "symmetric", "skew-symmetric"])
    field = c.pick(["real", "real", "integer", "pattern"])
    if field == "pattern" and sym == "skew-symmetric":
        sym = "symmetric"
    rows = min(max_dim, gen_dim(c))
    cols = rows if sym != "general" or c.draw(3) == 0 else min(max_dim, gen_dim(c))
    n = min(max_nnz, gen_count(c)) if n is None else n
    pos = gen_positions(c, rows, cols, n)
    g = c.bulk()
    out, lines = [], []
    for r, k in pos:
        if sym != "general":
            r, k = max(r, k), min(r, k)
            if sym == "skew-symmetric" and r == k:
                if r + 1 < rows:
                    r += 1
                elif k > 0:
                    k -= 1
                else:
                    continue
        if field == "pattern":
            v, t = 1.0, ""
        elif field == "integer":
            v = float(g.randrange(-100000, 100000))
            t = " %d" % v
        else:
            v = g.choice([g.randrange(-64, 65) / 4.0, g.uniform(-1, 1), g.gauss(0, 1e10), g.gauss(0, 1e-10)])
            t = g.choice([" %.17g", " %.3e", " %f", "\t%g"]) % v
            v = float(t)
        lines.append("%d %d%s" % (r + 1, k + 1, t))
        out.append((r, k, v))
        if sym != "general" and r != k:
            out.append((k, r, -v if sym == "skew-symmetric" else v))
    h = "%%%%MatrixMarket matrix coordinate %s %s" % (field, sym)
    if c.draw(4) == 3:
        h = c.pick(["%%MatrixMarket MATRIX Coordinate " + field.upper() + " " + sym.title(), h])
    com = "".join("% a comment\n" for _ in range(c.draw(3)))
    text = h + "\n" + com + "%d %d %d\n" % (rows, cols, len(lines)) + "".join(l + "\n" for l in lines)
    return text, rows, cols, out
