"""Encoder inputs from the behaviours of Codecs.tla."""
import struct

import concrete
import odbwire as w

CFG = """CONSTANTS Kind = "%s"
 Offsets = {%s}
 Reals = {%s}
 Counts = {1, 2, 255, 256, 257, 65535, 65536}
 MaxRows = %d
 MinRows = %d
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Fits MarkerUnambiguous RoundTrip RejectOnlyWhenFull Emit
CHECK_DEADLOCK FALSE
"""
OFFS = "0, 1, 2, 254, 255, 256, 65534, 65535, 65536, 70000"
ALLOFFS = "0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000"
REALS = "0, 1, 2, 4, 5, 6, 8, 9, 99"
DOUBLES = "0, 2, 4, 5, 6, 7, 8, 9, 99"
FLT_MAX = 3.4028234663852886e38


def behaviours(ck):
    """{kind: [behaviour]}: exhaustive up to 3 rows, sampled longer ones."""
    out = {"int": [], "real": [], "double": [], "string": []}
    for k, reals in (("int", REALS), ("real", REALS), ("double", DOUBLES)):
        out[k] += ck.tlc("Codecs", CFG % (k, OFFS, reals, 3, 1, "FALSE")).prints
        n = ck.pick(150, 3000)
        seen = set()
        for b in ck.tlc("Codecs", CFG % (k, ALLOFFS, reals, 12, 4, "TRUE"), simulate=n, depth=18,
                        seed=ck.seed).prints:
            key = tuple(b["cells"])
            if key not in seen:
                seen.add(key)
                out[k].append(b)
        if ck.thorough and k != "int":
            out[k] += [b for b in ck.tlc("Codecs", CFG % (k, OFFS, reals, 4, 4, "FALSE")).prints]
    for k in ("wide", "huge"):
        out[k] = ck.tlc("Codecs", CFG % (k, "0, 1, 254, 255, 65534, 65535, 65536", REALS, ck.pick(2, 3), 1, "FALSE")).prints
    out["string"] = ck.tlc("Codecs", CFG % ("string", OFFS, REALS, 3, 1, "FALSE")).prints
    return out


class ECol:
    """One encoder column: values per row (None = missing)."""

    def __init__(self, name, ty, size, values, bits=None):
        self.name, self.type, self.size, self.values, self.bits = name, ty, size, values, bits or []

    def cell(self, v, ints, mi=w.MISS_INT, md=w.MISS_REAL):
        if self.type == w.STRING:
            return v.ljust(self.size, b"\0")
        if v is None:
            v = mi if self.type in (w.INTEGER, w.BITFIELD) else md
        return concrete.pack(self.type, v, ints)

    def packed(self, ints, **kw):
        return b"".join(self.cell(v, ints, **kw) for v in self.values)

    def spec(self, ints, pad=0, **kw):
        d = {"name": self.name, "type": self.type, "size": self.size, "pad": pad,
             "data": self.packed(ints, **kw).hex()}
        if self.type == w.BITFIELD:
            d["bits"] = [[n, s] for n, s in self.bits]
        return d


def int_map(rng, syms):
    top = max([s for s in syms if s >= 0] or [0])
    base = rng.choice([-2147483648, -65536, -32768, -256, -1, 0, 1, 77, 2147483646 - top, rng.randint(-10**9, 10**9)])
    return {s: (None if s == -1 else base + s) for s in syms}


def wide_map(rng, syms, kind):
    """Integers beyond 32 bits (wide), or beyond what doubles can hold (huge)."""
    top = max([s for s in syms if s >= 0] or [0])
    low = min([s for s in syms if s >= 0] or [0])
    while True:
        if kind == "wide":
            base = rng.choice([2147483648 - low, 2147483648 - top, -2147483649 - top, -2147483649 - low, 2 ** 40, -2 ** 40, 3 * 10**9,
                               2 ** 53 - top, -2 ** 53, 2 ** 32 - low, 2 ** 32 - top])
        else:
            base = rng.choice([2 ** 53 + 1 - low, -2 ** 53 - 1 - top, 2 ** 60, 2 ** 62 + 1, -2 ** 63 - low, 2 ** 63 - 1 - top])
        m = {s: (None if s == -1 else base + s) for s in syms}
        if w.MISS_INT not in m.values():
            return m


def real_map(rng, syms, dbl):
    m = {-1: None, 0: -float("inf"), 1: w.SHORT_REAL2_MARK, 2: concrete.f32(-rng.uniform(1e-3, 1e6)),
         4: rng.choice([0.0, -0.0]), 5: w.SHORT_REAL_MARK, 6: concrete.f32(rng.uniform(1e-3, 1e6)),
         7: rng.choice([3.141592653589793, 1e300, 2.0 ** 60 + 4096, 123456789.123456789]),
         8: FLT_MAX, 9: float("inf"), 99: float("nan")}
    f = lambda u: struct.unpack("<f", struct.pack("<I", u))[0]
    if rng.random() < 0.4:   # neighbours of the missing value and of the reserved code words
        m[2] = rng.choice([-2147483648.0, -2147483520.0, -2147483904.0, f(0xff7ffffe), f(0x80800000), f(0x80000001)])
    if rng.random() < 0.3:
        m[6] = rng.choice([f(0x00800001), f(0x007fffff), f(1), 2147483648.0, 2147483520.0, f(0x7f7ffffe)])
    if dbl and rng.random() < 0.3:
        m[6] = rng.choice([2147483647.0, 1.0 + 2.0 ** -52, 5e-324, 2.0 ** 53])
    if dbl:
        m[2] = rng.choice([-2147483646.0, -2147483647.5, -2147483647.0000005, -2147483648.0, m[2]])
    if dbl and rng.random() < 0.5:
        m[2] = rng.choice([m[2], -1.7976931348623157e308, -5e-324, -1e-40])
    if rng.random() < 0.3:
        m[6] = float(rng.randint(1, 300))
    return {s: m[s] for s in syms}


def str_map(rng, syms, width):
    """Strings that are hard to tell apart: empty, equal in the first 8 bytes, prefixes of each other, full width."""
    pre = concrete.rand_str(rng, 8, True)
    pool = [b"", b"a", b"A", b"a ", b" ", pre, pre[:7], pre[:1]]
    if width > 8:
        pool += [pre + b"x", pre + b"y", pre + concrete.rand_str(rng, width - 8, True), pre + b"x" * (width - 8),
                 concrete.rand_str(rng, width, True)]
    while len(pool) < 30:
        pool.append(concrete.rand_str(rng, width))
    pool = list(dict.fromkeys(p[:width] for p in pool))
    rng.shuffle(pool)
    return {s: pool[i % len(pool)] for i, s in enumerate(sorted(syms))}


def column(rng, name, kind, behs):
    """One column holding the cells of several behaviours of equal length, one after the other."""
    syms = set(s for b in behs for s in b["cells"])
    vals = []
    ty, size, bits = None, 8, None
    if kind == "int":
        r = rng.random()
        if r < 0.25:
            ty, size = w.STRING, rng.choice([8, 8, 16, 24, 40])
        elif r < 0.5:
            ty = w.BITFIELD
            bits = [("f%d" % i, rng.randint(1, 9)) for i in range(rng.randint(1, 3))]
        else:
            ty = w.INTEGER
    else:
        ty = w.REAL if kind == "real" else w.DOUBLE
    for b in behs:
        bs = set(b["cells"])
        if ty == w.STRING:
            m = str_map(rng, bs, size)
        elif kind == "int":
            m = int_map(rng, bs)
        else:
            m = real_map(rng, bs, kind == "double")
        vals += [m[s] for s in b["cells"]]
    return ECol(name, ty, size, vals, bits)


def batches(rng, behs, per_frame=3, maxcols=90):
    """Yields (columns, nrows, rows_per_frame)."""
    bylen = {}
    for kind in ("int", "real", "double"):
        for b in behs[kind]:
            bylen.setdefault(len(b["cells"]), []).append((kind, b))
    for n, items in sorted(bylen.items()):
        rng.shuffle(items)
        bykind = {}
        for k, b in items:
            bykind.setdefault(k, []).append(b)
        cols = []
        for k, bs in bykind.items():
            for i in range(0, len(bs), per_frame):
                g = bs[i:i + per_frame]
                while len(g) < per_frame:
                    g.append(rng.choice(bs))
                cols.append((k, g))
        rng.shuffle(cols)
        i = 0
        first = True
        while i < len(cols):
            m = 300 if first and n <= 3 else rng.choice([1, 3, maxcols, maxcols])
            first = False
            part = cols[i:i + m]
            i += m
            yield [column(rng, "c%d" % j, k, g) for j, (k, g) in enumerate(part)], n * per_frame, n


def string_tables(rng, behs, thorough):
    """Tables of nd distinct strings. Yields (column, nrows, rows per frame, reject?)."""
    for b in behs["string"]:
        nd, wide = b["nd"], b["wide"]
        if nd >= 65535 and wide and not thorough:
            continue
        size = rng.choice([16, 24]) if wide else 8
        tab = [(b"%x" % i) + (b"-long-tail"[:size - 8] if wide else b"") for i in range(nd)]
        if nd < 1000:
            rng.shuffle(tab)
        rows = tab + [tab[0], tab[-1], tab[nd // 2]]
        yield ECol("s", w.STRING, size, rows), len(rows), len(rows), b["codec"] == "reject"
