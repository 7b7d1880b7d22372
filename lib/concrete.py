"""Concretisation of the specification's symbols: column types, codecs and boundary values."""
import math
import struct

import odbwire as w

INT32 = (-2147483648, 2147483647)


def pack(kind, v, ints="long", width=8):
    """The 8*n bytes the API delivers for a value."""
    if kind in (w.INTEGER, w.BITFIELD):
        return struct.pack("<q", int(v)) if ints == "long" else struct.pack("<d", float(v))
    if kind == w.STRING:
        return v.ljust(width, b"\0")
    return struct.pack("<d", v)


def same_cell(kind, a, b):
    """a, b: bytes. Numeric equality for reals (-0.0 == 0.0, NaN == NaN), exact bytes otherwise."""
    if a == b:
        return True
    if kind in (w.REAL, w.DOUBLE) and len(a) == 8 and len(b) == 8:
        x, y = struct.unpack("<d", a)[0], struct.unpack("<d", b)[0]
        return x == y or (math.isnan(x) and math.isnan(y))
    return False


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def rand_f32(rng):
    r = rng.random()
    if r < 0.3:
        return f32(rng.choice([0.0, 1.5, -2.25, 1e-30, -1e30, 3.4e38, 1.17549449e-38, 273.15, math.inf, -math.inf]))
    if r < 0.5:
        return float(rng.randint(-100000, 100000))
    return f32(rng.uniform(-1e6, 1e6))


def rand_f64(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0.0, 5e-324, 1.7976931348623157e308, -1e-300, math.pi, 2.0 ** 53, -2147483646.0,
                           math.inf, -math.inf, 3.4028234663852886e38, -3.4028234663852886e38])
    return rng.uniform(-1e9, 1e9)


def rand_str(rng, width, full=False):
    n = width if full else rng.choice([0, 1, 7, 8, 9, width - 1, width, rng.randint(0, width)])
    n = max(0, min(n, width))
    return bytes(rng.randint(1, 255) if rng.random() < 0.3 else rng.choice(b"abcXYZ 019_'") for _ in range(n))


CODECS = [(w.INTEGER, "constant"), (w.INTEGER, "int8"), (w.INTEGER, "int16"), (w.INTEGER, "int32"),
          (w.INTEGER, "int8_missing"), (w.INTEGER, "int16_missing"), (w.INTEGER, "constant_or_missing"),
          (w.BITFIELD, "int8"), (w.BITFIELD, "int32"), (w.BITFIELD, "int16_missing"), (w.BITFIELD, "constant"),
          (w.REAL, "short_real"), (w.REAL, "short_real2"), (w.REAL, "constant"), (w.REAL, "real_constant_or_missing"),
          (w.REAL, "long_real"),
          (w.DOUBLE, "long_real"), (w.DOUBLE, "constant"), (w.DOUBLE, "real_constant_or_missing"),
          (w.DOUBLE, "short_real2"),
          (w.STRING, "constant_string"), (w.STRING, "int8_string"), (w.STRING, "int16_string"), (w.STRING, "chars"),
          (w.STRING, "long_constant_string")]

MISS_OK = {"int8_missing", "int16_missing", "constant_or_missing", "real_constant_or_missing", "int32", "long_real",
           "short_real", "short_real2"}


class FCol:
    """A foreign column: description for odbwire plus the value of each symbol."""

    def __init__(self, desc, values, miss):
        self.desc, self.values, self.miss = desc, values, miss
        self.type = desc["type"]
        self.width = 8
        if self.type == w.STRING and "strings" in desc:
            self.width = 8 * max(1, max((len(s) + 7) // 8 for s in desc["strings"]))

    def cell(self, sym, ints):
        """Expected bytes for a symbol, or None when unspecified."""
        if sym == "i":
            return b"\0" * self.width if self.type == w.STRING else pack(self.type, self.miss, ints)
        v = self.values[sym]
        if v is None:
            v = self.miss
        return pack(self.type, v, ints, self.width)

    def py(self, sym):
        """(kind, python value); missing = None"""
        if sym == "i":
            return None
        return self.values[sym]


def foreign_column(rng, name, syms, choice=None, default_missing=None):
    """syms: the symbols to provide values for ("m" = missing where the codec can express it)."""
    ty, codec = choice or rng.choice(CODECS)
    d = {"name": name, "type": ty, "codec": codec}
    isint = ty in (w.INTEGER, w.BITFIELD)
    dm = rng.random() < 0.6 if default_missing is None else default_missing
    if isint:
        miss = w.MISS_INT if dm else rng.choice([-1, 0, 99999, -2147483648, 2147483646])
    else:
        miss = w.MISS_REAL if dm else rng.choice([-9999.0, 1.7e38, 0.25])
    if ty == w.BITFIELD:
        n = rng.randint(1, 4)
        d["bits"] = [("b%d" % i, rng.randint(1, 7)) for i in range(n)]
    if ty == w.STRING:
        miss = 0.0
    d["missing"] = miss
    real = [s for s in syms if s != "m"]
    vals = {}
    if ty == w.STRING:
        if codec == "constant_string":
            v = rand_str(rng, 8)
            d["value"] = v
            vals = {s: v for s in syms}
        elif codec == "long_constant_string":
            v = rand_str(rng, rng.choice([8, 16, 40])) or b"x"
            d["strings"] = [v]
            vals = {s: v for s in syms}
        elif codec == "chars":
            vals = {s: rand_str(rng, 8) for s in syms}
        else:
            width = rng.choice([8, 8, 16, 24])
            n = rng.choice([1, 2, 3, 255, 256]) if codec == "int8_string" else rng.choice([1, 3, 256, 257, 300])
            tab = []
            seen = set()
            while len(tab) < n:
                s = rand_str(rng, width)
                if n > 20:
                    s = (b"%d" % len(tab)) + s[:width - 4]
                if s not in seen:
                    seen.add(s)
                    tab.append(s)
            d["strings"] = tab
            vals = {s: rng.choice([tab[0], tab[-1], rng.choice(tab)]) for s in syms}
        return FCol(d, vals, miss)
    if codec in ("constant",):
        v = rng.randint(-70000, 70000) if isint else (rand_f32(rng) if ty == w.REAL else rand_f64(rng))
        d["min"] = d["max"] = v
        vals = {s: v for s in syms}
    elif codec in ("constant_or_missing", "real_constant_or_missing"):
        v = rng.randint(-70000, 70000) if isint else float(rng.randint(-5000, 5000)) + 0.5
        d["min"] = d["max"] = v
        d["hasMissing"] = 1
        vals = {s: (None if s == "m" else v) for s in syms}
    elif codec.startswith("int8") or codec.startswith("int16"):
        hi = {"int8": 255, "int16": 65535, "int8_missing": 254, "int16_missing": 65534}[codec]
        lo = rng.choice([-2147483648, -32768, -1, 0, 1, 1000000, 2147483647 - 65536])
        d["min"], d["max"] = lo, lo + hi
        pool = [0, 1, hi // 2, hi - 1, hi]
        for s in syms:
            if s == "m" and codec in MISS_OK:
                vals[s] = None
            else:
                vals[s] = lo + (rng.choice(pool) if rng.random() < 0.7 else rng.randint(0, hi))
        if codec in MISS_OK:
            d["hasMissing"] = 1
    elif codec == "int32":
        d["min"], d["max"] = INT32
        for s in syms:
            vals[s] = None if s == "m" else rng.choice([INT32[0], -1, 0, 1, 2147483646, rng.randint(-10**9, 10**9)])
            if s != "m" and vals[s] == miss:
                vals[s] = 12345
        d["hasMissing"] = 1 if "m" in syms else 0
    else:
        f = rand_f64 if codec == "long_real" else rand_f32
        for s in syms:
            while True:
                v = f(rng)
                if v == miss:
                    continue
                if codec == "short_real" and v == w.SHORT_REAL_MARK or codec == "short_real2" and \
                        v == w.SHORT_REAL2_MARK:
                    continue
                break
            vals[s] = None if s == "m" else v
        d["hasMissing"] = 1 if "m" in syms else 0
        fin = [v for v in vals.values() if v is not None]
        d["min"], d["max"] = (min(fin), max(fin)) if fin else (miss, miss)
    return FCol(d, vals, miss)
