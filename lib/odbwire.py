"""Independent reader/writer of the published ODB-2 frame format (docs/content/reference/file-format-reference.rst).

It shares no code with odc. `parse_stream` turns bytes into frames (headers + row events), strictly: every byte of a
frame must be accounted for. `build_frame` writes a frame from an explicit description (any row markers, any codec,
either byte order)."""
import hashlib
import struct

IGNORE, INTEGER, REAL, STRING, BITFIELD, DOUBLE = 0, 1, 2, 3, 4, 5
MISS_INT = 2147483647
MISS_REAL = -2147483647.0
SHORT_REAL_MARK = struct.unpack("<f", struct.pack("<I", 0x00800000))[0]
SHORT_REAL2_MARK = struct.unpack("<f", struct.pack("<I", 0xff7fffff))[0]


class WireError(Exception):
    pass


class Cur:
    def __init__(self, b, pos, end, bo):
        self.b, self.pos, self.end, self.bo = b, pos, end, bo

    def raw(self, n):
        if n < 0 or self.pos + n > self.end:
            raise WireError("short read at %d: want %d of %d" % (self.pos, n, self.end - self.pos))
        r = self.b[self.pos:self.pos + n]
        self.pos += n
        return r

    def f(self, fmt):
        return struct.unpack(self.bo + fmt, self.raw(struct.calcsize(fmt)))[0]

    def s(self):
        return bytes(self.raw(self.f("i")))


WIDTH = {"int8": 1, "int16": 2, "int32": 4, "int8_missing": 1, "int16_missing": 2, "constant": 0,
         "constant_string": 0, "long_constant_string": 0, "constant_or_missing": 1, "real_constant_or_missing": 1,
         "long_real": 8, "short_real": 4, "short_real2": 4, "int8_string": 1, "int16_string": 2, "chars": 8}


class Column:
    def __init__(self):
        self.bits = []
        self.strings = None

    def is_int(self):
        return self.type in (INTEGER, BITFIELD)


def parse_header(b, pos):
    """-> dict with the header fields, 'pos' (offset of frame), 'data' (offset of first row), 'end'."""
    if b[pos:pos + 5] != b"\xff\xffODA":
        raise WireError("bad magic at %d: %r" % (pos, bytes(b[pos:pos + 5])))
    e = bytes(b[pos + 5:pos + 9])
    if e == struct.pack("<i", 1):
        bo = "<"
    elif e == struct.pack(">i", 1):
        bo = ">"
    else:
        raise WireError("bad endianness indicator %r" % e)
    c = Cur(b, pos + 9, len(b), bo)
    h = {"pos": pos, "bo": bo, "major": c.f("i"), "minor": c.f("i")}
    md5 = c.s()
    hlen = c.f("i")
    h["md5"], h["headerLength"] = md5.decode("latin1"), hlen
    start = c.pos
    var = bytes(c.raw(hlen))
    h["md5_ok"] = hashlib.md5(var).hexdigest() == h["md5"]
    c = Cur(b, start, start + hlen, bo)
    h["dataSize"] = c.f("q")
    h["prevFrameOffset"] = c.f("q")
    h["nrows"] = c.f("q")
    h["flags"] = [c.f("d") for _ in range(c.f("i"))]
    h["props"] = [(c.s().decode("latin1"), c.s().decode("latin1")) for _ in range(c.f("i"))]
    cols = []
    for _ in range(c.f("i")):
        k = Column()
        k.name = c.s().decode("latin1")
        k.type = c.f("i")
        if k.type == BITFIELD:
            names = [c.s().decode("latin1") for _ in range(c.f("i"))]
            sizes = [c.f("i") for _ in range(c.f("i"))]
            if len(names) != len(sizes):
                raise WireError("bitfield names/sizes differ")
            k.bits = list(zip(names, sizes))
        k.codec = c.s().decode("latin1")
        k.hasMissing = c.f("i")
        k.min_raw = bytes(b[c.pos:c.pos + 8])
        k.min, k.max, k.missing = c.f("d"), c.f("d"), c.f("d")
        if k.codec not in WIDTH:
            raise WireError("unknown codec " + k.codec)
        if k.codec == "chars":
            if c.f("i") != 0:
                raise WireError("chars string table not empty")
        elif k.codec in ("int8_string", "int16_string"):
            n = c.f("i")
            k.strings = [None] * n
            for _ in range(n):
                s = c.s()
                c.f("i")
                i = c.f("i")
                if not (0 <= i < n) or k.strings[i] is not None:
                    raise WireError("bad string index")
                k.strings[i] = s
        elif k.codec == "long_constant_string":
            k.strings = [c.s()]
        cols.append(k)
    if c.pos != c.end:
        raise WireError("header length mismatch: %d bytes left" % (c.end - c.pos))
    h["cols"] = cols
    h["data"] = c.end
    h["end"] = c.end + h["dataSize"]
    return h


def col_width(k):
    """Decoded width in bytes of one element"""
    if k.type != STRING:
        return 8
    if k.strings is not None:
        m = max([len(s) for s in k.strings] + [1])
        return 8 * ((m + 7) // 8)
    return 8


def decode_value(k, c):
    """One element -> python int / float / bytes / None for a missing value (per codec)."""
    n = k.codec
    if n == "constant":
        v = k.min
        if v == k.missing:
            return None
        return int(v) if k.is_int() else v
    if n == "constant_string":
        return k.min_raw.split(b"\0")[0]
    if n == "long_constant_string":
        return k.strings[0]
    if n in ("constant_or_missing", "real_constant_or_missing"):
        u = c.f("B")
        if u == 0xff:
            return None
        v = k.min + u
        return int(v) if k.is_int() else v
    if n == "int8":
        return int(k.min) + c.f("B")
    if n == "int16":
        return int(k.min) + c.f("H")
    if n == "int8_missing":
        u = c.f("B")
        return None if u == 0xff else int(k.min) + u
    if n == "int16_missing":
        u = c.f("H")
        return None if u == 0xffff else int(k.min) + u
    if n == "int32":
        v = c.f("i")
        return None if v == k.missing else v
    if n == "long_real":
        v = c.f("d")
        return None if v == k.missing else v
    if n == "short_real":
        v = c.f("f")
        return None if v == SHORT_REAL_MARK else v
    if n == "short_real2":
        v = c.f("f")
        return None if v == SHORT_REAL2_MARK else v
    if n in ("int8_string", "int16_string"):
        u = c.f("B" if n == "int8_string" else "H")
        if u >= len(k.strings):
            raise WireError("string index out of range")
        return k.strings[u]
    if n == "chars":
        return bytes(c.raw(8)).split(b"\0")[0]
    raise WireError("codec " + n)


def parse_rows(b, h):
    """-> list of (marker, [values of the columns marker..])"""
    c = Cur(b, h["data"], h["end"], h["bo"])
    if h["end"] > len(b):
        raise WireError("data section truncated")
    rows = []
    for _ in range(h["nrows"]):
        m = struct.unpack(">H", c.raw(2))[0]
        if m > len(h["cols"]):
            raise WireError("marker %d out of range" % m)
        rows.append((m, [decode_value(k, c) for k in h["cols"][m:]]))
    if c.pos != c.end:
        raise WireError("data size mismatch: %d bytes left" % (c.end - c.pos))
    return rows


def expand(h, rows):
    cur = [None] * len(h["cols"])
    out = []
    for m, vals in rows:
        cur = cur[:m] + vals
        out.append(cur)
    return out


def parse_stream(b):
    b = bytes(b)
    pos, frames = 0, []
    while pos < len(b):
        h = parse_header(b, pos)
        h["rows"] = parse_rows(b, h)
        frames.append(h)
        pos = h["end"]
    return frames


# ---------------------------------------------------------------------------------------------------------------
# writer

def _s(bo, x):
    if isinstance(x, str):
        x = x.encode("latin1")
    return struct.pack(bo + "i", len(x)) + x


def codec_header(bo, k):
    mn, mx = k.get("min", 0.0), k.get("max", 0.0)
    ms = k.get("missing", MISS_INT if k["type"] in (INTEGER, BITFIELD) else MISS_REAL)
    out = struct.pack(bo + "i", 1 if k.get("hasMissing") else 0)
    if k["codec"] == "constant_string":
        out += k["value"].ljust(8, b"\0")[:8] + k["value"].ljust(8, b"\0")[:8]
        out += struct.pack(bo + "d", float(ms))
    else:
        out += struct.pack(bo + "ddd", float(mn), float(mx), float(ms))
    if k["codec"] == "chars":
        out += struct.pack(bo + "i", 0)
    elif k["codec"] == "long_constant_string":
        out += _s(bo, k["strings"][0])
    elif k["codec"] in ("int8_string", "int16_string"):
        t = k["strings"]
        out += struct.pack(bo + "i", len(t))
        for i, s in enumerate(t):
            out += _s(bo, s) + struct.pack(bo + "ii", 0, i)
    return out


def encode_value(bo, k, v):
    n = k["codec"]
    ms = k.get("missing", MISS_INT if k["type"] in (INTEGER, BITFIELD) else MISS_REAL)
    if n in ("constant", "constant_string", "long_constant_string"):
        return b""
    if n in ("constant_or_missing", "real_constant_or_missing"):
        return bytes([0xff if v is None else int(v - k["min"])])
    if n == "int8":
        return struct.pack("B", int(v - k["min"]))
    if n == "int16":
        return struct.pack(bo + "H", int(v - k["min"]))
    if n == "int8_missing":
        return struct.pack("B", 0xff if v is None else int(v - k["min"]))
    if n == "int16_missing":
        return struct.pack(bo + "H", 0xffff if v is None else int(v - k["min"]))
    if n == "int32":
        return struct.pack(bo + "i", int(ms) if v is None else v)
    if n == "long_real":
        return struct.pack(bo + "d", ms if v is None else v)
    if n == "short_real":
        return struct.pack(bo + "f", SHORT_REAL_MARK if v is None else v)
    if n == "short_real2":
        return struct.pack(bo + "f", SHORT_REAL2_MARK if v is None else v)
    if n == "int8_string":
        return struct.pack("B", k["strings"].index(v))
    if n == "int16_string":
        return struct.pack(bo + "H", k["strings"].index(v))
    if n == "chars":
        return v.ljust(8, b"\0")
    raise WireError(n)


def build_frame(cols, rows, props=(), bo="<", nrows=None, md5=None, minor=5, flags=0, data=None, major=0,
                dataSize=None):
    """cols: list of dicts {name,type,codec,min,max,missing,hasMissing,strings,value,bits}; rows: list of
    (marker, values for cols[marker:])."""
    if data is None:
        data = b"".join(struct.pack(">H", m) + b"".join(encode_value(bo, k, v) for k, v in zip(cols[m:], vals))
                        for m, vals in rows)
    var = struct.pack(bo + "qqq", len(data) if dataSize is None else dataSize, 0,
                      len(rows) if nrows is None else nrows)
    var += struct.pack(bo + "i", flags) + struct.pack(bo + "d", 0.0) * flags
    var += struct.pack(bo + "i", len(props))
    for a, v in props:
        var += _s(bo, a) + _s(bo, v)
    var += struct.pack(bo + "i", len(cols))
    for k in cols:
        var += _s(bo, k["name"]) + struct.pack(bo + "i", k["type"])
        if k["type"] == BITFIELD:
            bits = k.get("bits", [])
            var += struct.pack(bo + "i", len(bits)) + b"".join(_s(bo, n) for n, _ in bits)
            var += struct.pack(bo + "i", len(bits)) + b"".join(struct.pack(bo + "i", s) for _, s in bits)
        var += _s(bo, k["codec"]) + codec_header(bo, k)
    dig = hashlib.md5(var).hexdigest() if md5 is None else md5
    head = b"\xff\xffODA" + struct.pack(bo + "iii", 1, major, minor) + _s(bo, dig) + struct.pack(bo + "i", len(var))
    return head + var + data
