"""Columns and frames with definitions under control: several frames of one signature, several encodings of the same
values."""
import struct

import concrete
import odbwire as w
import tables as T

NUM = (w.INTEGER, w.BITFIELD, w.REAL, w.DOUBLE)
FULL = b"~" * 64


def value(rng, ty, width=8, avoid=()):
    """A value of the type that is in `avoid` under no reading."""
    while True:
        if ty == w.INTEGER:
            v = rng.choice([0, 1, -1, 255, 256, 65536, -2147483648, 2147483646, 1000, rng.randint(-10**6, 10**6)])
        elif ty == w.BITFIELD:
            v = rng.choice([0, 1, 2, 7, 255, 256, 1023, rng.randint(0, 1023)])
        elif ty == w.REAL:
            v = concrete.rand_f32(rng)
        elif ty == w.DOUBLE:
            v = concrete.rand_f64(rng)
        else:
            v = concrete.rand_str(rng, width) or b"s"
        if v in avoid or (ty in (w.REAL, w.DOUBLE) and v in (w.SHORT_REAL_MARK, w.SHORT_REAL2_MARK)):
            continue
        return v


def codecs(ty, vals, const, width=8):
    """Encodings that can hold these values (None = missing)."""
    known = sorted({v for v in vals if v is not None})
    miss = any(v is None for v in vals)
    if ty == w.STRING:
        if const:
            return ["constant_string"] if width == 8 else ["int8_string"]
        out = ["int8_string", "int16_string"]
        return out + ["chars"] if width == 8 else out
    if const:
        return ["constant"]
    one = len(known) <= 1
    if ty in (w.INTEGER, w.BITFIELD):
        out = ["int32"]
        if one:
            out.append("constant_or_missing")
        span = known[-1] - known[0] if known else 0
        for n, lim in (("int8_missing", 254), ("int16_missing", 65534)):
            if span <= lim:
                out.append(n)
        if not miss:
            if one and known:
                out.append("constant")
            out += [n for n, lim in (("int8", 255), ("int16", 65535)) if span <= lim]
        return out
    out = ["long_real"]
    if any(v != v for v in known):
        return out + (["short_real", "short_real2"] if ty == w.REAL and len(known) == 1 else [])
    if all(v == concrete.f32(v) if abs(v) < 3.5e38 or v in (float("inf"), float("-inf")) else False for v in known):
        out += ["short_real", "short_real2"] if ty == w.REAL else ["short_real2"]
    if one and known[:1] not in ([float("inf")], [float("-inf")]):
        out.append("real_constant_or_missing")
        if known and not miss:
            out.append("constant")
    return out


def column(rng, name, ty, values, used, missing=None, bits=None, const=False, width=8, codec=None,
           plain=False):
    """values: {symbol: value or None}; used: the symbols that occur in the frame."""
    vals = {s: values[s] for s in used}
    if missing is not None and any(v == missing for v in vals.values()):
        vals = {s: None if v == missing else v for s, v in vals.items()}
    if ty == w.STRING:
        vals = {s: (v or b"") for s, v in vals.items()}
        vals = vals or {"-": b""}
    if not vals:
        vals = {"-": None if ty != w.STRING else b""}
    cs = codecs(ty, list(vals.values()), const, width)
    if plain and not const:   # an encoding whose value is not in the header
        cs = [x for x in cs if "constant" not in x]
    c = codec or rng.choice(cs)
    fc = T.fixed_column(name, ty, c, vals, missing, bits)
    if c == "constant" and list(vals.values())[0] is None:
        fc.desc["min"] = fc.desc["max"] = fc.miss
    if ty == w.STRING and "strings" in fc.desc:
        t = set(fc.desc["strings"])
        if width > 8:
            t.add(FULL[:width])
        t = sorted(t)
        rng.shuffle(t)
        fc.desc["strings"] = t
        fc.width = width
    return fc
