"""C03: what odc writes conforms to the published format (Format.tla)."""
import os

import encgen
import fmt
import odbwire as w

FIXED = 57    # bytes of the part of a header that has a fixed size


def bits(c):
    return c.bits if c.type == w.BITFIELD else []


def cuts(n, rpf):
    out = []
    while n > 0:
        out.append(min(n, rpf))
        n -= out[-1]
    return out


def write(ck, cols, nrows, rpf, props, ints, via):
    """Bytes written through one of the writing interfaces, or None (reported)."""
    rng = ck.rng
    if via == "writer":
        sc = [{"act": "columns", "cols": [
            dict({"name": c.name, "type": c.type, "doubles": c.size // 8} if c.type == w.STRING else
                 {"name": c.name, "type": c.type}, **({"bits": [list(b) for b in c.bits]} if bits(c) else {}))
            for c in cols]}]
        sc += [{"act": "prop", "key": k, "value": v} for k, v in props]
        sc.append({"act": "header"})
        for i in range(nrows):
            sc.append({"act": "row", "cells": [c.cell(c.values[i], ints).hex() for c in cols]})
        rq = {"op": "writer", "rows_buffer": rpf, "script": sc}
    else:
        rq = {"op": "encode", "via": via, "nrows": nrows, "rpf": rpf, "props": [list(p) for p in props],
              "dest": "dh" if via == "cpp" else rng.choice(["buffer", "stream", "fd"]),
              "cols": [c.spec(ints, rng.choice([0, 8])) for c in cols]}
        if rq["dest"] == "fd":
            rq["path"] = os.path.join(ck.work, "o.odb")
    r = ck.call(rq)
    note = "%s %s" % (via, [(c.name, c.type, [repr(v) for v in c.values[:8]]) for c in cols[:3]])
    if "died" in r:
        ck.fail("crash", "writing crashed: %s (%s)" % (r["died"][:200], note), note)
        return None
    if r.get("rc") or any(r.get("rcs", [])) or r.get("close_rc"):
        ck.fail("write", "writing failed: %s (%s)" % (r.get("err"), note), note)
        return None
    return bytes.fromhex(r["data"])


def table(rng):
    """A table with repeated values, so that markers vary."""
    n = rng.randint(1, 12)
    cols = []
    for j in range(rng.choice([1, 2, 3, 5, 9, 257, 300])):
        kind = rng.choice(["int", "real", "double", "string"])
        pool = {"int": [None, 0, 1, -1, 255, 256, 65535, 70000, -2147483648, 2147483646],
                "real": [None, 0.0, 1.5, -2.25, float("inf"), 3.4028234663852886e38, float("nan"), 273.1499938964844],
                "double": [None, 0.0, 1.1, -1e300, float("nan"), 5e-324, 255.0, 12.0],
                "string": [b"", b"a", b"abcdefgh", b" x ", b"\xff\xfe", b"abcdefghi", b"abcdefgh" * 2]}[kind]
        k = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        v = []
        for i in range(n):
            v.append(v[-1] if v and rng.random() < 0.6 else rng.choice(k))
        ty = {"int": rng.choice([w.INTEGER, w.BITFIELD]), "real": w.REAL, "double": w.DOUBLE, "string": w.STRING}[kind]
        size = 8 * max((max(len(x) for x in v) + 7) // 8, 1) if kind == "string" else 8
        cols.append(encgen.ECol(rng.choice(["c%d", "Col_%d@tab", "x%d.y@t"]) % j, ty, size, v,
                                rng.choice([[("b0", 1)], [("b0", 32)], [("x", 31), ("y", 1)], [("b0", 3), ("b1", 7), ("b2", 12)],
                                            [("bit%d" % i, 1) for i in range(32)]])))
    props = [("key%d" % i, rng.choice(["", "v", "a longer value ' \" ", "encoder"])) for i in range(rng.randint(0, 3))]
    return cols, n, rng.choice([1, 2, 3, 5, 100]), props


def run(ck):
    rng = ck.rng
    behs = encgen.behaviours(ck)
    ck.assumptions += ["the independent reader (lib/odbwire.py) implements the published format",
                       "minimum and maximum are not checked for columns that hold NaN"]
    for ints in ("long", "double"):
        ck.call({"op": "settings", "ints": ints})
        items = []
        jobs = []
        for cols, nrows, rpf in encgen.batches(rng, behs):
            props = [("p%d" % i, "v") for i in range(rng.randint(0, 2))]
            jobs.append((cols, nrows, rpf, props))
        rng.shuffle(jobs)
        jobs = jobs[:ck.pick(45, 400)]
        jobs += [table(rng) for _ in range(ck.pick(120, 1500))]
        for cols, nrows, rpf, props in jobs:
            via = rng.choice(["c", "cpp", "writer"])
            ck.call({"op": "settings", "longconst": rng.random() < 0.3})
            data = write(ck, cols, nrows, rpf, props, ints, via)
            if data is None:
                continue
            note = "%s ints=%s rows=%d per frame=%d" % (via, ints, nrows, rpf)
            if rng.random() < 0.3:    # the header is the same whatever the size of the buffer it is composed in
                need = FIXED + int.from_bytes(data[53:57], "little")
                size = rng.choice([need, need - 1, need + 1, need // 2, need // 2 + 1, FIXED + 1, FIXED, 64, rng.randint(1, need)])
                ck.call({"op": "settings", "hbuf": size})
                again = write(ck, cols, nrows, rpf, props, ints, via)
                ck.call({"op": "settings", "hbuf": 4 << 20})
                ck.count("header buffers")
                if again is not None and again != data:
                    ck.fail("hbuf", "other bytes with a header buffer of %d bytes (the first header has %d): %s" % (size, need, note),
                            {"bytes": again.hex()[:4000]})
            try:
                rows = [[c.values[i] for c in cols] for i in range(nrows)]
                items.append((note, fmt.events([(c.name, c.type, bits(c)) for c in cols], rows, cuts(nrows, rpf),
                                               props, data)))
            except w.WireError as e:
                ck.fail("wire", "not a well-formed file: %s (%s)" % (e, note), {"bytes": data.hex()[:4000]})
            ck.count("files")
            ck.count("long constants", data.count(b"long_constant_string"))
            ck.count("bytes", len(data))
            if len(items) >= 60:
                fmt.validate(ck, items, "file")
                items = []
            if ck.elapsed() > ck.budget:
                break
        fmt.validate(ck, items, "file")
    ck.sample({"first_event": str(items[0][1][0])[:300]} if items else "-")
