"""C07: the span of a frame is the set of its values (RowDelta.tla SpanAgrees, Stream-like aggregation)."""
import math
import os
import struct

import odbwire as w
import scale
import wires
import C02

CONST = ("constant", "constant_string", "long_constant_string")


def expected_span(group, name, ints):
    vals = set()
    t = None
    for f in group:
        col = f.cols[f.col(name)]
        t = {w.STRING: "str", w.REAL: "dbl", w.DOUBLE: "dbl"}.get(col.type, "int")
        const = col.desc["codec"] in CONST
        for s in (["a"] if const else set(f.sym[f.col(name)])):
            v = (col.miss if col.type != w.STRING else b"") if s == "i" else col.values[s]
            if v is None:
                v = col.miss
            if t == "str":
                v = v.split(b"\0")[0]
            elif t == "dbl":
                v = float(v)
                if math.isnan(v):
                    continue
                v = v + 0.0
            else:
                v = int(v)
            vals.add(v)
    return t, vals


def got_span(v):
    t = v["t"]
    if t == "dbl":
        return t, [struct.unpack("<d", bytes.fromhex(x))[0] + 0.0 for x in v["v"]]
    if t == "str":
        return t, [bytes.fromhex(x) for x in v["v"]]
    return t, list(v["v"])


def simple(n):
    return n.split("@")[0]


def check(ck, frames, data, path, ints, note):
    rng = ck.rng
    agg = rng.random() < 0.5
    lim = rng.choice([-1, -1, max(f.nrows for f in frames), sum(f.nrows for f in frames)]) if agg else -1
    gs = wires.groups(frames, lim if lim > 0 else None) if agg else [[f] for f in frames]
    common = set(frames[0].names())
    for f in frames[1:]:
        common &= set(f.names())
    if not common:
        frames = frames[:1]
        gs = [[frames[0]]]
        data = frames[0].bytes
        with open(path, "wb") as o:
            o.write(data)
        common = set(frames[0].names())
    names = sorted(common)
    rng.shuffle(names)
    names = names[:rng.randint(1, len(names))]
    asked = {n: (simple(n) if rng.random() < 0.3 else n) for n in names}
    if len({simple(n) for f in frames for n in f.names()}) != len(frames[0].names()):
        asked = {n: n for n in names}
    only = rng.random() < 0.4
    if only and rng.random() < 0.6:
        names = [n for n in names if all(f.cols[f.col(n)].desc["codec"] in CONST for f in frames)] or names
    rq = {"op": "span", "agg": agg, "max": lim, "cols": [asked[n] for n in names], "only_constant": only,
          "open": "path", "path": path}
    if rng.random() < 0.3:
        rq.update(open="mem", hex=data.hex())
    r = ck.call(rq)
    if "died" in r:
        ck.fail("crash", "span crashed: %s (%s)" % (r["died"][:200], note), rq)
        return
    if r["rc"] or len(r["frames"]) != len(gs):
        ck.fail("frames", "%s: %d frames (%s), expected %d" % (note, len(r["frames"]), r.get("err"), len(gs)), rq)
        return
    off = 0
    for gi, (g, fr) in enumerate(zip(gs, r["frames"])):
        length = sum(len(f.bytes) for f in g)
        allconst = all(f.cols[f.col(n)].desc["codec"] in CONST for f in g for n in names)
        where = "%s frame %d (%d parts) columns %s" % (note, gi, len(g), rq["cols"])
        if only and not allconst:
            if "err" not in fr:
                ck.fail("constant", where + ": columns that are not constant were accepted", rq)
                return
            off += length
            ck.count("refused")
            continue
        if "err" in fr:
            ck.fail("span", "%s: %s" % (where, fr["err"]), rq)
            return
        if (fr["offset"], fr["length"]) != (off, length):
            ck.fail("extent", "%s: span at %s+%s expected %d+%d" % (where, fr["offset"], fr["length"], off, length), rq)
            return
        off += length
        if set(fr["values"]) != {asked[n] for n in names}:
            ck.fail("columns", "%s: span has columns %s" % (where, sorted(fr["values"])), rq)
            return
        for n in names:
            t, e = expected_span(g, n, ints)
            gt, gv = got_span(fr["values"][asked[n]])
            if gt != t or set(gv) != e or len(gv) != len(e):
                ck.fail("values", "%s column %s (%s): %s %s expected %s %s" %
                        (where, n, [f.cols[f.col(n)].desc["codec"] for f in g], gt, sorted(gv)[:8], t, sorted(e)[:8]), rq)
                return
            ck.count("value_sets")


def run(ck):
    rng = ck.rng
    small, big = C02.behaviours(ck)
    rng.shuffle(small)
    small = small[:ck.pick(3000, len(small))]
    plan = [small[i:i + 3] for i in range(0, len(small), 3)]
    i = 0
    while i < len(big):
        n = rng.choice([1, 2, 3, 4])
        plan.append(big[i:i + n])
        i += n
    path = os.path.join(ck.work, "s.odb")
    ints = None
    for pi, behs in enumerate(plan):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = pi
            break
        if pi % 40 == 0:
            ints = "long" if (pi // 40) % 2 == 0 else "double"
            ck.call({"op": "settings", "ints": ints})
        frames = wires.stream(rng, behs, ["a", "b", "c", "m"], homogeneous=rng.choice([None, "agg", "same"]))
        data = b"".join(f.bytes for f in frames)
        with open(path, "wb") as f:
            f.write(data)
        check(ck, frames, data, path, ints, "stream %d ints=%s" % (pi, ints))
        ck.traces += len(behs)
        ck.count("streams")
        if pi < 2:
            ck.sample({"wire": behs[0]["wire"], "columns": [(c.desc["name"], c.desc["codec"]) for c in frames[0].cols]})
    scale.each(ck, ck.pick(3, 30), scale.spans)
