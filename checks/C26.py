"""C26: sequences of calls of the C++ interface (CppApi.tla)."""
import json
import os
import struct

import defs
import odbwire as w
import tables as T

CFG = """CONSTANTS Readers = {%s}
 Frames = {%s}
 Spans = {%s}
 Limits = {0, 2, 3, 5}
 Names = {%s}
 MaxSteps = %d
 Ops = {%s}
 Prelude = %s
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Shape Emit
PROPERTIES Independent Failed Stay CopyKeeps MoveTakes FilterSub
CHECK_DEADLOCK FALSE
"""
TYPE = {"a": w.INTEGER, "b": w.DOUBLE, "s": w.STRING}
KIND = {"a": "int", "b": "dbl", "s": "str"}


def q(x):
    return ", ".join('"%s"' % c for c in x.split())


def behaviours(ck):
    ex, sim, jobs = [], [], []
    exhaustive = (("r", "f g", "", "a", "next move", "TRUE", ck.pick(5, 6)), ("r", "f", "", "a", "read next ask", "TRUE", ck.pick(4, 6)),
                  ("r", "f", "x", "a b s z", "span", "TRUE", 4), ("r", "f", "x y", "a", "span", "TRUE", ck.pick(5, 6)),
                  ("r", "f", "x y", "a", "next same", "TRUE", ck.pick(6, 7)), ("r", "f", "", ck.pick("a", "a b z"), "decode", "TRUE", 3),
                  ("r", "f g", "", "a s", "filter", "TRUE", ck.pick(3, 4)))
    sampled = (("read next move ask filter span decode", "FALSE", 60, ck.pick(160, 4000)),
               ("next move ask filter decode", "TRUE", 30, ck.pick(160, 4000)), ("next move ints decode span filter", "TRUE", 24, ck.pick(200, 3000)), ("next span", "TRUE", 24, ck.pick(400, 6000)),
               ("read next move span filter", "FALSE", 50, ck.pick(100, 2000)))
    for r, f, x, names, ops, pre, n in exhaustive:
        jobs.append(("CppApi", CFG % (q(r), q(f), q(x), q(names), n, q(ops), pre, "FALSE"), {"workers": 1}))
    for ops, pre, n, k in sampled:
        jobs.append(("CppApi", CFG % (q("r t"), q("f g h"), q("x y"), q("a b s z"), n, q(ops), pre, "TRUE"),
                     {"simulate": k, "depth": n + 2, "seed": ck.seed}))
    rs = ck.tlc_many(jobs)
    for e, r in zip(exhaustive, rs):
        got = r.prints
        ck.cov.setdefault("exhaustive", []).append(len(got))
        ck.rng.shuffle(got)
        if "same" in e[4]:    # a comparison after spans of two frames
            got.sort(key=lambda b: -(b["log"][-1]["fn"] == "same" and len({s["fn"] for s in b["log"][2:]}) == 3))
        ex.append(got)
    for r in rs[len(exhaustive):]:
        # the last step of a behaviour is printed with all its alternatives
        seen = {}
        for b in r.prints:
            seen.setdefault(json.dumps(b["log"][:-1]), []).append(b)
        for v in seen.values():
            sim += ck.rng.sample(v, min(2, len(v)))
    return ex, sim


class World:
    """What the columns, values and properties of the model stand for."""

    def __init__(self, ck, streams, tag):
        self.rng = rng = ck.rng
        self.names = {"a": rng.choice(["alpha", "a@hdr"]), "b": rng.choice(["beta@t", "b"]), "s": rng.choice(["sigma", "s_1@body"]),
                      "z": "zeta"}
        self.keys = {"p": "key", "q": rng.choice(["k", "key2", "Key"])}
        width = rng.choice([8, 8, 16])
        self.width = width
        self.ty = dict(TYPE, b=rng.choice([w.REAL, w.DOUBLE]))
        self.vals = {}
        for c in "abs":
            vs = []
            while len(vs) < 3:
                if c == "s":
                    v = bytes(rng.choice(b"abcXYZ019") for _ in range(rng.choice([1, 4, 7, 8] if width == 8 else [9, 12, 15, 16])))
                elif c == "a":
                    v = rng.choice([0, 1, -1, 255, -256, 65536, 1000, -2147483648, 2147483646, rng.randint(-999, 999)])
                else:
                    v = rng.randint(-60000, 60000) / 64.0
                if v not in vs:
                    vs.append(v)
            self.vals[c] = vs
        self.none = {"a": 123457, "b": 0.0078125, "s": b"none"}
        self.paths, self.bytes, self.at = {}, {}, {}
        for i, st in enumerate(streams, 1):
            data = b""
            for j, t in enumerate(st, 1):
                cols = []
                for m, c in enumerate(t["cols"]):
                    used = sorted({r[m] for r in t["rows"]})
                    cols.append(defs.column(rng, self.names[c], self.ty[c], dict(enumerate(self.vals[c])), used,
                                            const=c in t["const"], width=width if c == "s" else 8,
                                            codec="constant_string" if c == "s" and c in t["const"] and width == 8 else None,
                                            plain=True))
                    if c == "s" and width == 16 and c in t["const"]:
                        self.longconst(cols[-1], self.vals[c][used[0]])
                props = [(self.keys[p], self.prop(p, (i, j))) for p in t["props"]]
                fr = T.TFrame(rng, cols, t["rows"], rng.choice("<>"), props=props)
                self.at[(i, j)] = (len(data), len(fr.bytes))
                data += fr.bytes
            self.paths[i] = os.path.join(ck.work, "%s-%d.odb" % (tag, i))
            with open(self.paths[i], "wb") as o:
                o.write(data)
            self.bytes[i] = data

    def longconst(self, col, v):
        d = col.desc
        d.pop("strings", None)
        d.update(codec="long_constant_string", strings=[v])

    def prop(self, p, at):
        return "value %s of %d %d" % ((p,) + tuple(at))

    def cell(self, c, k):
        v = self.vals[c][k]
        return self.key(c, v)

    def key(self, c, v):
        if c == "s":
            return v.split(b"\0")[0]
        return int(v) if c == "a" else float(v)

    def sql(self, how, cs, wc, v):
        if how == "copy":
            return ""
        s = "select %s" % ("*" if how == "all" else ", ".join(self.names[c] for c in cs))
        if how == "where":
            x = (self.vals.get(wc, [0, 1, 2]) + [self.none.get(wc, 3)])[v]
            s += " where %s = %s" % (self.names[wc], "'%s'" % x.decode() if wc == "s" else repr(x))
        return s

    def unpack(self, c, raw, longs):
        if c == "s":
            return raw.split(b"\0")[0]
        return int(struct.unpack("<q", raw)[0]) if c == "a" and longs else struct.unpack("<d", raw)[0]


def script(p, beh):
    rng = p.rng
    out = []
    for s in beh["log"]:
        fn, a = s["fn"], s["args"]
        if fn == "open":
            st = ["open", a[0], p.paths[a[1]], a[2], a[3] or -1, rng.choice(["path", "own", "ref"])]
        elif fn == "info":
            st = ["info", a[0], [p.names[c] for c in "absz"]]
        elif fn == "filter":
            st = ["filter", a[0], a[1], p.sql(*a[2:])]
        elif fn == "span":
            st = ["span", a[0], a[1], [p.names[c] for c in a[2]], a[3]]
        elif fn == "values":
            st = ["values", a[0], p.names[a[1]], a[2]]
        elif fn == "decode":
            st = ["decode", a[0], [p.names[c] for c in a[1]]] + a[2:7] + [rng.choice([0, 0, 8, 24])]
        else:
            st = [fn] + a
        out.append(st)
    return out


def extent(p, parts, mem):
    """Offset and length of a frame in its stream, None where it is a copy in memory of its own."""
    parts = [tuple(x) for x in parts]
    if (0, 0) in parts:
        return None
    ln = sum(p.at[x][1] for x in parts)
    return (0 if mem else p.at[parts[0]][0], ln)


def kinds(p, got):
    out = {}
    for n, (k, v) in got.items():
        if k == "dbl":
            v = [struct.unpack("<d", bytes.fromhex(x))[0] for x in v]
        elif k == "str":
            v = [bytes.fromhex(x) for x in v]
        out[n] = (k, v)
    return out


def span_ok(p, val, v):
    want = {p.names[c]: (KIND[c], {p.cell(c, k) for k in ks}) for c, ks in val["vals"]}
    got = kinds(p, v["vals"])
    if set(got) != set(want) or any(got[n][0] != want[n][0] or set(got[n][1]) != want[n][1] or len(got[n][1]) != len(want[n][1])
                                    for n in want):
        return "gives %s, expected %s" % (got, want)
    e = extent(p, val["from"], val["mem"])
    if e and (v["offset"], v["length"]) != e:
        return "is of %s, expected %s" % ((v["offset"], v["length"]), e)
    return None


def verify(p, st, s, o, beh):
    fn, a, rc, val = s["fn"], s["args"], s["rc"], s["val"]
    if fn == "info":
        v = o["v"]
        if rc == 2:
            return None if v["threw"] == v["of"] and not v["is"] else "of no frame: %s" % v
        if v["threw"] or not v["is"]:
            return "fails: %s" % v
        if v["rows"] != val["rows"] or v["ncols"] != len(val["cols"]):
            return "%d x %d, expected %d x %s" % (v["rows"], v["ncols"], val["rows"], val["cols"])
        want = [(p.names[c], p.ty[c]) for c in val["cols"]]
        if [(n, t) for n, t, _ in v["cols"]] != want:
            # a query gives REAL or DOUBLE
            if not ([0, 0] in val["from"] and [n for n, _, _ in v["cols"]] == [n for n, _ in want]):
                return "columns %s, expected %s" % (v["cols"], want)
        for n, t, z in v["cols"]:
            if z != 8 and (t != w.STRING or [0, 0] not in val["from"] and z != p.width):
                return "column %s has %d bytes" % (n, z)
        if sorted(v["has"]) != sorted(n for n, _ in want):
            return "has columns %s, expected %s" % (v["has"], want)
        props = {p.keys[k]: p.prop(k, at) for k, at in val["props"]}
        if v["props"] != props and not ([0, 0] in val["from"] and set(v["props"]) <= {"encoder"}):
            return "has properties %s, expected %s" % (v["props"], props)
        e = extent(p, val["from"], val["mem"])
        if e and (v["offset"], v["length"]) != e:
            return "is at %s, expected %s" % ((v["offset"], v["length"]), e)
        return None
    if o["rc"] != rc:
        return "gives %s (%s), expected %s" % (o["rc"], o.get("err"), rc)
    if fn == "decode":
        return decoded(p, st, s, o)
    if rc:
        return None
    if fn == "bytes":
        data = bytes.fromhex(o["v"])
        if extent(p, val["from"], False):
            want = b"".join(p.bytes[i][p.at[(i, j)][0]:sum(p.at[(i, j)])] for i, j in val["from"])
            return None if data == want else "gives other bytes (%d, expected %d)" % (len(data), len(want))
        try:
            hs = w.parse_stream(data)
        except w.WireError as e:
            return "gives no valid stream: %s" % e
        rows = []
        for h in hs:
            if [k.name for k in h["cols"]] != [p.names[c] for c in val["cols"]]:
                return "gives columns %s, expected %s" % ([k.name for k in h["cols"]], val["cols"])
            rows += [[p.key(c, x) for c, x in zip(val["cols"], r)] for r in w.expand(h, h["rows"])]
        want = [[p.cell(c, k) for c, k in zip(val["cols"], r)] for r in val["rows"]]
        return None if rows == want else "gives rows %s, expected %s" % (rows, want)
    if fn == "filter":
        return None if o["v"] == (val == [0]) else "gives a frame %s, expected %s" % (o["v"], val == [0])
    if fn in ("span", "movespan"):
        return span_ok(p, val, o["v"])
    if fn == "same":
        return None if o["v"] == bool(val[0]) else "gives %s" % o["v"]
    if fn == "values":
        k, v = kinds(p, {"x": o["v"]})["x"]
        want = {p.cell(a[1], x) for x in val}
        return None if set(v) == want and len(v) == len(want) else "gives %s, expected %s" % (v, want)
    return None


def decoded(p, st, s, o):
    cs, n, off, m = s["args"][1:5]
    pad = st[-1]
    rows = s["val"] if s["rc"] == 0 else []
    for j, (c, z, hx) in enumerate(zip(cs, o["size"], o["mem"])):
        mem = bytes.fromhex(hx)
        step = z + pad
        for i in range(-1, n + 1):
            cell, rest = mem[(i + 1) * step:(i + 1) * step + z], mem[(i + 1) * step + z:(i + 2) * step]
            if rest != b"\x5a" * pad:
                return "writes between the cells of column %s" % c
            if s["rc"] and off <= i < off + m:
                continue    # what failed on the way
            if off <= i < off + len(rows):
                want = p.cell(c, rows[i - off][j])
                got = p.unpack(c, cell, s["args"][7])
                if got != want:
                    return "decodes row %d of %s as %r, expected %r" % (i - off, c, got, want)
            elif cell != b"\x5a" * z:
                return "writes row %d of column %s, of rows %d..%d" % (i, c, off, off + len(rows) - 1)
    return None


def replay(ck, beh, tag):
    p = World(ck, beh["streams"], tag)
    steps = script(p, beh)
    rq = {"op": "cppapi", "script": steps}
    r = ck.call(rq)
    ck.call({"op": "settings", "ints": "long"})
    if "died" in r:
        ck.fail("crash", "calls %s: %s" % (steps, r["died"]), rq)
        return
    for n, (st, s, o) in enumerate(zip(steps, beh["log"], r["out"])):
        bad = verify(p, st, s, o, beh)
        if bad:
            ck.fail(s["fn"], "call %d %s %s; calls so far: %s" % (n + 1, st, bad, steps[:n]),
                    dict(rq, streams={i: d.hex() for i, d in p.bytes.items()}))
            return
        ck.count("calls")
        ck.count("calls_" + s["fn"])
        if s["rc"] == 2:
            ck.count("failing_calls")


def run(ck):
    ex, sim = behaviours(ck)
    n = ck.pick(400, 20000)
    plan = [b for x in ex for b in x[:n]] + sim
    ck.cov["behaviours_available"] = sum(map(len, ex)) + len(sim)
    ck.rng.shuffle(plan)
    ck.call({"op": "settings", "ints": "long"})
    for i, b in enumerate(plan):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = i
            break
        replay(ck, b, "t%d" % (i % 4))
        ck.traces += 1
        if i < 2:
            ck.sample({"log": b["log"][:6]})
