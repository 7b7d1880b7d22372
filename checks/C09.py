"""C09: sequences of calls of the C interface (CApi.tla)."""
import struct

import odbwire as w

CFG = """CONSTANTS Readers = {%s}
 Frames = {%s}
 Decoders = {%s}
 Encoders = {%s}
 Base = "big"
 MaxStreams = 12
 Limits = {0, 1, 3, 5}
 Names = {%s}
 RowCounts = {0, 1, 2, 3, 6}
 Ops = {%s}
 Prelude = "%s"
 MaxSteps = %d
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Shows Position Emit
PROPERTIES Failed Independent Written
CHECK_DEADLOCK FALSE
"""


def q(x):
    return ", ".join('"%s"' % c for c in x.split())


def behaviours(ck):
    ex = []
    for r, f, d, e, names, ops, prelude, n in (
            ("r", "f g", "", "", "a", "frames", "frames", 6), ("r", "f g", "", "", "a", "frames tell", "frames", 4),
            ("r", "f", "d", "", "a b z", "decoders", "decoder", ck.pick(7, 8)), ("", "", "", "e", "a b", "encoders", "encoder", 5)):
        got = ck.tlc("CApi", CFG % (q(r), q(f), q(d), q(e), q(names), q(ops), prelude, n, "FALSE"), workers=1).prints
        ck.rng.shuffle(got)
        ex.append(got)
    sim = []
    for ops, prelude, n, k in (("frames tell decoders encoders wrong", "none", 70, ck.pick(160, 3000)),
                               ("frames tell decoders", "frames", 45, ck.pick(120, 2000)),
                               ("frames tell decoders encoders", "encoder", 50, ck.pick(80, 2000))):
        sim += ck.tlc("CApi", CFG % (q("r s"), q("f g h"), q("d e"), q("e"), q("a b c z"), q(ops), prelude, n, "TRUE"),
                      simulate=k, depth=n + 2, seed=ck.seed).prints
    return ex, sim


NULLS = {"close": ["close", "null"], "free_frame": ["free_frame", "null"], "next": ["next", "null"],
         "next_agg": ["next_agg", "null", 5], "row_count": ["row_count", "null"], "props_count": ["props_count", "null"],
         "prop_idx": ["prop_idx", "null", 0], "copy": ["copy", "null", "zz"], "defaults": ["defaults", "null", "null"],
         "add_column": ["add_column", "null", "a"], "set_rows": ["set_rows", "null", 2], "decode": ["decode", "null", "null", 1],
         "eset_rows": ["eset_rows", "null", 2], "eadd_column": ["eadd_column", "null", "a", 1],
         "encode": ["encode_buffer", "null", 100], "new_frame": ["new_frame", "zz", "null"],
         "add_bitfield": ["add_bitfield", "null", 0, "m", 2], "rows": ["rows", "null"], "col_attr": ["col_attr", "null", 0]}
HUGE = [2 ** 60, 2 ** 61, 2 ** 61 + 1, 2 ** 63 - 1, 2 ** 62]


class Plan:
    def __init__(self, ck, beh):
        self.rng = rng = ck.rng
        self.beh = beh
        self.names = {"a": "alpha", "b": rng.choice(["beta@t", "b"]), "c": "c%d" % rng.randint(0, 9), "z": "zeta"}
        self.keys = {"p": "key", "q": rng.choice(["k", "key2", "Key"])}
        self.bufs, self.where = {}, {}
        self.arrays = {}      # step -> rows of values
        self.base = {}        # frame of the beginning -> {column: values}
        for i, st in enumerate(beh["base"]):
            data = b""
            for f in st:
                if f["bad"]:
                    data += rng.choice([b"\xff\xffODB", b"garbage that is no frame", b"\xff\xff", b"\0" * 40])
                    continue
                vals = {c["name"]: [rng.randint(0, 15) for _ in range(f["n"])] for c in f["cols"]}
                self.base[f["src"][1]] = vals
                cols = [dict(name=self.names[c["name"]], type=w.INTEGER if c["type"] == "num" or c["type"] == "int" else w.BITFIELD,
                             codec=rng.choice(["int8", "int16", "int32", "int8_missing"]), min=0,
                             bits=[("m%d" % j, b) for j, b in enumerate(c["bits"])]) for c in f["cols"]]
                for c in cols:
                    if c["codec"] == "int32":
                        c["min"] = 0
                rows = [(0, [vals[c["name"]][r] for c in f["cols"]]) for r in range(f["n"])]
                props = [(self.keys[p], self.value(p, f["src"])) for p in f["props"]]
                data += w.build_frame(cols, rows, props=props, bo=rng.choice("<>"))
            self.bufs["s%d" % (i + 1)] = data.hex()
            self.where[i + 1] = "s%d" % (i + 1)
        self.frames = {}
        for i, st in enumerate(beh["base"]):
            for f in st:
                self.frames[tuplify(f["src"])] = f
        self.count = len(beh["base"])

    def value(self, p, src):
        """The value of a property of the frame from src; None: anything that names the version."""
        if p == "encoder":
            return None
        if src[0] == 0:
            return "value %s %d" % (p, src[1])
        return "value %d" % [x["v"] for x in src[2] if x["k"] == p][0]

    def cells(self, src, name):
        if src[0] == 0:
            return self.base[src[1]][name]
        a = self.arrays[src[0]]
        j = src[3].index(name)
        n = self.frames[tuplify(src)]["n"]
        return [a[r][j] for r in range(src[1], src[1] + n)]

    def steps(self):
        """-> list of (step, expectation); a step is what the driver is asked to call."""
        rng = self.rng
        out = []
        for n, s in enumerate(self.beh["log"]):
            fn, a, rc = s["fn"], s["args"], s["rc"]
            pos = n + 1
            if fn == "open":
                if a[1] == 0:
                    st = ["open_path", a[0], "/nonexistent/%d" % n]
                else:
                    st = ["open_buffer", a[0], self.where[a[1]]]
            elif fn in ("row_count", "col_count", "props_count"):
                st = [fn, a[0]]
            elif fn in ("col_attr", "prop_idx"):
                st = [fn, a[0], a[1]]
            elif fn == "bit_attr":
                st = [fn, a[0], a[1], a[2]]
            elif fn == "prop":
                st = [fn, a[0], self.keys.get({0: "p", 1: "q"}.get(a[1]), "nothing")]
            elif fn == "add_column":
                st = [fn, a[0], self.names[a[1]]]
            elif fn == "set_rows":
                st = [fn, a[0], rng.choice(HUGE) if a[1] == 1000000 else rng.choice([-1, -5, -2 ** 63]) if a[1] < 0 else a[1]]
            elif fn == "dcol_size":
                st = [fn, a[0], a[1], 8]
            elif fn == "decode":
                st = [fn, a[0], a[1], a[2], []]
            elif fn == "eadd_column":
                st = [fn, a[0], self.names[a[1]], {"int": 1, "bits": 4, "bad": rng.choice([99, -1, 0, 6])}[a[2]]]
            elif fn == "add_bitfield":
                st = [fn, a[0], a[1], "m%d" % n, a[2]]
            elif fn == "eset_rows":
                st = [fn, a[0], rng.choice([-1, -2 ** 62]) if a[1] < 0 else a[1]]
            elif fn == "rows_per_frame":
                st = [fn, a[0], rng.choice([-1, -2 ** 62]) if a[1] < 0 else a[1]]
            elif fn == "earray":
                rows = [[rng.randint(0, 15) for _ in range(a[2])] for _ in range(a[1])]
                self.arrays[pos] = rows
                self.bufs["a%d" % pos] = b"".join(struct.pack("<q", x) for r in rows for x in r).hex()
                st = [fn, a[0], "a%d" % pos, 8 * a[2], a[1], 0]
            elif fn == "add_property":
                st = [fn, a[0], self.keys[a[1]], "value %d" % pos]
            elif fn == "encode":
                if rc == 0:
                    self.count += 1
                    for f in s["val"]:
                        self.frames[tuplify(f["src"])] = f
                    # what was written is a stream from now on
                    self.where[self.count] = "out%d" % pos
                name = ["out%d" % pos] if rc == 0 else []
                st = {"buffer": ["encode_buffer", a[0], 4000], "small": ["encode_buffer", a[0], rng.choice([0, 1, 60])],
                      "stream": ["encode_stream", a[0], -1], "fd": ["encode_pipe", a[0]]}[a[1]]
                if name:
                    st = st + [{"as": name[0]}]
            elif fn == "null":
                if a[0] == "type_name":
                    st = ["type_name", rng.choice([6, 99, -1])]
                elif a[0] == "integer_behaviour":
                    st = ["integer_behaviour", rng.choice([0, 3, -1, 99])]
                else:
                    st = NULLS[a[0]]
            else:
                st = [fn] + a
            out.append((st, s))
        return out


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else tuple(sorted(x.items())) if isinstance(x, dict) else x


def verify(p, st, s, o):
    """-> what is wrong with the outcome of a step, or None"""
    fn, rc, val = s["fn"], s["rc"], s["val"]
    if o["rc"] != rc:
        return "returns %s (%s), expected %s" % (o["rc"], o.get("err"), rc)
    if rc == 2:
        if not o.get("err") or o["err"] == "<unknown>":
            return "fails without a message"
        if not o["notified"]:
            return "fails and the failure handler is not called"
        if o.get("v") not in (None, -77):
            return "fails and gives %s" % o["v"]
        return None
    if o["notified"]:
        return "succeeds and calls the failure handler"
    if rc == 1 or o.get("inconsistent"):
        return "inconsistent" if o.get("inconsistent") else None
    if fn in ("row_count", "col_count", "props_count", "rows", "dcol_count"):
        want = val[0]
        if fn == "rows" and want == 1000000:
            return None if o["v"] in HUGE else "gives %s" % o["v"]
        return None if o["v"] == want else "gives %s, expected %s" % (o["v"], want)
    if fn == "col_attr":
        want = [p.names[val["name"]], 1 if val["type"] == "int" else 4, 8, len(val["bits"])]
        return None if o["v"] == want else "gives %s, expected %s" % (o["v"], want)
    if fn == "bit_attr":
        j, bits = val
        v = o["v"]
        return None if v[1:] == [sum(bits[:j]), bits[j]] and v[0] else "gives %s, expected member %d of %s" % (v, j, bits)
    if fn in ("prop", "prop_idx"):
        want = {p.keys.get(k, k): p.value(k, src) for k, src in val}
        if fn == "prop_idx":
            k, v = o["v"]
            if k not in want:
                return "gives %s, expected one of %s" % (o["v"], want)
        else:
            if not want:
                return None if o["v"] is None else "gives %s of no property" % o["v"]
            k, v = st[2], o["v"]
        ok = v == want[k] or want[k] is None and str(v).startswith("odc version ")
        return None if ok else "gives %s, expected %s" % (o["v"], want)
    if fn == "decode":
        if o["v"] != val["n"]:
            return "decodes %s rows, expected %s" % (o["v"], val["n"])
        if len(o["data"]) != len(val["cols"]):
            return "decodes %d columns, expected %d" % (len(o["data"]), len(val["cols"]))
        for name, (es, stride, hx) in zip(val["cols"], o["data"]):
            want = b"".join(struct.pack("<q", x) for src in val["src"] for x in p.cells(src, name))
            if es != 8 or hx != want.hex():
                return "decodes column %s as %s, expected %s" % (name, hx, want.hex())
        return None
    if fn == "encode":
        data = bytes.fromhex(o["data"])
        if o["v"] != len(data):
            return "says it wrote %s bytes, of %d" % (o["v"], len(data))
        try:
            hs = w.parse_stream(data)
        except w.WireError as e:
            return "writes no valid stream: %s" % e
        if len(hs) != len(val):
            return "writes %d frames, expected %d" % (len(hs), len(val))
        for h, f in zip(hs, val):
            cols = [(k.name, k.type, [b for _, b in k.bits]) for k in h["cols"]]
            want = [(p.names[c["name"]], 1 if c["type"] == "int" else 4, list(c["bits"])) for c in f["cols"]]
            if cols != want:
                return "writes columns %s, expected %s" % (cols, want)
            got = list(map(list, zip(*w.expand(h, h["rows"]))))
            exp = [p.cells(f["src"], c["name"]) for c in f["cols"]]
            if got != exp:
                return "writes values %s, expected %s" % (got, exp)
            props = {p.keys.get(k, k): p.value(k, f["src"]) for k in f["props"]}
            have = dict(h["props"])
            if set(have) != set(props) or any(v is not None and have[k] != v for k, v in props.items()):
                return "writes properties %s, expected %s" % (have, props)
    return None


def replay(ck, beh):
    p = Plan(ck, beh)
    steps = p.steps()
    rq = {"op": "capi", "script": [st for st, _ in steps], "bufs": p.bufs}
    r = ck.call(rq)
    short = [[s["fn"]] + s["args"] for _, s in steps]
    if "died" in r:
        ck.fail("crash", "calls %s: %s" % (short, r["died"]), rq)
        return
    for n, ((st, s), o) in enumerate(zip(steps, r["out"])):
        bad = verify(p, st, s, o)
        if bad:
            ck.fail(s["fn"], "call %d %s (%s) %s; calls so far: %s" % (n + 1, [s["fn"]] + s["args"], st, bad, short[:n]), rq)
            return
        ck.count("calls")
        if s["rc"] == 2:
            ck.count("failing_calls")


def run(ck):
    ex, sim = behaviours(ck)
    n = ck.pick(1700, 60000)
    plan = [b for x in ex for b in x[:n]] + sim
    ck.cov["behaviours_available"] = sum(map(len, ex)) + len(sim)
    ck.rng.shuffle(plan)
    ck.call({"op": "settings", "ints": "long"})
    for i, b in enumerate(plan):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = i
            break
        replay(ck, b)
        ck.traces += 1
        if i < 2:
            ck.sample({"log": b["log"]})
