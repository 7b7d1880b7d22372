"""Long files (Scale.tla): the same guarantees at sizes where counters, buffers and tables come to their limits."""
import os
import random
import struct

import odbwire as w
import tables as T

CFG = """CONSTANTS Lengths = {%s}
 Reps = {%s}
 Values = {0, 1, 2, 3}
 Limits = {%s}
 MaxBlocks = %d
 MaxRuns = %d
 MaxRows = %d
 Small = %s
 Sampled = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Exact Grouped Emit
CHECK_DEADLOCK FALSE
"""
LONG = "1, 2, 255, 256, 257, 4096, 9999, 10000, 10001, 32767, 32768, 32769, 65535, 65536, 65537"
HEAD = [("seqno@hdr", w.INTEGER), ("s@body", w.STRING), ("n@body", w.INTEGER), ("x@body", w.DOUBLE)]


def late(b):
    """How far into what is decoded together the last frame of it starts."""
    at = best = 0
    left = list(b["groups"])
    for n in b["frames"]:
        if at + n > left[0]:
            left.pop(0)
            at = 0
        best = max(best, at)
        at += n
    return best


def behaviours(ck, n, maxrows=140000, reps="1, 1, 2, 300", first=None):
    """n files; the formulas the model gives for them are checked against the rows themselves for small files."""
    small = ck.pick(("1, 2", 6), ("1, 2, 3", 10))
    sim = ck.tlc_many([
        ("Scale", CFG % (small[0], "1, 2", "3, 6", 2, 2, small[1], "TRUE", "FALSE", "FALSE"), {"workers": 4, "timeout": 900}),
        ("Scale", CFG % (LONG, reps, "10000, 65536, 100000", 4, 3, maxrows, "FALSE", "TRUE", "TRUE"),
         {"simulate": 40 * n, "depth": 8, "seed": ck.seed})])[1].prints
    ck.rng.shuffle(sim)
    sim.sort(key=lambda b: b["rows"] < 9999)     # the short ones last
    out, seen = [], set()
    if first:                                    # every other one as asked
        a = [b for b in sim if first(b)]
        sim = [x for p in zip(a, sim) for x in p] + sim
    for b in sim:                                # no two of the same rows
        if b["rows"] not in seen:
            seen.add(b["rows"])
            out.append(b)
    return out[:n]


class Big:
    def __init__(self, rng, beh, frames=None, change=None):
        self.beh, self.rng = beh, rng
        near = rng.random() < 0.5
        lo = rng.choice([0, 1, -3, 65000, 1000000])
        self.seq = [lo + (k if near else k * rng.choice([90, 300, 70000])) for k in range(4)]
        self.str = [b"a", b"", b"string of sixteen"[:16], b"8 bytes."]
        rng.shuffle(self.str)
        v = []
        for b in beh["file"]:
            v += [r["v"] for r in b["runs"] for _ in range(r["n"])] * b["rep"]
        assert len(v) == beh["rows"]
        self.rows = [(self.seq[k], self.str[k], i + 1, (i + 1) / 4.0) for i, k in enumerate(v)]
        self.sizes = frames or beh["frames"]

    def other(self, rng):
        """The rows cut in other places, with the change."""
        b = Big.__new__(Big)
        b.__dict__.update(self.__dict__)
        b.rng = rng
        b.rows = list(self.rows)
        c = self.beh["change"]
        p = c["at"] - 1
        if c["how"] == "drop":
            del b.rows[p]
        elif c["how"] == "value":
            q, s, n, x = b.rows[p]
            b.rows[p] = rng.choice([(q, s, -n, x), (q, s, n, x + 1e-3 * abs(x) + 1), (q, b"Z", n, x), (q + 1, s, n, x)])
        b.sizes, left = [], len(b.rows)
        while left:
            n = min(left, rng.choice([left, 10000, 65536, 30001, 25000]))
            b.sizes.append(n)
            left -= n
        return b

    def build(self, path):
        rng, out, at = self.rng, [], 0
        self.frames = []
        for n in self.sizes:
            part = self.rows[at:at + n]
            at += n
            self.frames.append(self.frame(part, rng))
        with open(path, "wb") as o:
            for f in self.frames:
                o.write(f)
        self.path = path
        return self

    def frame(self, part, rng):
        head = getattr(self, "head", HEAD)
        bo = rng.choice("<<>")
        qs = sorted({r[0] for r in part})
        ss = sorted({r[1] for r in part})
        ns = [r[2] for r in part]
        wide = qs[-1] - qs[0]
        qc = rng.choice(["int32"] + (["int8", "int8_missing"] if wide < 255 else []) + (["int16", "int16_missing"] if wide < 65535 else []) +
                        (["constant"] if wide == 0 else []))
        nlo, nhi = min(ns), max(ns)
        nc = rng.choice(["int32"] + (["int16"] if nhi - nlo <= 65535 else []) + (["int8"] if nhi - nlo <= 255 else []))
        sc = rng.choice(["int8_string", "int16_string"])
        cols = [dict(name=head[0][0], type=w.INTEGER, codec=qc, min=qs[0], max=qs[-1], hasMissing=0),
                dict(name=head[1][0], type=w.STRING, codec=sc, strings=[x.ljust(16, b"\0") for x in ss], min=0, max=0, missing=0.0),
                dict(name=head[2][0], type=w.INTEGER, codec=nc, min=nlo, max=nhi, hasMissing=0),
                dict(name=head[3][0], type=w.DOUBLE, codec="long_real", min=part[0][3], max=part[-1][3], hasMissing=0)]
        fq = {q: w.encode_value(bo, cols[0], q) for q in qs}
        fs = {s: struct.pack("B" if sc == "int8_string" else bo + "H", ss.index(s)) for s in ss}
        tail = struct.Struct(bo + {"int32": "i", "int16": "H", "int8": "B"}[nc] + "d")
        base = nlo if nc != "int32" else 0
        m2, m0, out, last = struct.pack(">H", 2), struct.pack(">H", 0), [], None
        for q, s, n, x in part:
            if (q, s) == last:
                out.append(m2 + tail.pack(n - base, x))
            else:
                last = (q, s)
                out.append(m0 + fq[q] + fs[s] + tail.pack(n - base, x))
        return w.build_frame(cols, None, bo=bo, nrows=len(part), data=b"".join(out))

    def table(self):
        return [(HEAD, [q, s, n, x]) for q, s, n, x in self.rows]

    def desc(self):
        return "%d rows in %d frames (%s)" % (len(self.rows), len(self.sizes), self.beh["file"])


def each(ck, n, fn, **kw):
    """fn(ck, big, beh, rng) -> what is wrong, or None; for n files"""
    for i, beh in enumerate(behaviours(ck, n, **kw)):
        rng = random.Random(ck.rng.random())
        big = Big(rng, beh).build(os.path.join(ck.work, "scale.odb"))
        bad = fn(ck, big, beh, rng)
        ck.traces += 1
        ck.count("long_files")
        ck.cov["longest_file"] = max(ck.cov.get("longest_file", 0), beh["rows"])
        if bad:
            ck.fail("scale", "%s: %s" % (big.desc()[:600], bad), {"behaviour": beh, "values": big.seq})
    for f in os.listdir(ck.work):
        if f.startswith("scale"):
            p = os.path.join(ck.work, f)
            if os.path.isfile(p):
                os.unlink(p)


def decoded(agg):
    def go(ck, big, beh, rng):
        """The reading interfaces give each row once, in frames of the sizes expected."""
        ck.call({"op": "settings", "ints": "long"})
        lim = beh["limit"] if agg else 0
        sizes = beh["groups"] if agg else beh["frames"]
        rq = {"op": "decode", "via": rng.choice(["c", "cpp"]), "open": "path", "path": big.path, "agg": agg, "max": lim or -1,
              "layout": "cols", "nthreads": rng.choice([1, 1, 3, 8]), "want_data": True}
        r = ck.call(rq, 120)
        if "died" in r:
            return "reader crashed: %s" % r["died"][:200]
        name = "%s limit %s threads %d" % (rq["via"], lim, rq["nthreads"])
        got = [f["rows"] for f in r["frames"]]
        if r.get("end_rc") != 1 or got != sizes:
            return "%s: frames of %s rows (end %s), expected %s" % (name, got[:20], r.get("end_rc"), sizes[:20])
        at = 0
        for i, f in enumerate(r["frames"]):
            part = big.rows[at:at + f["rows"]]
            at += f["rows"]
            if f.get("drc") != 0:
                return "%s frame %d: %s" % (name, i, f.get("derr"))
            n = len(part)
            for k, want in ((0, struct.pack("<%dq" % n, *[p[0] for p in part])), (1, [p[1] for p in part]),
                            (2, struct.pack("<%dq" % n, *[p[2] for p in part])), (3, struct.pack("<%dd" % n, *[p[3] for p in part]))):
                b = bytes.fromhex(f["data"][k])
                if k == 1:
                    wd = len(b) // n
                    want = b"".join(s.ljust(wd, b"\0") for s in want)
                if b != want:
                    j = next((j for j in range(0, min(len(b), len(want))) if b[j] != want[j]), -1)
                    return "%s frame %d column %s differs at byte %d of %d" % (name, i, HEAD[k][0], j, len(want))
        return None
    return go


def spans(ck, big, beh, rng):
    """The values a span of frames has are those that the rows have."""
    ck.call({"op": "settings", "ints": "long"})
    rq = {"op": "span", "agg": True, "max": beh["limit"] or -1, "cols": ["seqno@hdr", "s@body"], "only_constant": False,
          "open": "path", "path": big.path}
    r = ck.call(rq, 120)
    if "died" in r:
        return "span crashed: %s" % r["died"][:200]
    if r["rc"] or len(r["frames"]) != len(beh["groups"]):
        return "%d frames (%s), expected %d" % (len(r["frames"]), r.get("err"), len(beh["groups"]))
    at = 0
    for i, (f, n) in enumerate(zip(r["frames"], beh["groups"])):
        part = big.rows[at:at + n]
        at += n
        q, s = f["values"]["seqno@hdr"]["v"], [bytes.fromhex(x) for x in f["values"]["s@body"]["v"]]
        if sorted(q) != sorted({p[0] for p in part}) or sorted(s) != sorted({p[1] for p in part}):
            return "the span of frame %d has %s and %s" % (i, sorted(q)[:9], sorted(s)[:9])
    return None


def selected(ck, big, beh, rng):
    """What is counted, found and grouped is what the runs say."""
    def sql(text):
        rc, out, err = T.run_tool(["sql", text, "-i", big.path, "-T"], timeout=120)
        if rc != 0:
            return "odc sql '%s': exit %s %s" % (text, rc, err[-200:])
        return [ln.split() for ln in out.decode().splitlines()]
    for v in beh["vals"]:
        q = big.seq[v["v"]]
        t = "select count(n), min(n), max(n) where seqno=%d" % q
        got = sql(t)
        want = [v["n"], v["first"], v["last"]]
        if isinstance(got, str) or [[float(x) for x in r] for r in got] != [want]:
            return "%s gives %s, expected %s" % (t, got, want)
    got = sql("select distinct seqno")
    want = sorted(big.seq[v["v"]] for v in beh["vals"])
    if isinstance(got, str) or sorted(int(r[0]) for r in got) != want:
        return "the values of the column are %s, expected %s" % (got, want)
    k = rng.choice(beh["vals"])
    edges = sorted({1, beh["rows"], k["first"], k["last"]})
    t = "select n, seqno, x where n in (%s)" % ",".join(map(str, edges))
    got = sql(t)
    want = [[float(n), float(big.rows[n - 1][0]), big.rows[n - 1][3]] for n in edges]
    if isinstance(got, str) or [[float(x) for x in r] for r in got] != want:
        return "%s gives %s, expected %s" % (t, got, want)
    got = sql("select seqno, count(n), max(x) order by seqno")
    want = sorted([float(big.seq[v["v"]]), float(v["n"]), v["last"] / 4.0] for v in beh["vals"])
    if isinstance(got, str) or sorted([[float(x) for x in r] for r in got]) != want:
        return "grouping by the column gives %s, expected %s" % (got, want)
    return None


def cut(n, k=10000):
    return [k] * (n // k) + ([n % k] if n % k else [])


def same_table(path, want, sizes, what):
    try:
        data = open(path, "rb").read()
        d = T.diff(T.of_bytes(data), want)
        got = [h["nrows"] for h in w.parse_stream(data)]
    except w.WireError as e:
        return "%s writes a file that is not valid: %s" % (what, e)
    if d:
        return "%s: %s" % (what, d)
    return "%s: frames of %s rows" % (what, got[:30]) if sizes is not None and got != sizes else None


def rewritten(ck, big, beh, rng):
    q = os.path.join(ck.work, "scale.out")
    rc, out, err = T.run_tool(["compact", big.path, q], timeout=120)
    if rc != 0:
        return "odc compact: exit %s %s" % (rc, err[-200:])
    return same_table(q, big.table(), cut(beh["rows"]), "odc compact")


def merged(ck, big, beh, rng):
    """With a file of the same rows, cut in other places, whose columns have other names"""
    o = big.other(rng)
    o.head = [(n.split("@")[0] + "@two", t) for n, t in HEAD]
    q = os.path.join(ck.work, "scale.out")
    o.build(os.path.join(ck.work, "scale2.odb"))
    rc, out, err = T.run_tool(["merge", "-o", q, big.path, o.path], timeout=120)
    if rc != 0:
        return "odc merge: exit %s %s" % (rc, err[-200:])
    n = min(len(big.rows), len(o.rows))
    want = [(HEAD + o.head, list(a) + list(b)) for a, b in zip(big.rows[:n], o.rows[:n])]
    return same_table(q, want, None, "odc merge")


def compared(ck, big, beh, rng):
    o = big.other(rng)
    o.build(os.path.join(ck.work, "scale2.odb"))
    same = beh["change"]["how"] == "none"
    rc, out, err = T.run_tool(["compare", big.path, o.path], timeout=120)
    if rc != (0 if same else 1):
        return "odc compare: exit %s with change %s %s" % (rc, beh["change"], (out + err)[-300:])
    return None


def imported(ck, big, beh, rng):
    t, q = os.path.join(ck.work, "scale.csv"), os.path.join(ck.work, "scale.out")
    with open(t, "w") as o:
        o.write("seqno@hdr:INTEGER,s@body:STRING,n@body:INTEGER,x@body:DOUBLE\n")
        for a, s, n, x in big.rows:
            o.write("%d,%s,%d,%r\n" % (a, (s or b"e").decode(), n, x))
    rc, out, err = T.run_tool(["import", "-d", ",", t, q], timeout=120)
    if rc != 0:
        return "odc import: exit %s %s" % (rc, err[-200:])
    return same_table(q, [(HEAD, [a, s or b"e", n, x]) for a, s, n, x in big.rows], None, "odc import")


def listed(ck, big, beh, rng):
    rc, out, err = T.run_tool(["count", big.path], timeout=120)
    if rc != 0 or out.split() != [b"%d" % beh["rows"]]:
        return "odc count: exit %s %r, expected %d" % (rc, out[:60], beh["rows"])
    rc, out, err = T.run_tool(["header", big.path, "-offsets"], timeout=120)
    offs, want = 0, []
    for f, n in zip(big.frames, beh["frames"]):
        want.append([str(x) for x in (offs, len(f), n, 4)])
        offs += len(f)
    got = [ln.split() for ln in out.decode().splitlines()]
    if rc != 0 or got != want:
        return "odc header -offsets: exit %s, %d lines %s" % (rc, len(got), [g for g, x in zip(got, want) if g != x][:3])
    q = os.path.join(ck.work, "scale.idx")
    rc, out, err = T.run_tool(["index", big.path, q], timeout=120)
    if rc != 0:
        return "odc index: exit %s %s" % (rc, err[-200:])
    rows = [r[1] for r in T.of_bytes(open(q, "rb").read())]
    if len(rows) != beh["runs"]:
        return "odc index makes %d entries for %d runs" % (len(rows), beh["runs"])
    at, offs, want = 0, 0, []
    for f, n in zip(big.frames, beh["frames"]):
        last = None
        for p in big.rows[at:at + n]:
            if p[0] == last:
                want[-1][3] += 1
            else:
                want.append([offs, len(f), p[0], 1])
                last = p[0]
        at += n
        offs += len(f)
    bad = [(a, b) for a, b in zip(rows, want) if a != b]
    return "odc index: entry %s, expected %s" % bad[0] if bad else None


def split(ck, big, beh, rng):
    d = os.path.join(ck.work, "scale-parts")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    args = ["split"] + rng.choice([[], [], ["-maxopenfiles", "2"]]) + [big.path, d + "/{seqno}.odb"]
    rc, out, err = T.run_tool(args, timeout=120)
    if rc != 0:
        return "odc %s: exit %s %s" % (args[:-2], rc, (out + err)[-200:])
    want = {}
    for p in big.rows:
        want.setdefault("%d.odb" % p[0], []).append((HEAD, list(p)))
    if sorted(os.listdir(d)) != sorted(want):
        return "odc split makes %s, expected %s" % (sorted(os.listdir(d)), sorted(want))
    for f, rows in want.items():
        bad = same_table(os.path.join(d, f), rows, None, "odc split, " + f)
        if bad:
            return bad
    return None


def printed(ck, big, beh, rng):
    for args in (["ls", big.path], ["sql", "select seqno, s, n, x", "-i", big.path, "-T"]):
        rc, out, err = T.run_tool(args, timeout=120)
        lines = out.decode().splitlines()
        if rc != 0:
            return "odc %s: exit %s %s" % (args[0], rc, err[-200:])
        if args[0] == "ls":
            lines = [ln for ln in lines if "seqno@hdr" not in ln and not ln.startswith("Selected")]
        if len(lines) != beh["rows"]:
            return "odc %s prints %d rows, expected %d" % (args[0], len(lines), beh["rows"])
        for ln, r in zip(lines, big.rows):
            f = ln.split()
            if int(f[0]) != r[0] or int(f[-2]) != r[2] or abs(float(f[-1]) - r[3]) > 1e-4 * r[3]:
                return "odc %s prints %r for %s" % (args[0], ln, r)
    return None
