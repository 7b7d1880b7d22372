"""C12: SQL (Query.tla)."""
import os
import random
import struct

import defs
import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS MaxFrames = %d
 MaxRows = %d
 Lays = {%s}
 Lays2 = {%s}
 Vals = {%s}
 Tabs = %d
 Modes = {%s}
 Sampled = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS LayoutCurrent Answer Refused Answered PrefixBeforeError Emit
CHECK_DEADLOCK FALSE
"""
COLS = {1: {1: "ABF", 2: "FBA", 3: "BAFX", 4: "AF", 5: "ABF"}, 2: {1: "CD", 2: "DC", 3: "YCD"}}
NUM = (w.INTEGER, w.REAL, w.DOUBLE)
OPS = {"eq": "=", "ne": "<>", "lt": "<"}


def ints(rng):
    pool = [-2147483648, -70000, -256, -1, 0, 1, 7, 255, 256, 65535, 65536, 1000000, 2147483646]
    return sorted(rng.sample(pool, 3))


def reals(rng):
    return sorted(x / 64.0 for x in rng.sample(range(-600000, 600000), 3))


def strings(rng, width):
    out = set()
    while len(out) < 3:
        n = rng.choice([1, 3, 7, 8, width - 1, width])
        stem = "pqrstuvwPQRSTUVW01234567" if rng.random() < 0.5 else "".join(rng.choice("abcXYZ059_") for _ in range(24))
        out.add((stem[:n - 1] + rng.choice("abcde789"))[:width].encode())
    return sorted(out)


class World:
    """Names, types and values of the columns of a behaviour."""

    serial = 0   # eckit keeps the members of a bitfield column by its name, for the whole process

    def __init__(self, rng, beh):
        self.rng = rng
        World.serial += 1
        q = beh["sel"]
        atoms = [beh["w"]["x"], beh["w"]["y"]]
        ordered = {a["item"] for a in atoms if a["op"] == "lt"}
        seen = {}
        for t, tab in enumerate(beh["tabs"], 1):
            for f in tab:
                for r in f["rows"]:
                    for c, s in zip(self.letters(t, f["lay"]), r):
                        seen.setdefault(c, set()).add(s)
        numeric = set(ordered)
        if any(f["lay"] == 5 for f in beh["tabs"][0]):
            numeric.add("A")
        self.ty, self.vals, self.width = {}, {}, {}
        style = rng.choice(["%s", "%s@t%d", "%s@hdr"])
        self.name = {}
        members = rng.choice([("x", "y"), ("active", "passive"), ("b0", "b1")])
        na, nb, gap = rng.randint(1, 5), rng.randint(1, 9), rng.randint(0, 3)
        order = [("Fx", members[0], na), ("", "other", gap), ("Fy", members[1], nb)]
        if rng.random() < 0.5:
            order.reverse()
        self.bits = [(n, s) for _, n, s in order if s]
        self.member = {"Fx": members[0], "Fy": members[1]}
        off = {}
        pos = 0
        for i, n, s in order:
            off[i] = pos
            pos += s
        x0, x1 = sorted(rng.sample(range(1 << na), 2))
        y0, y1 = sorted(rng.sample(range(1 << nb), 2))
        self.part = {"Fx": {"a": x0, "b": x1}, "Fy": {"a": y0, "b": y1}}
        noise = rng.randrange(1 << gap) << off[""] if gap else 0
        fv = {s: noise | x << off["Fx"] | y << off["Fy"] for s, x, y in (("a", x0, y0), ("b", x1, y0), ("c", x0, y1))}
        for c in "ABFXCDY":
            t = 2 if c in "CDY" else 1
            base = {"A": rng.choice(["a", "lat", "col_1"]), "B": rng.choice(["b", "obsvalue"]), "F": "f%d" % World.serial, "X": "x9",
                    "C": "c", "D": "d", "Y": "y9"}[c]
            self.name[c] = style % ((base, t) if style.count("%") == 2 else base)
            if c == "F":
                ty = w.BITFIELD
            elif c in numeric or "m" in seen.get(c, ()):
                ty = rng.choice(NUM)
            else:
                ty = rng.choice(NUM + (w.STRING, w.STRING))
            self.ty[c] = ty
            self.width[c] = rng.choice([8, 16, 24]) if ty == w.STRING else 8
            if c == "F":
                v = [fv[s] for s in "abc"]
            elif c == "A" and "A" in numeric:
                self.whole = sorted(rng.sample([-70000, -3, 0, 1, 250, 70000, 1000000], 3))
                v = strings(rng, self.width[c]) if ty == w.STRING else self.whole
            else:
                v = strings(rng, self.width[c]) if ty == w.STRING else ints(rng) if ty == w.INTEGER else reals(rng)
            self.vals[c] = dict(zip("abc", v), m=None)
        self.retype = rng.choice([t for t in NUM if t != self.ty["A"]]) if self.ty["A"] in NUM else None
        if self.retype == w.INTEGER or self.ty["A"] == w.INTEGER:
            if any(f["lay"] == 5 for f in beh["tabs"][0]) and not all(v is None or v == int(v) for v in self.vals["A"].values()):
                self.vals["A"] = dict(zip("abc", self.whole), m=None)
        self.short = "@" in style and rng.random() < 0.5

    @staticmethod
    def letters(t, lay):
        return COLS[t][lay]

    def frame(self, t, f):
        rng, out = self.rng, []
        cs = self.letters(t, f["lay"])
        for k, c in enumerate(cs):
            ty = self.retype if f["lay"] == 5 and c == "A" else self.ty[c]
            vals = {s: v if v is None or isinstance(v, bytes) else int(v) if ty in (w.INTEGER, w.BITFIELD) else float(v)
                    for s, v in self.vals[c].items()}
            used = sorted({r[k] for r in f["rows"]})
            miss = None
            if ty != w.STRING and rng.random() < 0.6:
                miss = rng.choice([-1234567, 987654, 2000000000] if ty != w.BITFIELD else [16777215, 12345678])
                miss = float(miss) if ty in (w.REAL, w.DOUBLE) else miss
            width = 8
            if ty == w.STRING:
                width = max(8, -(-max([len(vals[s]) for s in used] + [1]) // 8) * 8)
                width = rng.choice([x for x in (8, 16, 24, 40) if x >= width])
                vals = {s: v for s, v in vals.items() if s in used}
            out.append(defs.column(rng, self.name[c], ty, vals, used, miss, self.bits if c == "F" else None,
                                   const=len(used) == 1 and used != ["m"] and width == 8 and rng.random() < 0.3, width=width))
        return T.TFrame(rng, out, [list(r) for r in f["rows"]], rng.choice("<<>"), [("k", "v")] * rng.randint(0, 1))

    # text of a query

    def item(self, i):
        if i in ("Fx", "Fy"):
            n = self.name["F"].split("@")
            return n[0] + "." + self.member[i] + ("" if self.short or len(n) == 1 else "@" + n[1])
        n = self.name["Y" if i == "X2" else i]
        return n.split("@")[0] if self.short else n

    def literal(self, i, s):
        v = self.part[i][s] if i in self.part else self.vals[i][s]
        if isinstance(v, bytes):
            return "'%s'" % v.decode()
        return repr(v) if isinstance(v, int) or v != int(v) else "%d" % v

    def atom(self, a):
        i = self.item(a["item"])
        if a["op"] in OPS:
            return "%s %s %s" % (i, OPS[a["op"]], self.literal(a["item"], a["sym"]))
        return i + (" is null" if a["op"] == "null" else " is not null")

    def where(self, wh):
        if wh["x"]["op"] == "true":
            return ""
        x = self.atom(wh["x"])
        k = wh["k"]
        if k == "one":
            t = x
        elif k == "not":
            t = "not (%s)" % x
        else:
            t = "(%s) %s (%s)" % (x, "and" if k == "and" else "or", self.atom(wh["y"]))
            t = "not (%s)" % t if k == "notor" else t
        return " where " + t

    def value(self, i, s):
        if s == "m":
            return None
        v = self.part[i][s] if i in self.part else self.vals["Y" if i == "X2" else i][s]
        return v if isinstance(v, bytes) else float(v)

    def type(self, i):
        return w.DOUBLE if i in self.part else self.ty["Y" if i == "X2" else i]


def cell(ty, b, miss):
    if ty == w.STRING:
        return b.split(b"\0")[0]
    return None if miss else struct.unpack("<d", b)[0] + 0.0


def show(rows):
    return str(rows[:6]) + ("..." if len(rows) > 6 else "")


def bag(rows):
    return sorted(map(repr, rows))


class Case:
    def __init__(self, rng, beh, n, work):
        self.rng, self.beh, self.n, self.work = rng, beh, n, work
        self.world = W = World(rng, beh)
        self.frames = []
        for t, tab in enumerate(beh["tabs"], 1):
            fs = [W.frame(t, f) for f in tab]
            if rng.random() < 0.3:   # frames without rows are no part of the table
                f = dict(rng.choice(tab), rows=[])
                fs.insert(rng.randint(0, len(fs)), W.frame(t, f))
            self.frames.append(fs)
        self.paths = [os.path.join(work, "q%d-%d.odb" % (n, t)) for t in range(len(self.frames))]
        for p, fs in zip(self.paths, self.frames):
            with open(p, "wb") as o:
                o.write(b"".join(f.bytes for f in fs))
        self.mode = beh["mode"]
        # results larger than the buffer of the writer are written in several frames
        self.env = {"ODB_ROWS_BUFFER_SIZE": str(rng.choice([1, 2, 5]))} if rng.random() < 0.5 else {}
        self.titles = []
        items = []
        for k, i in enumerate(beh["sel"]):
            t = W.item(i)
            full = W.item(i)
            if self.mode == "agg":
                fn = rng.choice(["count"] + (["max", "min"] if W.type(i) != w.STRING and i != "F" else []))
                items.append((fn, i, k))
                self.titles.append("%s(%s) as v%d" % (fn, t, k))
            elif i in beh["sel"][:k] or rng.random() < 0.1:
                items.append((None, i, k))
                self.titles.append("%s as v%d" % (t, k))
            else:
                items.append((None, i, k))
                self.titles.append(t)
        self.items = items
        self.agg_count = self.mode == "agg" and rng.random() < 0.5
        sel = "*" if beh["star"] else ", ".join(self.titles + (["count(*) as n"] if self.agg_count else []))
        if self.mode == "distinct":
            sel = "distinct " + sel
        self.sel, self.where = sel, W.where(beh["w"])
        self.rows = [[W.value(i, s) for i, s in zip(beh["sel"], o["v"])] for o in beh["out"]]
        self.types = [W.type(i) for i in beh["sel"]]
        if self.mode == "agg":
            self.rows = []
            if beh["count"]:
                r = []
                for (fn, i, k), g in zip(items, beh["agg"]):
                    r.append(float(g["n"]) if fn == "count" else W.value(i, g[fn]))
                self.rows = [r + ([float(beh["count"])] if self.agg_count else [])]

    def text(self, how):
        f = ""
        if len(self.paths) > 1 or how == "from":
            f = " from " + ", ".join('"%s"' % p for p in self.paths)
        return "select %s%s%s" % (self.sel, f, self.where)

    def compare(self, got):
        want = self.rows
        if self.beh["err"]:
            if self.mode == "rows" and len(self.paths) == 1 and got != want[:len(got)]:
                return "delivers %s before the error, expected %s" % (show(got), show(want))
            return None
        if self.mode == "distinct":
            have, must = {repr(r) for r in got}, {repr(r) for r in want}
            # (eckit compares values without looking whether they are missing: the member of a missing bitfield may
            # have the bits of another one)
            blurred = any(i in self.world.part and s == "m" for o in self.beh["out"] for i, s in zip(self.beh["sel"], o["v"]))
            if not have <= must if blurred else have != must:
                return "delivers %s, expected the different rows of %s" % (show(got), show(want))
            # (strings of frames with another width are not recognised by eckit)
            g = [repr(r) for r in got if None not in r and not any(isinstance(x, bytes) for x in r)]
            return None if len(g) == len(set(g)) else "delivers a row twice: %s" % show(got)
        if len(self.paths) > 1:
            return None if bag(got) == bag(want) else "delivers %s, expected in any order %s" % (show(got), show(want))
        return None if got == want else "delivers %s, expected %s" % (show(got), show(want))

    def desc(self, sql, via):
        return "%s: %s on frames %s" % (via, sql, [[(W.header(), W.bo, [W.row(j) for j in range(W.nrows)]) for W in fs]
                                                   for fs in self.frames])


def by_tool(c, out_odb):
    """The command line tool."""
    how = c.rng.choice(["i", "from"])
    sql = c.text(how)
    args = ["sql", sql] + (["-i", c.paths[0]] if len(c.paths) == 1 and how == "i" else [])
    outp = os.path.join(c.work, "q%d.out" % c.n)
    if c.rng.random() < 0.15:
        with open(outp + ".sql", "w") as o:
            o.write(sql + ";\n")
        args[1] = outp + ".sql"
    if out_odb:
        args += ["-f", "odb", "-o", outp]
    try:
        rc, out, err = T.run_tool(args, env=c.env)
        bad = c.beh["err"]
        data = open(outp, "rb").read() if out_odb and os.path.exists(outp) else b""
    finally:
        for p in (outp, outp + ".sql"):
            if os.path.exists(p):
                os.unlink(p)
    name = c.desc(sql, "odc sql" + (" -f odb" if out_odb else ""))
    if bad:
        return None if rc == 1 else "%s must be refused: exit %s" % (name, rc)
    if rc != 0:
        if rc == 1 and out_odb and c.beh["retyped"]:
            return None   # (a column of the output has one type)
        return "%s: exit %s %s" % (name, rc, err[-300:])
    if not out_odb:
        return ascii_rows(c, out.decode(), name)
    return odb_rows(c, data, name)


def odb_rows(c, data, name):
    got, heads = [], []
    try:
        for h in w.parse_stream(data):
            heads.append([(k.name, k.type, k.bits) for k in h["cols"]])
            for r in w.expand(h, h["rows"]):
                got.append([x if x is None or isinstance(x, bytes) else float(x) for x in
                            (T.norm(k.type, v, k.missing) for k, v in zip(h["cols"], r))])
    except w.WireError as e:
        return "%s writes an invalid file: %s" % (name, e)
    d = c.compare(got)
    if d:
        return "%s %s" % (name, d)
    if c.mode != "agg":
        for hd in heads:
            for (fn, i, k), ty, (n, t, b), title in zip(c.items, c.types, hd, c.titles):
                if i in ("Fx", "Fy"):
                    continue
                if t != ty and not (i == "A" and t == c.world.retype and any(f["lay"] == 5 for f in c.beh["tabs"][0])):
                    return "%s: column %s has type %s in the output" % (name, n, t)
                if i == "F" and list(b) != list(c.world.bits):
                    return "%s: column %s has fields %s, expected %s" % (name, n, b, c.world.bits)
                exp = title.split(" as ")[-1] if not c.beh["star"] else c.world.item(i)
                if n.split("@")[0] != exp.split("@")[0]:
                    return "%s: a column is named %s, expected %s" % (name, n, exp)
    return None


def ascii_rows(c, text, name):
    lines = [x for x in text.split("\n") if x.strip()]
    if not lines:
        return None if not c.rows else "%s prints nothing" % name
    got = []
    for x in lines[1:]:
        r = []
        for f in x.split("\t"):
            f = f.strip()
            try:
                r.append(None if f == "NULL" else f[1:-1].encode() if f.startswith("'") else float(f))
            except ValueError:
                return "%s prints %r" % (name, x)
        got.append(r)
    d = c.compare(got)
    return "%s prints %r and %s" % (name, text[:300], d) if d else None


def by_select(c, drv):
    how = c.rng.choice(["path", "dh", "from"]) if len(c.paths) == 1 else "from"
    sql = c.text(how)
    rq = {"op": "select", "sql": sql, "own": c.rng.random() < 0.5}
    if how == "from":
        rq["own"] = True
    else:
        rq.update(path=c.paths[0], open=how)
    r = drv(rq)
    name = c.desc(sql, "odc::Select(%s)" % how)
    if r.get("died"):
        return "%s: %s" % (name, r)
    if c.beh["err"] != (r["rc"] != 0):
        return "%s: %s" % (name, r.get("err") or "must be refused")
    types = c.types if c.mode != "agg" else [w.DOUBLE] * (len(c.types) + 1)
    got = [[cell(t, bytes.fromhex(x), m) for t, x, m in zip(types, row, ms)] for row, ms in zip(r["rows"], r["miss"])]
    d = c.compare(got)
    return "%s %s" % (name, d) if d else None


def by_filter(c, drv):
    """odc::api::filter"""
    sql = c.text(c.rng.choice(["i", "from"]))
    outp = os.path.join(c.work, "q%d.out" % c.n)
    everything = c.beh["star"] and not c.where and c.rng.random() < 0.5
    r = drv({"op": "apifilter", "sql": "" if everything else sql, "path": c.paths[0], "open": "path", "out": outp})
    name = c.desc("''" if everything else sql, "odc::api::filter")
    if r.get("died"):
        return "%s: %s" % (name, r)
    data = open(outp, "rb").read() if os.path.exists(outp) else b""
    if os.path.exists(outp):
        os.unlink(outp)
    if everything:
        return None if r["rc"] == 0 and data == b"".join(f.bytes for f in c.frames[0]) else "%s changes the data" % name
    if c.beh["err"]:
        return None if r["rc"] == 2 else "%s must be refused" % name
    if r["rc"] != 0:
        return None if c.beh["retyped"] else "%s: %s" % (name, r.get("err"))
    if r["n"] != sum(1 for _ in c.rows) and c.mode != "distinct":
        return "%s returns %s instead of %d" % (name, r["n"], len(c.rows))
    return odb_rows(c, data, name)


def by_frame(c, drv):
    """odc::api::Frame::filter"""
    sql = "" if c.beh["star"] else c.text("i")
    agg = c.rng.random() < 0.4
    beh = c.beh
    r = drv({"op": "framefilter", "sql": sql, "agg": agg, "max": -1, "path": c.paths[0], "open": "path"})
    name = c.desc(sql, "odc::api::Frame::filter%s" % (" of aggregated frames" if agg else ""))
    if r.get("died") or r.get("rc"):
        return "%s: %s" % (name, r)
    if not sql:
        return unfiltered(c, r["frames"], agg, name)
    if not agg:
        k, want = 0, []
        for f in c.frames[0]:
            if not f.nrows:
                want.append(None)
            else:
                k += 1
                want.append([row for o, row in zip(beh["out"], c.rows) if o["f"] == k])
        if len(r["frames"]) != len(want):
            return "%s: %d frames" % (name, len(r["frames"]))
    got = []
    for n, j in enumerate(r["frames"]):
        if j.get("err"):
            if not agg and want[n] is None:
                continue
            return "%s: %s" % (name, j["err"])
        rows = []
        if j["ok"]:
            cols = j["cols"]
            for i in range(j["rows"]):
                row = []
                for col, hx in zip(cols, j["data"]):
                    b = bytes.fromhex(hx)[i * col["size"]:(i + 1) * col["size"]]
                    if col["type"] == w.STRING:
                        row.append(b.split(b"\0")[0])
                    elif col["type"] in (w.INTEGER, w.BITFIELD):
                        v = float(struct.unpack("<q" if c.longs else "<d", b)[0])
                        row.append(None if v == w.MISS_INT else v)
                    else:
                        v = struct.unpack("<d", b)[0]
                        row.append(None if v == w.MISS_REAL else v + 0.0)
                rows.append(row)
        if not agg and want[n] is not None and rows != want[n]:
            return "%s: frame %d delivers %s, expected %s" % (name, n, show(rows), show(want[n]))
        got += rows
    if agg and got != c.rows:
        return "%s delivers %s, expected %s" % (name, show(got), show(c.rows))
    return None


def unfiltered(c, frames, agg, name):
    got, want = [], []
    for j in frames:
        if j.get("err"):
            return "%s: %s" % (name, j["err"])
        for i in range(j["rows"]):
            row = {}
            for col, hx in zip(j["cols"], j["data"]):
                b = bytes.fromhex(hx)[i * col["size"]:(i + 1) * col["size"]]
                row[col["name"]] = b.split(b"\0")[0] if col["type"] == w.STRING else float(
                    struct.unpack("<q" if c.longs and col["type"] in (w.INTEGER, w.BITFIELD) else "<d", b)[0])
            got.append(row)
    for f in c.frames[0]:
        for i in range(f.nrows):
            row = {}
            for col, v in zip(f.cols, f.row(i)):
                row[col.desc["name"]] = v if isinstance(v, bytes) else float(col.miss if v is None else v)
            want.append(row)
    if not agg and [j["rows"] for j in frames] != [f.nrows for f in c.frames[0]] or got != want:
        return "%s delivers %s, expected %s" % (name, show(got), show(want))
    return None


def job(a):
    kind, c = a
    return by_tool(c, kind == "odb")


def q(xs):
    return ", ".join('"%s"' % x for x in xs)


def run(ck):
    ck.d.extra["ODB_ROWS_BUFFER_SIZE"] = "3"
    ck.tlc("Query", CFG % (2, 1, "1, 2, 3, 4", "1", q("am"), 1, q(["rows"]), "FALSE", "FALSE"), workers=4)
    ck.tlc("Query", CFG % (2, 1, "1, 2", "1, 2", q("a" if not ck.thorough else "am"), 2, q(["rows"]), "FALSE", "FALSE"), workers=4)
    if ck.thorough:
        ck.tlc("Query", CFG % (3, 2, "1, 2, 4", "1", q("am"), 1, q(["rows"]), "FALSE", "FALSE"), workers=8, timeout=1500)
    sim = []
    modes = ["rows", "rows", "distinct", "agg"]
    for tabs, lays, lays2, vals, num in ((1, "1, 2, 3, 4, 5", "1", "abcm", 250), (1, "1, 2, 3", "1", "abc", 250),
                                         (1, "1, 2, 5", "1", "abm", 150), (2, "1, 2, 3", "1, 2, 3", "abcm", 150),
                                         (2, "1, 2", "1, 2", "abc", 150), (2, "1, 4, 5", "1, 2", "abm", 50)):
        sim += ck.tlc("Query", CFG % (3 if tabs == 1 else 2, 4 if tabs == 1 else 3, lays, lays2, q(vals), tabs,
                                      q(modes[1:] if num > 150 else ["rows"]), "TRUE", "TRUE"),
                      simulate=ck.pick(num, num * 15), depth=90, seed=ck.seed).prints
    ck.rng.shuffle(sim)
    ck.cov["behaviours_available"] = len(sim)
    plan = sim[:ck.pick(700, 20000)]
    done = 0
    for lo in range(0, len(plan), 96):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        cases = [Case(random.Random(ck.rng.random()), b, lo + i, ck.work) for i, b in enumerate(plan[lo:lo + 96])]
        ck.call({"op": "settings", "ints": "double"})
        for c in cases:
            bad = by_select(c, ck.call)
            ck.traces += 1
            ck.count("select")
            if bad:
                ck.fail("select", bad, c.beh)
        ck.call({"op": "settings", "ints": "long" if lo // 96 % 2 else "double"})
        for c in cases:
            b = c.beh
            c.longs = lo // 96 % 2
            bad = by_filter(c, ck.call)
            ck.count("api_filter")
            if bad:
                ck.fail("api_filter", bad, b)
            if len(c.paths) == 1 and c.mode == "rows" and not b["err"] and not (b["star"] and c.where):
                bad = by_frame(c, ck.call)
                ck.count("filter")
                if bad:
                    ck.fail("filter", bad, b)
        tool = [(ck.rng.choice(["odb", "odb", "ascii"]), c) for c in cases]
        for j, bad in zip(tool, T.parallel(job, tool)):
            ck.traces += 1
            ck.count("sql_" + j[0])
            if bad:
                ck.fail("sql_" + j[0], bad, j[1].beh)
        for c in cases:
            for p in c.paths:
                os.unlink(p)
        for k in ("err", "retyped", "star"):
            ck.count(k, sum(bool(c.beh[k]) for c in cases))
        ck.count("joins", sum(len(c.paths) > 1 for c in cases))
    ck.sample({"behaviour": plan[0]})
    scale.each(ck, ck.pick(3, 30), scale.selected)
