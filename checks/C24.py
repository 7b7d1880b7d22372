"""C24: sequences of calls of the old C interface (Legacy.tla)."""
import os
import struct

import odbwire as w
import tables as T

CFG = """CONSTANTS Readers = {%s}
 Queries = {%s}
 Writers = {%s}
 Ops = {%s}
 MaxFiles = %d
 MaxSteps = %d
 Prelude = %d
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Answer Emit
PROPERTIES Independent Grow
CHECK_DEADLOCK FALSE
"""


def q(x):
    return ", ".join('"%s"' % c for c in x.split())


def behaviours(ck):
    out = []
    for pre in (1, 2, 3):
        got = ck.tlc("Legacy", CFG % (q("r"), "", "", q("next"), 3, ck.pick(6, 7), pre, "FALSE"), workers=1).prints
        ck.rng.shuffle(got)
        out += got[:ck.pick(250, 4000)]
    for n in (3, 9):
        out += ck.tlc("Legacy", CFG % ("", q("p"), "", q("scan"), 3, n, 0, "FALSE"), workers=1).prints
    for r, p, wr, ops, files, steps, n in (("r s", "", "", "read", 3, 24, ck.pick(300, 5000)),
                                           ("", "p", "", "select", 3, 24, ck.pick(500, 8000)),
                                           ("", "", "w v", "write ask", 5, 24, ck.pick(400, 6000)),
                                           ("r s", "p q", "w v", "read select write ask", 6, 80, ck.pick(300, 5000))):
        out += ck.tlc("Legacy", CFG % (q(r), q(p), q(wr), q(ops), files, steps, 0, "TRUE"), simulate=n, depth=steps + 2, seed=ck.seed).prints
    return out


TYPE = {"int": w.INTEGER, "str": w.STRING, "bits": w.BITFIELD, "dbl": w.DOUBLE}
CAP = 8


def words(x):
    """The cell of a number or text, as it is in a row."""
    return x if isinstance(x, bytes) else struct.pack("<d", x)


class Plan:
    def __init__(self, ck, beh, n):
        self.rng = rng = ck.rng
        self.beh = beh
        self.names = {"a": rng.choice(["a", "alpha", "obs@hdr"]), "s": "station", "b": "b%d" % rng.randint(0, 9), "d": "d"}
        self.cut = rng.randint(-40, 40)
        self.cells = {}                          # (id, column) -> number, text or None
        self.miss = {}                           # (file, frame) -> {column: missing value}
        self.path = {0: "/nonexistent/x.odb"}
        for k in range(1, len(beh["files"]) + 1):
            self.path[k] = os.path.join(ck.work, "f%d.odb" % k)
            if os.path.exists(self.path[k]):
                os.remove(self.path[k])
        self.base = []
        self.offsets = {}
        for k, fs in enumerate(beh["base"]):
            data = [self.frame(k + 1, i, f) for i, f in enumerate(fs)]
            self.base.append(data)
            self.offsets[k + 1] = [len(x) for x in data]
            with open(self.path[k + 1], "wb") as fh:
                fh.write(b"".join(data))

    def value(self, c, a):
        rng = self.rng
        if c["type"] == "str":
            return bytes(rng.randint(33, 126) for _ in range(8 * c["w"]))
        if c["type"] == "bits":
            return float(rng.randint(0, 2 ** sum(c["bits"]) - 1))
        if c["type"] == "dbl":
            return rng.choice([rng.uniform(-9, 9), float(rng.randint(-9, 9)), 1e300, -0.5])
        return None if a == "m" else float(self.cut + rng.randint(1, 100) * (1 if a == "hi" else -1))

    def row(self, lay, r):
        out = []
        for c in lay:
            k = (tuple(r["id"]), c["name"])
            if k not in self.cells:
                self.cells[k] = self.value(c, r["a"])
            out.append(self.cells[k])
        return out

    def bits(self, c):
        return [("m%d" % j, b) for j, b in enumerate(c["bits"])]

    def frame(self, k, i, f):
        rng = self.rng
        rows = [self.row(f["lay"], r) for r in f["rows"]]
        cols, m = [], {}
        for j, c in enumerate(f["lay"]):
            vals = {"v%d" % n: r[j] for n, r in enumerate(rows)}
            kw, lo = {}, None
            if c["type"] == "str":
                codec = "int8_string"
                if not vals:
                    vals = {"v0": b"x" * 8 * c["w"]}
            elif c["type"] == "dbl":
                codec = "long_real"
            else:
                codec = "int32"
                vals = {s: None if v is None else int(v) for s, v in vals.items()}
                if c["name"] == "a" and rng.random() < 0.5:
                    kw["missing"] = rng.randint(-10 ** 6, -10 ** 5)
            fc = T.fixed_column(self.names[c["name"]], TYPE[c["type"]], codec, vals, bits=self.bits(c), lo=lo, **kw)
            m[c["name"]] = fc.miss
            cols.append(fc)
        self.miss[(k, i)] = m
        for r in f["rows"]:
            self.miss[tuple(r["id"])] = m
        return T.TFrame(rng, cols, [["v%d" % n for _ in f["lay"]] for n in range(len(rows))], rng.choice("<>")).bytes

    def describe(self, c, missing=None):
        d = {"name": self.names[c["name"]], "type": TYPE[c["type"]], "size": c["w"]}
        if c["type"] == "bits":
            d["names"] = "".join("%s:" % n for n, _ in self.bits(c))
            d["sizes"] = "".join("%d:" % b for _, b in self.bits(c))
        return d

    def script(self):
        out = []
        lay, sizes, miss, todo = {}, {}, {}, {}
        self.wmiss = {}                          # row written -> missing values

        def add(m, **s):
            out.append((s, m))
        for n, s in enumerate(self.beh["log"]):
            fn, it, a, v = s["fn"], s["it"], s["args"], s["val"]
            m = (n, s)
            if fn == "ropen":
                add(m, fn=fn, it=it, path=self.path[a[0]], old=self.rng.random() < 0.3)
            elif fn in ("rnext",):
                add(m, fn=fn, it=it, count=a[0], cap=CAP)
            elif fn in ("rcols", "scols", "rclose", "sclose", "wclose", "wheader"):
                if fn == "wheader" and it in todo:
                    for x in todo.pop(it):
                        add(None, **x)
                add(m, fn=fn, it=it)
                if fn == "wheader":
                    add((n, dict(s, fn="winfo")), fn="winfo", it=it, n=len(v))
                    lay[it] = v
            elif fn in ("rmissing", "smissing"):
                add(m, fn=fn, it=it, i=a[0])
            elif fn == "sopen":
                names = ", ".join("*" if x == "*" else self.names[x] for x in a[1])
                sql = "select " + names
                if a[3]:
                    add(m, fn=fn, it=it, sql=sql, path=self.path[a[0]])
                else:
                    sql += ' from "%s"' % self.path[a[0]]
                    if a[2] != "all":
                        sql += " where %s %s" % (self.names["a"], "> %d" % self.cut if a[2] == "hi" else "is not null")
                    add(m, fn=fn, it=it, sql=sql + self.rng.choice(["", ";"]))
            elif fn == "snext":
                add(m, fn=fn, it=it, count=a[0], cap=a[0])
            elif fn == "wopen":
                add(m, fn=fn, it=it, path=self.path[a[0]], append=a[1])
                todo[it], miss[it] = [], {}
            elif fn == "wcolumns":
                add(m, fn=fn, it=it, n=a[0])
                miss[it] = {}
            elif fn == "wcolumn":
                d = self.describe(v)
                x = dict(fn=fn, it=it, i=a[0] - 1, type=d["type"], name=d["name"])
                if "names" in d:
                    x.update(names=d["names"], sizes=d["sizes"])
                add(m, **x)
                later = []
                if v["w"] > 1:
                    later.append(dict(fn="wsize", it=it, i=a[0] - 1, size=v["w"]))
                if a[1]:
                    mv = float(self.rng.randint(-10 ** 6, -10 ** 5))
                    miss[it][v["name"]] = mv
                    later.append(dict(fn="wmissing", it=it, i=a[0] - 1, hex=struct.pack("<d", mv).hex()))
                # at once, or when all columns are there
                if self.rng.random() < 0.5:
                    for y in later:
                        add(None, **y)
                else:
                    todo[it] += later
            elif fn == "wrow":
                mm = {c["name"]: miss[it].get(c["name"], w.MISS_INT if c["type"] in ("int", "bits") else w.MISS_REAL) for c in v}
                rid = (1, n + 1, 1)
                self.miss[rid] = mm
                data = b""
                for c, x in zip(v, self.row(v, {"id": rid, "a": a[0]})):
                    data += words(mm[c["name"]] + 0.0 if x is None else x)
                add(m, fn=fn, it=it, hex=data.hex(), count=len(v))
            elif fn in ("count", "blocks"):
                add(m, fn=fn, path=self.path[a[0]])
            else:
                raise KeyError(fn)
        return out


def shown(p, lay, cols, missing=None):
    """-> what is wrong with the columns a program sees"""
    if cols.get("rc") != 0 or cols["n"] != len(lay):
        return "%s columns, expected %d" % (cols.get("n"), len(lay))
    off = 0
    for c, g in zip(lay, cols["cols"]):
        d = p.describe(c)
        d["offset"] = off
        off += c["w"]
        for k, x in d.items():
            if g.get(k) != x:
                return "column %s has %s %r, expected %r" % (d["name"], k, g.get(k), x)
        if "names" in d and not g["ended"]:
            return "the members of column %s are not ended" % d["name"]
        if missing is not None and c["type"] == "int":
            mv = struct.unpack("<d", bytes.fromhex(g["missing"]))[0]
            if mv != missing[c["name"]]:
                return "column %s has the missing value %r, expected %r" % (d["name"], mv, missing[c["name"]])
    if cols["width"] != off:
        return "a row has %s words, expected %d" % (cols["width"], off)
    return None


def given(p, s, o, select):
    """-> what is wrong with a row that was asked for"""
    v = s["val"]
    data = bytes.fromhex(o["data"]) if "data" in o else b""
    if v["rc"] == 2 and select:
        if o.get("rc") in (0, 1):
            return "returns %s, expected an error" % o["rc"]
        return "writes behind the buffer: %s" % data.hex() if data[8 * s["args"][0]:].strip(b"\xa5") else None
    if o.get("rc") != v["rc"]:
        return "returns %s (%s), expected %s" % (o.get("rc"), o.get("exc"), v["rc"])
    row = b""
    if v["rc"] == 0:
        if o["newds"] != int(v["newds"]):
            return "new_dataset is %s, expected %d" % (o["newds"], v["newds"])
        r = v["row"]
        rid = tuple(r["id"])
        for c, x in zip(r["lay"], p.row(r["lay"], r)):
            mv = w.MISS_INT if select else p.miss[rid].get(c["name"])
            row += words(mv + 0.0 if x is None else x)
    if data[:len(row)] != row:
        return "gives %s, expected %s" % (data[:len(row)].hex(), row.hex())
    if data[len(row):].strip(b"\xa5"):
        return "writes behind the row: %s" % data[len(row):].hex()
    return None


def verify(p, s, o):
    fn, v = s["fn"], s["val"]
    if fn in ("ropen", "sopen", "wopen"):
        ok = s["args"][0] != 0 if fn != "sopen" else v["ok"]
        if o.get("made") != 0:
            return "cannot begin: %s" % o
        if ok and (o.get("err") != 0 or o["null"]):
            return "fails: %s" % o
        if not ok and (o.get("err") in (0, None) or not o["null"]):
            return "does not return an error: %s" % o
        return None
    if fn in ("rnext", "snext"):
        return given(p, s, o, fn == "snext")
    if fn in ("rcols", "scols"):
        return str(o["exc"]) if "exc" in o else shown(p, v, o)
    if fn in ("rmissing", "smissing"):
        return None if "exc" in o or o.get("rc") else "gives %s" % o
    if fn == "count":
        return None if o.get("n") == sum(v) else "gives %s, expected %d" % (o, sum(v))
    if "exc" in o or o.get("rc") != 0:
        return "fails: %s" % o
    if fn == "winfo":
        offs = [sum(c["w"] for c in v[:i]) for i in range(len(v))]
        return None if (o["width"], o["offsets"]) == (sum(c["w"] for c in v), offs) else "gives %s, expected %s" % (o, offs)
    if fn == "wrow" and not o["kept"]:
        return "changes the row it is given"
    if fn == "blocks":
        if len(o["blocks"]) != len(v) or not o["null"]:
            return "gives %s, expected %d" % (o, len(v))
        at = 0
        want = p.offsets.get(s["args"][0])
        for i, (b, n) in enumerate(o["blocks"]):
            if b != at or (want and n != want[i]):
                return "block %d is %s, expected %s" % (i + 1, [b, n], [at, want and want[i]])
            at += n
    return None


def written(p):
    for k in range(len(p.beh["base"]) + 1, len(p.beh["files"]) + 1):
        if any(s["fn"] == "wopen" and s["args"][0] == k for s in p.beh["log"]):
            busy = None
            for s in p.beh["log"]:
                if s["fn"] == "wopen" and s["args"][0] == k:
                    busy = s["it"]
                elif s["fn"] == "wclose" and s["it"] == busy:
                    busy = None
            if busy:
                continue                         # not closed
            with open(p.path[k], "rb") as fh:
                data = fh.read()
            try:
                hs = w.parse_stream(data)
            except w.WireError as e:
                return "a file that was written is invalid: %s" % e
            fs = p.beh["files"][k - 1]
            if len(hs) != len(fs):
                return "a file has %d frames, expected %d" % (len(hs), len(fs))
            for h, f in zip(hs, fs):
                got = [(c.name, c.type, [tuple(b) for b in c.bits]) for c in h["cols"]]
                want = [(p.names[c["name"]], TYPE[c["type"]], p.bits(c)) for c in f["lay"]]
                if got != want:
                    return "a frame was written with columns %s, expected %s" % (got, want)
                rows = list(w.expand(h, h["rows"]))
                if len(rows) != len(f["rows"]):
                    return "a frame was written with %d rows, expected %d" % (len(rows), len(f["rows"]))
                for r, row in zip(f["rows"], rows):
                    for c, hc, x, g in zip(f["lay"], h["cols"], p.row(f["lay"], r), row):
                        mv = p.miss[tuple(r["id"])][c["name"]]
                        if c["type"] == "int" and hc.missing != mv:
                            return "column %s was written with the missing value %r, expected %r" % (hc.name, hc.missing, mv)
                        g = None if g == hc.missing and c["type"] == "int" else g
                        if g != x:
                            return "column %s was written as %r, expected %r" % (hc.name, g, x)
    return None


def replay(ck, beh, n):
    p = Plan(ck, beh, n)
    script = p.script()
    r = ck.call({"op": "legacy", "script": [s for s, _ in script]})
    rep = {"behaviour": beh, "script": [s for s, _ in script]}
    short = [[s["fn"], s["it"]] + s["args"] for s in beh["log"]]
    if "died" in r:
        ck.fail("crash", "calls %s: %s" % (short, r["died"][:300]), rep)
        return
    for (c, m), o in zip(script, r["out"]):
        if m is None:
            if o.get("rc") != 0:
                ck.fail("call", "%s: %s" % (c, o), rep)
                return
            continue
        bad = verify(p, m[1], o)
        if bad:
            ck.fail(m[1]["fn"], "call %d %s %s; calls so far: %s" % (m[0] + 1, [m[1]["fn"], m[1]["it"]] + m[1]["args"], bad, short[:m[0]]), rep)
            return
        ck.count(m[1]["fn"])
    bad = written(p)
    if bad:
        ck.fail("written", "%s; calls: %s" % (bad, short), rep)


def run(ck):
    todo = behaviours(ck)
    ck.rng.shuffle(todo)
    ck.call({"op": "settings", "ints": "double"})
    for i, b in enumerate(todo):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = i
            break
        replay(ck, b, i)
        ck.traces += 1
        if i < 2:
            ck.sample({"log": b["log"]})
