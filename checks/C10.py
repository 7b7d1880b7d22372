"""C10: sessions of the row writer (Writer.tla)."""
import os
import struct

import concrete
import encgen
import odbwire as w

CFG = """CONSTANTS MaxCols = %d
 MaxWidth = %d
 MaxRows = %d
 MaxActs = %d
 MaxSessions = %d
 Caps = {%s}
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS Exact Frames NothingLost InBuffer Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
"""


def behaviours(ck):
    out = ck.tlc("Writer", CFG % (2, 2, 3, 6, 1, "1, 2", "FALSE"), workers=1).prints
    ck.rng.shuffle(out)
    ck.cov["exhaustive_behaviours"] = len(out)
    out = out[:ck.pick(1200, 40000)]
    for cols, width, rows, acts, sess, caps, n in ck.pick([(4, 3, 12, 30, 3, "1, 2, 3, 5", 2500)],
                                                          [(4, 3, 12, 30, 3, "1, 2, 3, 5", 15000),
                                                           (12, 5, 40, 80, 4, "1, 3, 6", 5000)]):
        seen = set()
        for b in ck.tlc("Writer", CFG % (cols, width, rows, acts, sess, caps, "TRUE"), simulate=n, depth=acts + 2,
                        seed=ck.seed, workers=1).prints:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    return out


class Defs:
    """The columns of one definition."""

    def __init__(self, rng, widths, gen, same):
        self.widths = list(widths)
        self.cols, self.missing = [], []
        for i, wd in enumerate(widths):
            name = "%s%d%s" % ("c" if same else "g%d_" % gen, i, rng.choice(["", "", "@t"]))
            if wd:
                self.cols.append(encgen.ECol(name, w.STRING, 8 * wd, []))
                self.missing.append(None)
                continue
            ty = rng.choice([w.INTEGER, w.INTEGER, w.REAL, w.DOUBLE, w.BITFIELD])
            bits = [("b%d" % k, rng.randint(1, 6)) for k in range(rng.randint(0, 3))] if ty == w.BITFIELD else None
            self.cols.append(encgen.ECol(name, ty, 8, [], bits))
            m = None
            if rng.random() < 0.3:
                m = rng.choice([0, 1, -7, 2147483646]) if ty in (w.INTEGER, w.BITFIELD) else rng.choice([0.0, -1.5, 1e30])
            self.missing.append(m)

    def miss(self, i):
        if self.missing[i] is not None:
            return self.missing[i]
        return w.MISS_INT if self.cols[i].type in (w.INTEGER, w.BITFIELD) else w.MISS_REAL

    def spec(self):
        out = []
        for c, m in zip(self.cols, self.missing):
            d = {"name": c.name, "type": c.type}
            if c.bits:
                d["bits"] = [list(x) for x in c.bits]
            if m is not None:
                d["missing"] = struct.pack("<d", m).hex()
            out.append(d)
        return out

    def sizes(self, widths):
        return {c.name: widths[i] for i, c in enumerate(self.cols) if widths[i]}

    def row(self, rng, widths, prev):
        r = []
        for i, c in enumerate(self.cols):
            if prev is not None and rng.random() < 0.35:
                v = prev[i]
                if c.type != w.STRING or len(v) <= 8 * widths[i]:
                    r.append(v)
                    continue
            if c.type == w.STRING:
                n = rng.choice([0, 1, 7, 8, 8 * widths[i] - 1, 8 * widths[i], rng.randint(0, 8 * widths[i])])
                r.append(concrete.rand_str(rng, n, True) if n else b"")
            elif c.type in (w.INTEGER, w.BITFIELD):
                r.append(rng.choice([None, 0, rng.randint(0, 3), rng.randint(0, 300), rng.randint(-70000, 70000)
                                     if c.type == w.INTEGER else 255, 2147483647 - 3]))
            else:
                r.append(rng.choice([None, 0.0, 1.0, concrete.f32(rng.uniform(-100, 100)), 1e10 if c.type == w.DOUBLE else 2.0]))
        return r

    def cells(self, row, widths, ints):
        out = []
        for i, (c, v) in enumerate(zip(self.cols, row)):
            if c.type == w.STRING:
                out.append(v.ljust(8 * widths[i], b"\0").hex())
            else:
                out.append(c.cell(v, ints, mi=self.miss(i), md=self.miss(i)).hex())
        return out

    def want(self, row):
        return [v if c.type == w.STRING else None if v is None or v == self.miss(i) else v
                for i, (c, v) in enumerate(zip(self.cols, row))]


def sessions(acts):
    out = []
    for a in acts:
        if a["act"] == "open":
            out.append([a])
        else:
            out[-1].append(a)
    return out


def check(ck, beh, n, ints):
    rng = ck.rng
    path = os.path.join(ck.work, "w.odb")
    if os.path.exists(path):
        os.unlink(path)
    gen = 0
    defs, rows, widths = {}, [], None
    at = []              # the widths in force for each definition are in the behaviour's frames
    same = rng.random() < 0.5
    for s in sessions(beh["acts"]):
        script, want = [], []
        cur, prev = None, None
        appended = s[0]["arg"]["append"]
        if not appended:
            rows = []
        for a in s[1:]:
            act, arg = a["act"], a["arg"]
            rc = 0
            if act == "define":
                gen += 1
                widths = list(arg)
                if cur is not None and same:
                    script.append({"act": "columns", "cols": []})
                    want.append(0)
                cur, prev = Defs(rng, widths, gen, same), None
                defs[gen] = cur
                order = list(range(len(widths)))
                rng.shuffle(order)
                script.append({"act": "columns", "cols": cur.spec(), "order": order})
                pend = cur.sizes(widths)
                for i, x in enumerate(script[-1]["cols"]):     # widths can be given with the columns, or later
                    if widths[i]:
                        x["doubles"] = widths[i]
            elif act == "repeat":
                i = rng.randrange(len(cur.cols))
                j = rng.choice([k for k in range(len(cur.cols)) if k != i])
                script.append({"act": "column", "index": i, "name": cur.cols[j].name,
                               "type": rng.choice([w.INTEGER, w.STRING, w.BITFIELD])})
                if script[-1]["type"] == w.BITFIELD:
                    script[-1]["bits"] = [["x", 1]]
                rc = 2
            elif act in ("header", "flush"):
                script.append({"act": act})
            elif act == "row":
                prev = cur.row(rng, widths, prev)
                rows.append((cur, prev))
                script.append({"act": rng.choice(["row", "row", "rawrow"]), "cells": cur.cells(prev, widths, ints)})
            elif act == "norow":
                script.append({"act": "row", "cells": ["00" * 8] if rng.random() < 0.5 else []})
                rc = 2
            elif act == "resize":
                widths[arg["col"] - 1] = arg["width"]
                script.append({"act": "resize", "sizes": {cur.cols[arg["col"] - 1].name: arg["width"]}})
                if prev is not None:
                    prev = None
            elif act == "noresize":
                script.append({"act": "resize", "sizes": {"nosuch": 2}})
                rc = 2
            elif act == "prop":
                script.append({"act": "prop", "key": "p%d" % arg, "value": "v%d" % arg})
            elif act == "bufsize":
                script.append({"act": act, "n": arg})
            elif act == "close":
                break
            want.append(rc)
        closed = s[-1]["act"] == "close"
        rq = {"op": "writer", "path": path, "rows_buffer": s[0]["arg"]["cap"], "script": script,
              "stop_on_error": False, "final_close": not s[-1]["arg"] if closed else True, "at_close": True}
        if appended or rng.random() < 0.3:
            rq["append"] = appended
        r = ck.call(rq)
        if "died" in r or r.get("rc") or r.get("close_rc"):
            ck.fail("crash", "behaviour %d: the writer failed: %s" % (n, str(r)[:300]), {"beh": beh, "rq": rq})
            return
        if r["rcs"] != want:
            i = next((i for i, (x, y) in enumerate(zip(r["rcs"], want)) if x != y), 0)
            ck.fail("result", "behaviour %d: step %s returned %s (%s), expected %s" % (
                n, str(script[i])[:150], r["rcs"], r.get("err"), want), {"beh": beh, "rq": rq})
            return
        if rq["final_close"] and r["at_close"] != r["data"]:
            ck.fail("at-close", "behaviour %d: %d bytes in the file when the writer was closed, %d afterwards" % (
                n, len(r["at_close"]) // 2, len(r["data"]) // 2), {"beh": beh, "rq": rq})
            return
        if not closed:
            break
    data = bytes.fromhex(r["data"])
    try:
        frames = w.parse_stream(data)
    except w.WireError as e:
        ck.fail("format", "behaviour %d: not a valid file: %s" % (n, e), {"beh": beh, "rq": rq})
        return

    def bad(key, what):
        ck.fail(key, "behaviour %d: %s; %s" % (n, what, [(a["act"], a["arg"]) for a in beh["acts"]]), {"beh": beh, "rq": rq})
    want = beh["frames"]
    if [h["nrows"] for h in frames] != [len(f["rows"]) for f in want]:
        return bad("frames", "frames of %s rows, expected %s" % ([h["nrows"] for h in frames], [len(f["rows"]) for f in want]))
    for k, (h, f) in enumerate(zip(frames, want)):
        d = defs[f["gen"]]
        if [(c.name, c.type, c.bits) for c in h["cols"]] != [(c.name, c.type, c.bits) for c in d.cols]:
            return bad("columns", "columns of frame %d are %s, expected %s" % (k, [(c.name, c.type, c.bits) for c in h["cols"]],
                                                                              [(c.name, c.type, c.bits) for c in d.cols]))
        p = [("p%d" % i, "v%d" % i) for i in range(1, f["props"] + 1)]
        if sorted(h["props"]) != p:
            return bad("properties", "properties of frame %d are %s, expected %s" % (k, h["props"], p))
        for i, c in enumerate(h["cols"]):
            if c.type != w.STRING and c.missing != d.miss(i):
                return bad("missing", "missing value of column %d of frame %d is %r" % (i, k, c.missing))
        for j, (g, i) in enumerate(zip(w.expand(h, h["rows"]), f["rows"])):
            x = rows[i - 1][1]
            g = [v if c.type == w.STRING else None if v is None or v == c.missing else v for c, v in zip(h["cols"], g)]
            if g != d.want(x):
                return bad("row", "row %d of frame %d is %s, expected %s" % (j, k, g, d.want(x)))


def big(ck, ints):
    """A full buffer of rows that cannot be compressed; a size changed when rows are waiting."""
    rng = ck.rng
    path = os.path.join(ck.work, "w.odb")
    for size, later, n in ((10000, 1, 10000), (10000, None, 10003), (4000, 1, 9000), (3, 5000, 10)):
        vals = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
        script = [{"act": "columns", "cols": [{"name": "c%d" % i, "type": w.DOUBLE} for i in range(3)]}, {"act": "header"}]
        script += [{"act": "row", "cells": [struct.pack("<d", v).hex() for v in r]} for r in vals]
        if later:
            script.insert(3, {"act": "bufsize", "n": later})
        rq = {"op": "writer", "path": path, "rows_buffer": size, "script": script}
        r = ck.call(rq)
        if "died" in r or r.get("rc") or any(r["rcs"]) or r.get("close_rc"):
            ck.fail("big", "%d rows, buffer of %d, then %s: %s" % (n, size, later, str(r)[-200:]), {"size": size, "later": later})
            return
        hs = w.parse_stream(bytes.fromhex(r["data"]))
        want = [size] * (n // size) + ([n % size] if n % size else [])
        got = [g for h in hs for g in w.expand(h, h["rows"])]
        if [h["nrows"] for h in hs] != want or got != vals:
            ck.fail("big", "%d rows, buffer of %d, then %s: frames of %s rows" % (n, size, later, [h["nrows"] for h in hs]),
                    {"size": size, "later": later})
            return


def run(ck):
    big(ck, "long")
    behs = behaviours(ck)
    ck.rng.shuffle(behs)
    for half in range(2):
        ints = ("long", "double")[half]
        ck.call({"op": "settings", "ints": ints})
        for n, b in enumerate(behs[half::2]):
            if ck.elapsed() > ck.budget * (half + 1) / 2:
                ck.cov["cut_short_at_%s" % ints] = n
                break
            if n % 16 == 0:
                ck.call({"op": "settings", "longconst": n % 32 == 0})
            check(ck, b, n, ints)
            ck.traces += 1
            if n < 2:
                ck.sample(b)
