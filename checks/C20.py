"""C20: the configured missing values (Settings.tla)."""
import os
import struct

import concrete
import encgen
import odbwire as w

CFG = """CONSTANTS Miss = {%s}
 Values = {%s}
 MaxItems = %d
 MaxRows = %d
 MaxSteps = %d
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrip Stable Emit
PROPERTIES Own
CHECK_DEADLOCK FALSE
"""
INTM = [-1, 0, 1, 5, -2147483648, 99999, 2147483646, 254, 65535]
DBLM = [0.25, -9999.0, 2.0 ** 127, -32768.0, 0.0, 1.0, 5.0]


def q(*s):
    return ", ".join('"%s"' % x for x in s)


def behaviours(ck):
    out = ck.tlc("Settings", CFG % (q("A", "B"), q("A", "B", "x"), 2, 2, 4, "FALSE"), workers=1).prints
    out = [b for b in out if b["log"][-1]["act"] in ("read", "query")]
    ck.rng.shuffle(out)
    out = out[:ck.pick(500, 6000)]
    for steps, rows, n in ck.pick([(12, 8, 260)], [(12, 8, 2500), (30, 40, 800)]):
        sim = ck.tlc("Settings", CFG % (q("A", "B", "D"), q("A", "B", "D", "x", "y"), 5, rows, steps, "TRUE"),
                     simulate=n, depth=steps + 2, seed=ck.seed).prints
        seen = set()
        for b in sim:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    return out


class Item:
    """cols: (name, type, {symbol: value}); rows: symbols; miss: the missing values at encoding."""

    def __init__(self, cols, cells, mi, md):
        self.cols, self.cells, self.mi, self.md = cols, cells, mi, md

    def missing(self, ty):
        return self.mi if ty in (w.INTEGER, w.BITFIELD) else self.md

    def written(self, ty, m, s):
        """What the cell reads as: REAL has 32 bits, unless missing."""
        return m[s]


def same(ty, got, exp, exact):
    """Whether two numbers of 8 bytes agree; a REAL that is not missing may be rounded to 32 bits."""
    if concrete.same_cell(ty, got, exp):
        return True
    if ty != w.REAL or exact:
        return False
    return struct.unpack("<d", got)[0] == concrete.f32(struct.unpack("<d", exp)[0])


class World:
    def __init__(self, ck, beh):
        rng = ck.rng
        self.ck, self.beh, self.rng = ck, beh, rng
        b, d = rng.sample(INTM, 2)
        self.mi = {"A": w.MISS_INT, "B": b, "D": d}
        b, d = rng.sample(DBLM, 2)
        self.md = {"A": w.MISS_REAL, "B": b, "D": d}
        self.items = []
        self.cur = None
        self.names = [("i0", w.INTEGER), ("i1@t", w.INTEGER), ("b0", w.BITFIELD), ("r0", w.REAL), ("r1", w.REAL),
                      ("d0@t", w.DOUBLE), ("s", w.STRING)]
        self.bits = [("m0", 1), ("m1", 7), ("m2", 20)]

    def settings(self, s):
        return self.ck.call({"op": "settings", "ints": s["ints"], "miss_int": self.mi[s["mi"]],
                             "miss_dbl": struct.pack("<d", self.md[s["md"]]).hex()})

    def columns(self):
        rng = self.rng
        out = []
        for n, ty in self.names:
            if ty == w.STRING:
                out.append((n, ty, {s: (b"<%s>" % s.encode()) for s in "ABDxy"}))
                continue
            if ty in (w.INTEGER, w.BITFIELD):
                m = dict(self.mi)
                base = rng.choice([-5, 100, -70000, 2147483000, -2147483000, 3])
                if ty == w.BITFIELD:
                    base = abs(base) % 1000000
                x = base
                y = base + rng.choice([1, 200, 254, 255, 300, 65534, 65535, 65600]) * (1 if base < 2000000000 else -1)
            else:
                m = dict(self.md)
                x = float(rng.choice([1.5, -273.25, 1e30, -3.0]))
                y = float(rng.choice([2.5, -1e-30, 7.0, 123456.789]))
                if ty == w.REAL:
                    x, y = concrete.f32(x), concrete.f32(y)
            bad = set(m.values())
            while x in bad:
                x += 1
            while y in bad or y == x:
                y += 2
            m["x"], m["y"] = x, y
            out.append((n, ty, m))
        return out

    def frame_types(self, it):
        return [ty for _, ty, _ in it.cols]

    # -- writing -------------------------------------------------------------------------------------------------
    def write(self, s, path):
        ck, rng = self.ck, self.rng
        it = Item(self.columns(), s["cells"], self.mi[s["mi"]], self.md[s["md"]])
        n = len(it.cells)
        how = rng.choice(["c", "cpp", "writer"])
        ints = s["ints"]
        if how == "writer":
            cols = []
            for name, ty, m in it.cols:
                d = {"name": name, "type": ty}
                if ty == w.BITFIELD:
                    d["bits"] = [list(b) for b in self.bits]
                cols.append(d)
            script = [{"act": "columns", "cols": cols}, {"act": "header"}]
            for c in it.cells:
                script.append({"act": "row", "cells": [concrete.pack(ty, m[c], ints).hex() for _, ty, m in it.cols]})
            r = ck.call({"op": "writer", "path": path, "rows_buffer": rng.choice([1, 2, 3, 1000]), "script": script,
                         "want_data": False})
            bad = "died" in r or r.get("rc") != 0 or any(r["rcs"]) or r.get("close_rc")
        else:
            cols = [encgen.ECol(name, ty, 8, [m[c] for c in it.cells], self.bits if ty == w.BITFIELD else None)
                    for name, ty, m in it.cols]
            r = ck.call({"op": "encode", "via": how, "dest": "file" if how == "c" and False else
                         ("dh" if how == "cpp" else "stream"), "path": path, "nrows": n,
                         "rpf": rng.choice([1, 2, 1000]), "cols": [c.spec(ints) for c in cols], "want_data": False})
            bad = "died" in r or r.get("rc") or r.get("setup_rc")
        if bad:
            ck.fail("write", "%s failed: %s" % (how, str(r)[:300]), self.beh)
            return False
        with open(path, "rb") as f:
            data = f.read()
        try:
            hs = w.parse_stream(data)
        except w.WireError as e:
            ck.fail("wire", "%s wrote an unreadable file: %s" % (how, e), self.beh)
            return False
        for h in hs:
            for k, (name, ty, m) in zip(h["cols"], it.cols):
                if ty != w.STRING and k.missing != it.missing(ty):
                    ck.fail("stored", "%s: column %s of a file written under missing values %s %s says %s" %
                            (how, name, it.mi, it.md, k.missing), self.beh)
                    return False
        it.path, it.how = path, how
        self.items.append(it)
        return True

    # -- reading -------------------------------------------------------------------------------------------------
    def cells(self, it, ty, m, ints):
        return [concrete.pack(ty, it.written(ty, m, c), ints) for c in it.cells]

    def select(self, s):
        """The items read together, the path of their frames in one file, and (item, row) of every row."""
        group = [self.items[k - 1] for k in s["sel"]]
        path = group[0].path
        if len(group) > 1:
            path = os.path.join(self.ck.work, "all.odb")
            with open(path, "wb") as f:
                for x in group:
                    f.write(open(x.path, "rb").read())
        return group, path, [(x, i) for x in group for i in range(len(x.cells))]

    def bad(self, key, what):
        self.ck.fail(key, what, self.beh)
        return False

    def note(self, note, group, how, s):
        return "%s items %s written by %s read by %s ints=%s missing now %s %s, then %s" % (
            note, s["sel"], [x.how for x in group], how, s["ints"], self.mi[s["mi"]], self.md[s["md"]],
            [(x.mi, x.md) for x in group])

    def read(self, s, note):
        ck, rng = self.ck, self.rng
        group, path, rows = self.select(s)
        ints = s["ints"]
        how = rng.choice(["c", "cpp", "iter"] + ["span"] * (len(group) == 1))
        nt = self.note(note, group, how, s)
        if how == "iter":
            r = ck.call({"op": "iter", "path": path})
            if "died" in r or r["rc"]:
                return self.bad("iter", "%s: %s" % (nt, str(r)[:200]))
            got = [(x, y, d["cols"]) for d in r["datasets"] for x, y in zip(d["rows"], d["miss"])]
            if len(got) != len(rows):
                return self.bad("iter", "%s: %d rows, expected %d" % (nt, len(got), len(rows)))
            for i, ((it, ii), (cells, miss, cols)) in enumerate(zip(rows, got)):
                for k, (name, ty, m) in enumerate(it.cols):
                    e = concrete.pack(ty, it.written(ty, m, it.cells[ii]), ints)
                    if not same(ty, bytes.fromhex(cells[k]), e, s["misr"][i]):
                        return self.bad("iter-value", "%s: row %d column %s: %s expected %s" % (nt, i, name, cells[k],
                                                                                               e.hex()))
                    if ty == w.STRING:
                        continue
                    if cols[k]["missing"] != concrete.pack(ty, it.missing(ty), ints).hex():
                        return self.bad("iter-missing-value", "%s: column %s has missing value %s" % (
                            nt, name, cols[k]["missing"]))
                    want = s["miss"][i] if ty in (w.INTEGER, w.BITFIELD) else s["misr"][i]
                    if miss[k] != want:
                        return self.bad("is-missing", "%s: row %d column %s (%s) is reported %s" % (
                            nt, i, name, m[it.cells[ii]], "missing" if miss[k] else "not missing"))
            return True
        if how == "span":
            it = group[0]
            r = ck.call({"op": "span", "open": "path", "path": path, "agg": True, "cols": [c[0] for c in it.cols]})
            if "died" in r or r.get("rc") or len(r["frames"]) != 1 or "err" in r["frames"][0]:
                return self.bad("span", "%s: %s" % (nt, str(r)[:300]))
            for name, ty, m in it.cols:
                v = r["frames"][0]["values"][name]
                exp = {it.written(ty, m, c) for c in it.cells}
                got = v["v"]
                if v["t"] == "dbl":
                    got = [struct.unpack("<d", bytes.fromhex(x))[0] for x in got]
                elif v["t"] == "str":
                    got = [bytes.fromhex(x).rstrip(b"\0") for x in got]
                if ty == w.REAL:
                    got = [x if x == it.md else concrete.f32(x) for x in got]
                    exp = {x if x == it.md else concrete.f32(x) for x in exp}
                if set(got) != exp:
                    return self.bad("span-value", "%s: span of %s is %s, expected %s" % (nt, name, got, sorted(exp)))
            return True
        rq = {"op": "decode", "via": how, "open": "path", "path": path,
              "agg": True, "layout": rng.choice(["cols", "ext_row"]), "nthreads": rng.choice([1, 1, 3])}
        r = ck.call(rq)
        if "died" in r or r.get("end_rc") != 1 or len(r["frames"]) != 1 or r["frames"][0].get("drc") != 0:
            return self.bad("decode", "%s: %s" % (nt, str(r)[:300]))
        fr = r["frames"][0]
        for k, (name, ty, _) in enumerate(group[0].cols):
            got = bytes.fromhex(fr["data"][k])
            if len(got) != 8 * len(rows):
                return self.bad("value", "%s: column %s: %d cells, expected %d" % (nt, name, len(got) // 8, len(rows)))
            for i, (it, ii) in enumerate(rows):
                m = it.cols[k][2]
                g, e = got[8 * i:8 * i + 8], concrete.pack(ty, it.written(ty, m, it.cells[ii]), ints)
                if not same(ty, g, e.ljust(8, b"\0"), m[it.cells[ii]] == it.md):
                    return self.bad("value", "%s: column %s row %d: got %s expected %s" % (nt, name, i, g.hex(), e.hex()))
        return True

    def query(self, s, note):
        group, path, rows = self.select(s)
        nt = self.note(note, group, "query", s)
        r = self.ck.call({"op": "select", "sql": 'select * from "%s"' % path})
        if "died" in r or r["rc"] or len(r["rows"]) != len(rows):
            return self.bad("query", "%s: %s" % (nt, str(r)[:300]))
        for i, (it, ii) in enumerate(rows):
            for k, (name, ty, m) in enumerate(it.cols):
                isint = ty in (w.INTEGER, w.BITFIELD)
                flag = (s["miss"] if isint else s["misr"])[i]
                now = self.mi[s["mi"]] if isint else self.md[s["md"]]
                c = it.cells[ii]
                got = bytes.fromhex(r["rows"][i][k])
                if ty == w.STRING:
                    if got.rstrip(b"\0") != m[c]:
                        return self.bad("query-value", "%s: row %d column %s: %s" % (nt, i, name, got))
                    continue
                v = now if flag else it.written(ty, m, c)
                e = concrete.pack(ty, v, s["ints"])
                if not same(ty, got, e, flag):
                    return self.bad("query-value", "%s: row %d column %s (%s): %s expected %s (%s)" %
                                    (nt, i, name, "missing" if flag else "present", got.hex(), e.hex(), v))
                if flag and not r["miss"][i][k] or r["miss"][i][k] and not flag and v != now:
                    return self.bad("query-missing", "%s: row %d column %s is reported %s" %
                                    (nt, i, name, "missing" if r["miss"][i][k] else "not missing"))
        return True


def replay(ck, beh, note):
    wd = World(ck, beh)
    first = True
    for j, s in enumerate(beh["log"]):
        nt = "%s step %d" % (note, j + 1)
        if first or s["act"].startswith("set"):
            r = wd.settings(s)
            first = False
            if "died" in r:
                ck.fail("crash", "%s: %s" % (nt, r["died"][:200]), beh)
                return
            if r["miss_int"] != wd.mi[s["mi"]] or \
                    struct.unpack("<d", bytes.fromhex(r["miss_dbl"]))[0] != wd.md[s["md"]]:
                ck.fail("settings", "%s: set to %s %s, told %s %s" % (nt, wd.mi[s["mi"]], wd.md[s["md"]],
                                                                     r["miss_int"], r["miss_dbl"]), beh)
                return
        ok = True
        if s["act"] == "write":
            ok = wd.write(s, os.path.join(ck.work, "i%d.odb" % s["n"]))
        elif s["act"] == "read":
            ok = wd.read(s, nt)
        elif s["act"] == "query":
            ok = wd.query(s, nt)
        if not ok:
            return


def run(ck):
    ck.assumptions += ["integers and integer missing values fit 32 bits; the missing value of reals is not a NaN"]
    for n, b in enumerate(behaviours(ck)):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = n
            break
        replay(ck, b, "history %d" % n)
        ck.traces += 1
        if n < 2:
            ck.sample(b["log"])
