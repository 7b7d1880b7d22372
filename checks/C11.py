"""C11: rows dispatched to files by their values: odc split, DispatchingWriter, odc sql -f odb (Split.tla)."""
import os
import random
import shutil
import struct

import concrete
import defs
import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS Keys = {%s}
 Defs = {%s}
 MaxOpens = {%s}
 MaxRows = %d
 MaxActs = %d
 MaxSessions = %d
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS Bounded Routed Complete Emit
CHECK_DEADLOCK FALSE
"""


def behaviours(ck):
    out = ck.tlc("Split", CFG % ("1, 2, 3", "1, 2", "1, 2", 5, 7, 1, "FALSE"), workers=2).prints
    ck.cov["exhaustive_behaviours"] = len(out)
    ck.rng.shuffle(out)
    out = out[:ck.pick(500, 15000)]
    for keys, nd, mo, rows, acts, sess, n in ck.pick([(6, "1, 2, 3", "1, 2, 3, 9", 20, 34, 3, 700)],
                                                     [(6, "1, 2, 3", "1, 2, 3, 9", 20, 34, 3, 10000),
                                                      (14, "1, 2, 3", "1, 3, 8, 20", 80, 110, 4, 1500)]):
        seen = set()
        for b in ck.tlc("Split", CFG % (", ".join(str(k) for k in range(1, keys + 1)), nd, mo, rows, acts, sess, "TRUE"),
                        simulate=n, depth=acts + 2, seed=ck.seed, workers=2).prints:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    return out


def text(ty, v, miss):
    """The part of a file name."""
    if ty == w.STRING:
        n = 0
        while n < len(v) and 0x20 <= v[n] < 0x7f:
            n += 1
        return v[:n].strip(b" ").replace(b"/", b"__SLASH__").decode()
    return str(int(miss if v is None else v))


class Plan:
    def __init__(self, rng, beh, ints):
        self.rng, self.beh, self.ints = rng, beh, ints
        keys = sorted({a["arg"] for a in beh["acts"] if a["act"] == "row"} | {1, 2})
        nk = rng.choice([1, 1, 2])
        at = rng.choice(["", "", "@t"])
        self.simple = rng.random() < 0.3       # only the widths of strings differ, as odc sql needs
        while True:
            self.kcols = []
            for i in range(nk):
                ty = rng.choice([w.INTEGER, w.BITFIELD, w.REAL, w.DOUBLE, w.STRING, w.STRING, w.STRING])
                miss = w.MISS_INT if ty in (w.INTEGER, w.BITFIELD) else w.MISS_REAL
                if not self.simple and rng.random() < 0.3:
                    miss = -1 if ty == w.INTEGER else 1023 if ty == w.BITFIELD else -1.0
                self.kcols.append(("kj"[i] + at, ty, rng.choice([1, 1, 2, 3]) if ty == w.STRING else 1, miss))
            self.keys = {}
            for k in keys:
                self.keys[k] = self.key_values(k)
            if beh["share"] and not self.alias():
                continue
            if len({self.parts(k) for k in keys}) == len(keys) - (1 if beh["share"] else 0):
                self.template()
                names = {self.name(k) for k in keys}
                if any(x in ("", ".", "..") for n in names for x in n.split("/")):
                    continue
                if len(names) == len(keys) - (1 if beh["share"] else 0):
                    break
        self.vals, self.variants = {}, {}
        self.vtype = rng.choice([w.INTEGER, w.REAL, w.DOUBLE, w.BITFIELD])
        self.bits = rng.choice([([("x", 3), ("y", 7)], [("x", 3), ("z", 7)]), ([("x", 10)], [("x", 3), ("y", 7)])])
        self.order = {}
        self.ids = {}
        for d in (1, 2, 3):
            self.variants[d] = set()
            if d > 1 and not self.simple:
                self.variants[d] = {x for x in ("order", "extra", "bits", "missing", "type") if rng.random() < 0.35}
        self.swidth = {1: rng.choice([1, 2]), 2: rng.choice([1, 2, 3]), 3: rng.choice([1, 2, 4])}
        self.kwidth = {d: [c[2] + (rng.choice([0, 0, 1]) if d > 1 and c[1] == w.STRING else 0) for c in self.kcols] for d in (1, 2, 3)}

    def key_values(self, k):
        rng, out = self.rng, []
        for name, ty, wd, miss in self.kcols:
            if ty == w.STRING:
                n = rng.choice([1, 2, 7, 8, 8 * wd, rng.randint(0, 8 * wd)])
                base = self.same_start if rng.random() < 0.5 and hasattr(self, "same_start") else b""
                s = (base + bytes(rng.choice(b"abcXYZ0189_ ./-") for _ in range(n)))[:8 * wd]
                self.same_start = s[:8].ljust(8, b"q") if wd > 1 else s[:rng.randint(0, 4)]
                if rng.random() < 0.1 and s:
                    s = s[:-1] + b"\xe9"
                if s.strip(b" .") == b"" or s[:1] == b".":
                    s = b"f" + s[1:]
                out.append(s)
            elif ty == w.INTEGER:
                out.append(rng.choice([None, 0, 1, -1, k, 1000 + k, -2147483648, 2147483646, rng.randint(-10**6, 10**6)]))
            elif ty == w.BITFIELD:
                out.append(rng.choice([None, 0, 1, k, 3, 512]))
            else:
                out.append(rng.choice([None, 0.0, float(k), k + 0.5, -k - 0.25, 1e6 + k, rng.randint(-1000, 1000) / 8.0]))
        return [None if v == c[3] else v for v, c in zip(out, self.kcols)]

    def alias(self):
        """Gives the key 2 values other than those of the key 1 with the same name."""
        rng = self.rng
        v = list(self.keys[1])
        idx = list(range(len(v)))
        rng.shuffle(idx)
        for i in idx:
            name, ty, wd, miss = self.kcols[i]
            if ty in (w.REAL, w.DOUBLE) and v[i] is not None:
                x = int(v[i]) + (0.375 if v[i] >= 0 else -0.375)
                if x != v[i] and int(x) == int(v[i]):
                    v[i] = x
                    break
            if ty == w.STRING:
                c = [b" " + v[i], v[i] + b" ", v[i] + b"\xe9x", v[i] + b" \x01", v[i].replace(b"/", b"__SLASH__"),
                     v[i].replace(b"__SLASH__", b"/")]
                c = [x for x in c if x != v[i] and len(x) <= 8 * wd and text(ty, x, 0) == text(ty, v[i], 0)]
                if c:
                    v[i] = rng.choice(c)
                    break
        else:
            if rng.random() < 0.7:
                return False
        self.keys[2] = v
        return True

    def parts(self, k):
        return tuple(text(c[1], v, c[3]) for c, v in zip(self.kcols, self.keys[k]))

    def template(self):
        rng = self.rng
        ns = ["{%s}" % (c[0] if rng.random() < 0.5 else c[0].split("@")[0]) for c in self.kcols]
        if len(ns) == 1:
            t = rng.choice(["out.%s.odb", "%s", "x%s", "%s.odb", "d_%s/f.odb", "d/%s.odb", "a_long_name_%s_%s_x.odb"])
            self.nth = [0] * t.count("%s")
        else:
            t = rng.choice(["out.%s.%s.odb", "%s%s", "d_%s/%s.odb", "%s_%s"])
            self.nth = [0, 1]
        if rng.random() < 0.3 and len(ns) == 2:
            self.nth.reverse()
        self.tmpl = t % tuple(ns[i] for i in self.nth)
        self.fmt = t

    def name(self, k):
        p = self.parts(k)
        return self.fmt % tuple(p[i] for i in self.nth)

    def frame_columns(self, d, rids, session_kind):
        """-> [FCol] and the symbols of each row"""
        rng = self.rng
        var = self.variants[d] if session_kind == "pass" else set()
        cols = []
        for i, (name, ty, wd, miss) in enumerate(self.kcols):
            bits = [("b", 10)] if ty == w.BITFIELD else None
            values = {k: self.keys[k][i] for k in self.keys}
            used = sorted({self.rows[r][0] for r in rids})
            cols.append(defs.column(rng, name, ty, values, used, None if ty == w.STRING else miss, bits,
                                    const=len(used) == 1 and rng.random() < 0.3, width=8 * self.kwidth[d][i]))
        cols.append(defs.column(rng, "r", w.INTEGER, {r: r for r in rids}, rids, w.MISS_INT))
        t = self.vtype
        if "type" in var:
            t = w.INTEGER if t != w.INTEGER else w.DOUBLE
        mi = {w.INTEGER: w.MISS_INT, w.BITFIELD: w.MISS_INT}.get(t, w.MISS_REAL)
        if "missing" in var:
            mi = 12345 if t == w.INTEGER else 1022 if t == w.BITFIELD else -0.125
        bits = self.bits[1 if "bits" in var else 0] if t == w.BITFIELD else None
        values = {r: self.rows[r][2].get(t) for r in rids}
        cols.append(defs.column(rng, "v", t, values, rids, mi, bits))
        wd = 8 * self.swidth[d]
        values = {r: self.rows[r][3][:wd] for r in rids}
        cols.append(defs.column(rng, "s", w.STRING, values, rids, width=wd))
        if "extra" in var:
            cols.append(defs.column(rng, "e", w.INTEGER, {r: 7 for r in rids}, rids, w.MISS_INT))
        kcount = len(self.kcols)
        syms = [[self.rows[r][0]] * kcount + [r] * (len(cols) - kcount) for r in rids]
        if d not in self.order or session_kind == "rows":
            o = list(range(len(cols)))
            if "order" in var:
                rng.shuffle(o)
            elif kcount and self.first_order is not None and len(o) >= len(self.first_order):
                o = self.first_order + list(range(len(self.first_order), len(o)))
            self.order[d] = o
        o = self.order[d]
        return [cols[i] for i in o], [[s[i] for i in o] for s in syms]

    def build(self):
        """Sessions: the rows in runs of one definition."""
        rng = self.rng
        self.rows = {}
        self.sessions = []
        n = 0
        o = list(range(len(self.kcols) + 3))
        if rng.random() < 0.5:
            rng.shuffle(o)
        self.first_order = o
        self.order = {}
        for a in self.beh["acts"]:
            if a["act"] == "open":
                cur = a["arg"]["def"]
                self.sessions.append({"arg": a["arg"], "runs": [(cur, [])]})
            elif a["act"] == "define":
                cur = a["arg"]
                self.sessions[-1]["runs"].append((cur, []))
            elif a["act"] == "row":
                n += 1
                v = {t: None if rng.random() < 0.15 else defs.value(rng, t, avoid=(12345, 1022, -0.125)) for t in defs.NUM}
                s = concrete.rand_str(rng, rng.randint(0, 24)) if rng.random() < 0.8 else b""
                self.rows[n] = (a["arg"], cur, v, s)
                self.sessions[-1]["runs"][-1][1].append(n)
        self.expected = {}


def column_key(c):
    return (c.desc["name"], c.type, tuple(c.desc.get("bits") or ()))


def content(data):
    out = []
    for h in w.parse_stream(data):
        head = [(k.name, k.type, tuple(k.bits)) for k in h["cols"]]
        for r in w.expand(h, h["rows"]):
            out.append((head, [T.norm(k.type, v, k.missing) for k, v in zip(h["cols"], r)]))
    return out


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = p
    return out


def frames_of(plan, s):
    """The frames of a session's input."""
    rng, out = plan.rng, []
    for d, rids in s["runs"]:
        i = 0
        while i < len(rids):
            k = len(rids) - i if rng.random() < 0.6 else rng.randint(1, len(rids) - i)
            cols, syms = plan.frame_columns(d, rids[i:i + k], "pass")
            f = T.TFrame(rng, cols, syms, rng.choice("<<>"))
            for j, r in enumerate(rids[i:i + k]):
                plan.expected[r] = ([column_key(c) for c in cols], f.row(j))
            out.append(f)
            i += k
    return out


def do_session(plan, s, d, n, call):
    """-> (runner, problem or None)"""
    rng = plan.rng
    arg = s["arg"]
    env = {}
    if rng.random() < 0.5:
        env["ODB_ROWS_BUFFER_SIZE"] = str(rng.choice([1, 2, 3, 7]))
    tmpl = os.path.join(d, plan.tmpl)
    if arg["kind"] == "pass":
        frames = frames_of(plan, s)
        runners = ["api", "api-keep"] if arg["append"] else ["split", "split", "split -no_verification", "api"]
        if plan.simple and not arg["append"] and frames:
            runners += ["sql"] * 3
            # (eckit's "order by" refuses strings that become wider)
            if len({tuple(plan.kwidth[dd] + [plan.swidth[dd]]) for dd, _ in s["runs"]}) == 1:
                runners += ["split -sort"] * 3
        run = rng.choice(runners)
        src = os.path.join(d, "..", "in%d.odb" % n)
        if run in ("api", "api-keep"):
            script, k = [], 0
            cuts = sorted(rng.sample(range(len(frames) + 1), min(len(frames) + 1, rng.choice([0, 0, 1, 2]))))
            for lo, hi in zip([0] + cuts, cuts + [len(frames)]):
                p = src + ".%d" % len(script)
                with open(p, "wb") as o:
                    o.write(b"".join(f.bytes for f in frames[lo:hi]))
                script.append({"act": "pass1", "path": p})
            try:
                r = call({"op": "dispatch", "tmpl": tmpl, "max_open": arg["max"], "append": arg["append"], "script": script,
                          "final_close": rng.random() < 0.7})
            finally:
                for a in script:
                    os.unlink(a["path"])
            return run, "%s" % str(r)[:300] if "died" in r or r["rc"] else files_bad(plan, s, d, r)
        with open(src, "wb") as o:
            o.write(b"".join(f.bytes for f in frames))
        try:
            if run == "sql":
                rc, out, err = T.run_tool(["sql", "select *", "-i", src, "-f", "odb", "-o", tmpl], env=env)
            else:
                rc, out, err = T.run_tool(run.split() + ["-maxopenfiles", str(arg["max"]), src, tmpl], env=env)
        finally:
            os.unlink(src)
        if rc != 0:
            return run, "exit %s: %s" % (rc, (out + err)[-600:].decode("latin1"))
        if run == "split" and frames:
            nan = any(isinstance(v, float) and v != v for r in plan.rows.values() for v in r[2].values())
            if b"Total number of differences: 0\n" not in out + err and not nan:
                return "verification", "verification: %s" % (out + err)[-300:].decode("latin1")
        return run, None
    # rows one by one
    script = []
    allrids = [r for _, rids in s["runs"] for r in rids]
    first = True
    for dd, rids in s["runs"]:
        cols, syms = plan.frame_columns(dd, rids, "rows")
        if first:
            cs = []
            for c in cols:
                x = {"name": c.desc["name"], "type": c.type}
                if c.type == w.STRING:
                    x["doubles"] = width(plan, dd, c.desc["name"])
                else:
                    x["missing"] = struct.pack("<d", c.miss).hex()
                if c.desc.get("bits"):
                    x["bits"] = [list(b) for b in c.desc["bits"]]
                cs.append(x)
            script += [{"act": "columns", "cols": cs}, {"act": "header"}]
            first = False
        else:
            script.append({"act": "resize", "sizes": {c.desc["name"]: width(plan, dd, c.desc["name"])
                                                      for c in cols if c.type == w.STRING}})
        for j, r in enumerate(rids):
            cells = []
            row = []
            for c, sym in zip(cols, syms[j]):
                v = c.values[sym]
                if c.type == w.STRING:
                    cells.append((v or b"").ljust(8 * width(plan, dd, c.desc["name"]), b"\0").hex())
                else:
                    cells.append(concrete.pack(c.type, c.miss if v is None else v, plan.ints).hex())
                row.append(T.norm(c.type, v, c.miss))
            script.append({"act": "row", "cells": cells})
            plan.expected[r] = ([column_key(c) for c in cols], row)
    r = call({"op": "dispatch", "tmpl": tmpl, "max_open": arg["max"], "append": arg["append"], "script": script,
              "final_close": rng.random() < 0.7})
    return "rows", "%s" % str(r)[:300] if "died" in r or r["rc"] else files_bad(plan, s, d, r)


def width(plan, d, name):
    for i, c in enumerate(plan.kcols):
        if c[0] == name:
            return plan.kwidth[d][i]
    return plan.swidth[d]


def files_bad(plan, s, d, r):
    got = sorted(os.path.relpath(p, d) for p in r["files"])
    want = sorted({plan.name(plan.rows[i][0]) for _, rids in s["runs"] for i in rids})
    return None if got == want else "outputFiles() is %s, expected %s" % (got, want)


def check(plan, n, work, call):
    beh = plan.beh
    plan.build()
    d = os.path.join(work, "s%d" % n)
    os.makedirs(d)
    try:
        what = []
        for s in plan.sessions:
            key, bad = do_session(plan, s, d, n, call)
            what.append((key, s["arg"], [(x, [(i, plan.rows[i][0]) for i in r]) for x, r in s["runs"]]))
            if bad:
                return key, "%s: %s; template %s keys %s" % (bad, what, plan.tmpl, plan.keys)
        got = listing(d)
        want = {}
        for x in beh["disk"]:
            k = next(k for k in sorted(plan.keys) if (1 if beh["share"] and k == 2 else k) == x["name"])
            want[plan.name(k)] = x["rows"]
        desc = "template %s keys %s: %s" % (plan.tmpl, plan.keys, what)
        if sorted(got) != sorted(want):
            return "files", "files %s, expected %s; %s" % (sorted(got), sorted(want), desc)
        for f in sorted(want):
            try:
                c = content(open(got[f], "rb").read())
            except w.WireError as e:
                return "format", "%s is not a valid file: %s; %s" % (f, e, desc)
            e = [plan.expected[i] for i in want[f]]
            if beh["share"] and any(x[0] == "split -sort" for x in what):
                # rows of two keys in one file: which of the keys sorts first is not specified
                c, e = sorted(c, key=repr), sorted(e, key=repr)
            bad = T.diff(c, e)
            if bad:
                return "rows", "%s: %s; %s" % (f, bad, desc)
        return None, None
    finally:
        shutil.rmtree(d)


def many(ck, run, nkeys, maxopen):
    """More files than can be open, in an order that reopens them all the time."""
    rng = ck.rng
    d = os.path.join(ck.work, "many")
    os.makedirs(d)
    try:
        keys = {i: "key%d" % i for i in range(nkeys)}
        order = [i for _ in range(3) for i in rng.sample(range(nkeys), nkeys)]
        k = T.fixed_column("k", w.STRING, "int16_string", {i: keys[i].encode() for i in keys})
        r = T.fixed_column("r", w.INTEGER, "int32", {i: i for i in range(len(order))})
        f = T.TFrame(rng, [k, r], [[i, n] for n, i in enumerate(order)], "<")
        src = os.path.join(ck.work, "many.odb")
        with open(src, "wb") as o:
            o.write(f.bytes)
        args = (["split"] + (["-maxopenfiles", str(maxopen)] if maxopen else []) + [src, d + "/{k}.odb"] if run == "split" else
                ["sql", "select *", "-i", src, "-f", "odb", "-o", d + "/{k}.odb"])
        rc, out, err = T.run_tool(args)
        what = "odc %s of %d keys" % (run, nkeys)
        if rc:
            ck.fail("many", "%s: exit %s: %s" % (what, rc, (out + err)[-300:]), {"run": run})
            return
        got = listing(d)
        if sorted(got) != sorted("%s.odb" % x for x in keys.values()):
            ck.fail("many", "%s: %d files" % (what, len(got)), {"run": run})
            return
        for i, name in keys.items():
            rows = [x[1][1] for x in T.of_bytes(open(got[name + ".odb"], "rb").read())]
            if rows != [n for n, x in enumerate(order) if x == i]:
                ck.fail("many", "%s: %s has the rows %s" % (what, name, rows), {"run": run})
                return
    finally:
        shutil.rmtree(d)
        if os.path.exists(src):
            os.unlink(src)


def chunks(ck, sizes):
    """odc split -sort of a file of frames too large to be sorted in one piece: cells (in 100 MB) of the frames."""
    d = os.path.join(ck.work, "chunks")
    os.makedirs(d)
    src = os.path.join(ck.work, "chunks.odb")
    try:
        rows = {1: [], 2: []}
        n = 0
        ncols = 1800
        with open(src, "wb") as o:
            for i, size in enumerate(sizes):
                k = int(size * 100 * 2 ** 20 / 8 / ncols) + 1
                cols = [{"name": "c%d" % j, "type": w.INTEGER, "codec": "constant", "min": j, "max": j, "missing": w.MISS_INT,
                         "hasMissing": 0} for j in range(ncols - 2)]
                cols += [{"name": "k", "type": w.INTEGER, "codec": "int8", "min": 1, "max": 2, "missing": w.MISS_INT, "hasMissing": 0},
                         {"name": "r", "type": w.INTEGER, "codec": "int32", "min": 0, "max": 0, "missing": w.MISS_INT, "hasMissing": 0}]
                lines = []
                for j in range(k):
                    key = 1 + (j + i) % 2
                    rows[key].append(n)
                    lines.append((0 if j == 0 else ncols - 2, ([0] * (ncols - 2) if j == 0 else []) + [key, n]))
                    n += 1
                o.write(w.build_frame(cols, lines))
        rc, out, err = T.run_tool(["split", "-sort", src, d + "/{k}.odb"], timeout=300)
        what = "odc split -sort of frames of %s times 100 MB" % sizes
        if rc:
            ck.fail("chunks", "%s: exit %s: %s" % (what, rc, (out + err)[-300:]), {"sizes": sizes})
            return
        for key in (1, 2):
            got = [struct.unpack("<d", bytes.fromhex(x[0]))[0]
                   for x in ck.call({"op": "select", "sql": "select r", "path": "%s/%d.odb" % (d, key)})["rows"]]
            if got != rows[key]:
                ck.fail("chunks", "%s: the file of key %d has %d rows, expected %d (%s)" % (
                    what, key, len(got), len(rows[key]), "in another order" if sorted(got) == rows[key] else "other rows"), {"sizes": sizes})
    finally:
        shutil.rmtree(d)
        if os.path.exists(src):
            os.unlink(src)


def run(ck):
    chunks(ck, [1.1, 0.01])
    chunks(ck, [0.3, 0.8, 0.4])
    many(ck, "split", 40, 7)
    many(ck, "split", 230, None)
    many(ck, "sql", 130, None)
    behs = behaviours(ck)
    ck.rng.shuffle(behs)
    for half in range(2):
        ints = ("double", "long")[half]
        ck.call({"op": "settings", "ints": ints})
        mine = behs[half::2]
        for n, b in enumerate(mine):
            if ck.elapsed() > ck.budget * (half + 1) / 2:
                ck.cov["cut_short_at_%s" % ints] = n
                break
            key, bad = check(Plan(random.Random(ck.rng.random()), b, ints), n, ck.work, ck.call)
            ck.traces += 1
            if bad:
                ck.fail(key, "behaviour %d: %s" % (n, bad), b)
            if n < 2:
                ck.sample(b)
    scale.each(ck, ck.pick(3, 30), scale.split)
