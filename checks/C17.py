"""C17: files of either byte order, and of both (Order.tla)."""
import glob
import json
import os
import random
import re
import shutil

import concrete
import odbwire as w
import tables as T
import wires

CFG = """CONSTANTS MaxFrames = %d
 MaxCols = %d
 MaxRows = %d
 Jobs = {"read", "rewrite"}
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS NoError Same Rewritten Own Emit
CHECK_DEADLOCK FALSE
"""
SYM = {0: "a", 1: "b", 2: "c", 3: "m"}
CODECS = {w.INTEGER: {"w": ["int32", "int16", "int16_missing"], "b": ["int8", "int8_missing", "constant_or_missing"],
                      "c": ["constant"]},
          w.BITFIELD: {"w": ["int32", "int16", "int16_missing"], "b": ["int8", "int8_missing", "constant_or_missing"],
                       "c": ["constant"]},
          w.REAL: {"w": ["short_real", "short_real2", "long_real"], "b": ["real_constant_or_missing"], "c": ["constant"]},
          w.DOUBLE: {"w": ["long_real", "short_real"], "b": ["real_constant_or_missing"], "c": ["constant"]},
          w.STRING: {"w": ["int16_string", "chars"], "b": ["int8_string"],
                     "c": ["constant_string", "long_constant_string"]}}
BITS = [("m0", 3), ("m1", 5), ("flag", 1)]


def column(rng, name, ty, kind):
    codec = rng.choice(CODECS[ty][kind])
    syms = ["a", "b", "c", "m"]
    for _ in range(40):
        c = concrete.foreign_column(rng, name, syms, choice=(ty, codec), default_missing=rng.random() < 0.8)
        bad = False
        if ty == w.STRING:   # text that can be printed
            known = [v for v in c.values.values()]
            bad = len(c.desc.get("strings", [])) > 40 or any(b"'" in v for v in known)
        elif ty == w.BITFIELD:
            c.desc["bits"] = BITS
            bad = any(v is not None and not 0 <= v < 512 for v in c.values.values()) and rng.random() < 0.5
        if not bad:
            break
    return c


class Plan:
    """The three files of a behaviour: A as the specification has it, N native throughout, S swapped throughout."""

    def __init__(self, rng, beh, where):
        self.beh, self.dir = beh, where
        width = max(len(f["cols"]) for f in beh["file"])
        types = [rng.choice(list(CODECS)) for _ in range(width)]
        names = ["c%d%s" % (i, rng.choice(["", "", "@t"])) for i in range(width)]
        special = rng.random()
        if special < 0.25:
            types[0], names[0] = w.INTEGER, "seqno"
        elif special < 0.4 and width >= 3:
            names[:3] = ["lat", "lon", "value"]
            types[:3] = [w.REAL, w.DOUBLE, rng.choice([w.REAL, w.INTEGER])]
        frames, known = [], {}
        for f in beh["file"]:
            cols = []
            for i, c in enumerate(f["cols"]):
                key = (i, c["kind"], c["base"])
                if key not in known or rng.random() < 0.2 and not (frames and f["cols"] == frames[-1][0]):
                    known[key] = column(rng, names[i], types[i], c["kind"])
                cols.append(known[key])
            rows = [(r["k"], [SYM[v] for v in r["v"]]) for r in f["rows"]]
            props = [("k%d" % i, "p" * rng.choice([0, 1, 7, 300])) for i in range(rng.choice([0, 0, 1, 2]))]
            flags = rng.choice([0, 0, 8])
            frames.append((f["cols"], f["ord"], cols, rows, props, flags))
        self.names, self.types = names, types
        self.frames = frames
        self.paths, self.data = {}, {}
        for v in "ANS":
            d = os.path.join(where, v)
            os.makedirs(d)
            data = b"".join(self.build(cols, rows, props, flags, {"A": "<" if o == "L" else ">", "N": "<", "S": ">"}[v])
                            for _, o, cols, rows, props, flags in frames)
            self.data[v] = data
            self.paths[v] = os.path.join(d, "in.odb")
            with open(self.paths[v], "wb") as out:
                out.write(data)

    @staticmethod
    def build(cols, rows, props, flags, bo):
        wire = [(k, [cols[i].values[s[i]] for i in range(k, len(cols))]) for k, s in rows]
        return w.build_frame([c.desc for c in cols], wire, props=props, bo=bo, flags=flags)

    def sig(self):
        return ["%s: %s rows %s" % (f[1], [(c.desc["name"], c.type, c.desc["codec"]) for c in f[2]],
                                    [r[0] for r in f[3]]) for f in self.frames]


def requests(rng, p):
    """Requests to the driver that must give the same reply for the three files."""
    n = max(1, len({c.desc["name"] for f in p.frames for c in f[2]}))
    names = list({c.desc["name"]: 0 for f in p.frames for c in f[2]})
    some = rng.sample(names, rng.randint(1, n))
    for via in ("cpp", "c"):
        for agg in (False, True):
            rq = {"op": "decode", "via": via, "agg": agg, "max": rng.choice([-1, -1, 7]) if agg else -1,
                  "open": rng.choice(["path", "file", "mem", "dh"] if via == "cpp" else
                                     ["path", "fd", "buffer"] + ([] if agg else ["stream"])),
                  "layout": rng.choice(["cols", "own_row", "own_col", "ext_row", "ext_col"] if via == "c" else
                                       ["cols", "ext_row", "ext_col"]),
                  "copy_frames": rng.random() < 0.3, "nthreads": rng.choice([1, 1, 3]) if via == "c" else 1}
            if rq["open"] == "stream":
                rq.update(copy_frames=False, chunk=rng.choice([-1, 1, 13]))
            if rng.random() < 0.3:
                rq["cols"] = some
            yield rq
    yield {"op": "iter"}
    for agg in (False, True):
        yield {"op": "span", "agg": agg, "max": -1, "cols": some, "only_constant": rng.random() < 0.3, "open": "path"}
    yield {"op": "rowcount"}
    yield {"op": "tables", "open": "mem", "script": [{"act": a, "it": 1} for a in ["begin"] + ["next"] * len(p.frames)]}
    q = names[0]
    cond = " where %s = %s" % (q, rng.choice([q, "0"])) if p.types[0] != w.STRING and rng.random() < 0.5 else ""
    sql = rng.choice(["select *", "select " + ",".join(some), "select distinct " + some[0],
                      "select count(*),min(%s),max(%s)" % (q, q)])
    yield {"op": "select", "sql": sql + cond, "own": rng.random() < 0.5, "open": rng.choice(["path", "dh"])}
    yield {"op": "framefilter", "sql": rng.choice(["select *", "select " + ",".join(some)]) + cond,
           "agg": rng.random() < 0.5, "max": -1, "open": "path"}


def clean(text, p):
    for v in "ANS":
        text = text.replace(os.path.join(p.dir, v), "DIR")
    return text


def by_driver(ck, p):
    rng = ck.rng
    for rq in requests(rng, p):
        got = {}
        for v in "NAS":
            q = dict(rq)
            if rq["op"] == "tables" or rq.get("open") == "mem":
                q["hex"] = p.data[v].hex()
            q["path"] = p.paths[v]
            r = ck.call(q)
            if "died" in r:
                return rq["op"] + "-crash", "%s of a file in order %s crashes: %s %s" % (rq, v, r["died"], p.sig()), q
            got[v] = clean(json.dumps(r, sort_keys=True), p)
        ck.count("driver_comparisons", 2)
        for v in "AS":
            if got[v] != got["N"]:
                return rq["op"], "%s: %s file %s, native file %s; frames %s" % (
                    rq, "mixed" if v == "A" else "swapped", around(got[v], got["N"]), around(got["N"], got[v]), p.sig()), rq
        if rq["op"] == "iter":
            bad = iter_values(p, json.loads(got["N"]))
            if bad:
                return "values", "%s; frames %s" % (bad, p.sig()), rq
    # encoded again by the other route: filter, and the writer's copy
    for rq in ({"op": "apifilter", "sql": "select *", "open": "path"},
               {"op": "writer", "script": [{"act": "pass1"}], "rows_buffer": rng.choice([3, 1000])}):
        res = {}
        for v in "NAS":
            q = json.loads(json.dumps(rq))
            out = os.path.join(p.dir, v, "copy.odb")
            if rq["op"] == "writer":
                q["path"], q["script"][0]["path"] = out, p.paths[v]
            else:
                q["path"], q["out"] = p.paths[v], out
            r = ck.call(q)
            if "died" in r:
                return rq["op"] + "-crash", "%s of a file in order %s crashes: %s %s" % (rq, v, r["died"], p.sig()), q
            data = open(out, "rb").read() if os.path.exists(out) else b""
            try:
                parsed = [content(h) for h in w.parse_stream(data)]
            except (w.WireError, ValueError) as e:
                parsed = str(e)
            for k in ("data", "path", "at_close", "nbytes"):
                r.pop(k, None)
            res[v] = (clean(json.dumps(r, sort_keys=True), p), parsed)
        ck.count("driver_comparisons", 2)
        for v in "AS":
            if repr(res[v]) != repr(res["N"]):
                return rq["op"], "%s: result of file %s %s, native %s; frames %s" % (
                    rq["op"], v, around(repr(res[v]), repr(res["N"])), around(repr(res["N"]), repr(res[v])), p.sig()), rq
    return None


def around(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "...%s..." % a[max(0, i - 60):i + 60]


def iter_values(p, r):
    """The row iterator's values against the specification's."""
    want = [([c.desc["name"] for c in cols], cols, row) for _, _, cols, rows, _, _ in p.frames for _, row in rows]
    got = [([c["name"] for c in d["cols"]], row) for d in r.get("datasets", []) for row in d["rows"]]
    if r.get("rc") or len(got) != len(want):
        return "the row iterator gives %d rows (%s), expected %d" % (len(got), r.get("err"), len(want))
    for i, ((names, row), (wn, cols, syms)) in enumerate(zip(got, want)):
        if names != wn:
            return "row %d has columns %s, expected %s" % (i, names, wn)
        for hx, c, x in zip(row, cols, syms):
            d = wires.diff_cells(c.type, hx, len(hx) // 2, [c.cell(x, "long")])
            if d:
                return "row %d column %s (%s): %s" % (i, c.desc["name"], c.desc["codec"], d)
    return None


def content(h):
    """What a frame means, apart from its byte order."""
    return ([(k.name, k.type, k.codec, k.bits, repr((k.hasMissing, k.min if k.codec != "constant_string" else k.min_raw,
                                                    k.max if k.codec != "constant_string" else 0, k.missing)),
              k.strings) for k in h["cols"]], h["props"], h["nrows"], h["prevFrameOffset"], len(h["flags"]),
            [(m, [repr(x) for x in v]) for m, v in h["rows"]])


def tools(rng, p):
    names = list({c.desc["name"]: p.types[i] for f in p.frames for i, c in enumerate(f[2])}.items())
    n0, t0 = rng.choice(names)
    val = {w.STRING: "'new'", w.REAL: "2.5", w.DOUBLE: "2.5"}.get(t0, "7")
    base = n0.split("@")[0]
    out = [["count", "in.odb"], ["header", "in.odb"], ["header", "in.odb", "-offsets"], ["ls", "in.odb"],
           ["sql", "select *", "-i", "in.odb"], ["sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "o.odb"],
           ["sql", "select %s" % base, "-i", "in.odb", "-T"], ["compact", "in.odb", "o.odb"],
           ["fixrowsize", "in.odb", "o.odb"], ["set", "%s=%s" % (n0, val), "in.odb", "o.odb"],
           ["mdset", "%s=%s" % (n0, val), "in.odb", "o.odb"], ["mdset", "%s:%s" % (n0, "double"), "in.odb", "o.odb"],
           ["split", "in.odb", "o.{%s}.odb" % base], ["merge", "-o", "o.odb", "in.odb", "in.odb"],
           ["index", "in.odb", "o.idx"], ["xyv", "in.odb", base, "o.xyv"]]
    if p.beh["job"] == "rewrite":
        pick = [a for a in out if a[0] in ("compact", "fixrowsize", "set", "merge", "split", "mdset") or "-f" in a]
        return rng.sample(pick, 3)
    return rng.sample(out, 4) + [["header", "in.odb"]]


LINE = re.compile(r"byteOrder: \w+")


def result(p, v, args):
    d = os.path.join(p.dir, v)
    for f in glob.glob(os.path.join(d, "o*")):
        os.unlink(f)
    rc, out, err = T.run_tool(args, cwd=d, env={"odc_NAN_IS_OK": "1"})
    text = LINE.sub("", out.decode("latin1"))
    files = {}
    for f in sorted(glob.glob(os.path.join(d, "o*"))):
        data = open(f, "rb").read()
        if f.endswith(".xyv"):
            files["xyv"] = data
            continue
        try:
            hs = w.parse_stream(data)
            files[os.path.basename(f)] = [content(h) for h in hs]
            if rc == 0 and args[0] in ("compact", "fixrowsize", "set", "merge", "index") and any(h["bo"] != "<" for h in hs):
                files["order"] = v
        except w.WireError as e:
            files[os.path.basename(f)] = "invalid: %s" % e if rc == 0 else "incomplete"
    return rc, text, files


def by_tools(a):
    rng, p = a
    done = 0
    for args in tools(rng, p):
        res = {v: result(p, v, args) for v in "NAS"}
        for v in "AS":
            done += 1
            x, y = repr(res[v]), repr(res["N"])
            if x != y:
                return done, args[0], "odc %s of the %s file: %s, of the native file: %s; frames %s" % (
                    " ".join(args), "mixed" if v == "A" else "swapped", around(x, y), around(y, x), p.sig())
            if any(str(f).startswith("invalid") for f in res[v][2].values()):
                return done, args[0], "odc %s writes an invalid file: %s; frames %s" % (" ".join(args), res[v][2], p.sig())
    for v in "AS":
        rc, out, err = T.run_tool(["compare", p.paths[v], p.paths["N"]], env={"odc_NAN_IS_OK": "1"})
        done += 1
        if rc != 0:
            return done, "compare", "odc compare finds the %s file different from the native one: %s; frames %s" % (
                "mixed" if v == "A" else "swapped", (out + err)[-200:], p.sig())
    return done, None, None


def run(ck):
    ex = ck.tlc("Order", CFG % (1, 2, 2, "FALSE"), workers=1).prints
    ex += ck.tlc("Order", CFG % (2, 1, 1, "FALSE"), workers=1).prints
    sim = ck.tlc("Order", CFG % (4, 4, 5, "TRUE"), simulate=ck.pick(350, 6000), depth=160, seed=ck.seed).prints
    rng = ck.rng
    rng.shuffle(ex)
    ck.cov["behaviours_available"] = len(ex) + len(sim)
    plan = ex[:ck.pick(80, 3000)] + sim
    rng.shuffle(plan)
    ck.call({"op": "settings", "ints": "long"})
    base = os.path.join(ck.work, "orders")
    shutil.rmtree(base, ignore_errors=True)
    for lo in range(0, len(plan), 64):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        os.makedirs(base)
        ps = [Plan(rng, b, os.path.join(base, "%d" % i)) for i, b in enumerate(plan[lo:lo + 64])]
        try:
            for p in ps:
                bad = by_driver(ck, p)
                if bad:
                    ck.fail(bad[0], bad[1], {"beh": p.beh, "request": bad[2], "files": {v: p.data[v].hex() for v in "ANS"}})
            for p, (n, key, what) in zip(ps, T.parallel(by_tools, [(random.Random(rng.random()), p) for p in ps])):
                ck.count("tool_comparisons", n)
                if key:
                    ck.fail("tool-" + key, what, {"beh": p.beh, "files": {v: p.data[v].hex() for v in "ANS"}})
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for p in ps:
            ck.traces += 1
            ck.count("frames", len(p.frames))
            ck.sample({"behaviour": p.beh})
