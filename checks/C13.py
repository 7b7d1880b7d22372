"""C13: tools that rewrite a file: compact, fixrowsize, set, mdset (Rewrite.tla)."""
import os
import random

import defs
import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS Tools = {%s}
 MaxFrames = %d
 MinFrames = %d
 MaxRows = %d
 Sigs = {%s}
 Defs = {1, 2}
 Vals = {%s}
 Bufs = {%s}
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Preserves Complete Bounded Compacted SameFrames Refused Idempotent Emit
CHECK_DEADLOCK FALSE
"""
COLS = {1: "AB", 2: "AB", 3: "A", 4: "BA"}
TNAME = {"integer": w.INTEGER, "real": w.REAL, "double": w.DOUBLE, "string": w.STRING}
ENV = {"odc_NAN_IS_OK": "1"}
LONG = dict(ENV, ODC_ENABLE_WRITING_LONG_STRING_CODEC="1")
TOOL_BUF = 10000


class Plan:
    """Concrete names, types, values and definitions of one behaviour."""

    def __init__(self, rng, beh):
        self.rng, self.beh = rng, beh
        self.names = rng.choice([{"A": "a", "B": "b", "D": "d"}, {"A": "lat@hdr", "B": "obsvalue@body", "D": "flags@hdr"},
                                 {"A": "a@x", "B": "a@y", "D": "d"}, {"A": "col", "B": "col2", "D": "col3"}])
        ta = rng.choice([w.INTEGER, w.INTEGER, w.REAL, w.DOUBLE, w.STRING, w.BITFIELD])
        wa = rng.choice([8, 8, 16, 24])
        tb = rng.choice([w.INTEGER, w.REAL, w.DOUBLE, w.STRING, w.BITFIELD])
        wb = rng.choice([8, 16])
        if beh["tool"] == "mdset":   # only strings of 8 bytes are constants in the header
            wa = 8
            tb = rng.choice(defs.NUM)
        if tb == w.STRING:
            tb2, wb2 = w.STRING, 24 if wb == 16 or rng.random() < 0.5 else 16
        else:
            tb2, wb2 = rng.choice([t for t in defs.NUM if t != tb]), 8
        td = rng.choice([w.BITFIELD, w.BITFIELD, w.INTEGER, w.REAL])
        self.types = {"A": {s: (ta, wa) for s in COLS}, "D": {s: (td, 8) for s in COLS},
                      "B": {1: (tb, wb), 4: (tb, wb), 2: (tb2, wb2), 3: (tb, wb)}}
        # which columns have other definitions in the variant 2
        self.varies = {c: rng.random() < 0.4 for c in "AB"}
        self.varies["D"] = True
        self.miss, self.bits = {}, {}
        for c in "ABD":
            i = rng.choice([(w.MISS_INT, -1), (-1, w.MISS_INT), (w.MISS_INT, 99999)])
            r = rng.choice([(w.MISS_REAL, 0.25), (-9999.0, w.MISS_REAL)])
            b = rng.choice([([("x", 3), ("y", 7)], [("x", 3), ("z", 7)]), ([("x", 3), ("y", 7)], [("x", 4), ("y", 6)]),
                            ([("x", 10)], [("x", 3), ("y", 7)]), ([("p", 5)], [])])
            self.miss[c] = (i, r)
            self.bits[c] = b
        avoid = {x for c in "ABD" for p in self.miss[c] for x in p}
        self.vals = {}
        for c in "ABD":
            for t, wd in set(self.types[c].values()):
                v = {"m": None}
                for s in "abc":
                    v[s] = defs.value(rng, t, wd, avoid | set(x for x in v.values() if x is not None))
                self.vals[c, t, wd] = v
        # the constant: its text for the tools, and what it means in a column of the type
        a = beh["arg"]
        self.new, self.text = {}, None
        if a["val"]:
            ts = {self.types[a["col"]][f["sig"]][0] for f in beh["file"]} or {self.types[a["col"]][1][0]}
            self.text, v = self.constant(ts, beh["tool"])
            for t in ts:
                self.new[t] = v
        self.newtype = rng.choice(["integer", "real", "double"])

    def constant(self, ts, tool):
        rng = self.rng
        if ts == {w.STRING}:
            n = rng.randint(1, 8)
            b = bytes(rng.choice(b"abcXYZ019_") for _ in range(n))
            if tool == "set" and rng.random() < 0.4:
                return "0x" + b.hex(), b
            return "'%s'" % b.decode(), b.rjust(8)
        if ts & {w.INTEGER, w.BITFIELD}:
            v = rng.choice([0, 7, 255, 1000]) if w.BITFIELD in ts else rng.choice([0, -1, 8, 70000, 2147483647, -5])
            return str(v), v
        v = rng.choice([0.0, 2.5, -1e6, 1048576.0]) if w.REAL in ts else rng.choice([2.5, 3.141592653589793, 1e300])
        return repr(v), v

    def order(self, sig):
        return "D" + COLS[sig] if self.dfirst else COLS[sig] + "D"

    def columns(self, f):
        """Columns of a frame of the behaviour, with the symbols that occur."""
        rng = self.rng
        out = []
        self.dsym = [rng.choice("abm") for _ in f["rows"]]
        for c in self.order(f["sig"]):
            t, wd = self.types[c][f["sig"]]
            var = f["def"] - 1 if self.varies[c] else 0
            used = self.dsym if c == "D" else [r[c] for r in f["rows"]]
            isint = t in (w.INTEGER, w.BITFIELD)
            m = None if t == w.STRING else self.miss[c][0 if isint else 1][var]
            out.append(defs.column(rng, self.names[c], t, self.vals[c, t, wd], sorted(set(used)), m,
                                   self.bits[c][var], const=c != "D" and f["const"][c], width=wd,
                                   plain=self.beh["tool"] == "mdset"))
        return out

    def frame(self, f):
        cols = self.columns(f)
        rows = [[self.dsym[i] if c == "D" else r[c] for c in self.order(f["sig"])] for i, r in enumerate(f["rows"])]
        props = [("k%d" % i, "v") for i in range(self.rng.randint(0, 2))]
        fr = T.TFrame(self.rng, cols, rows, self.rng.choice("<<>"), props)
        fr.dsym = self.dsym
        return fr

    def build(self):
        self.dfirst = self.rng.random() < 0.3
        return [self.frame(f) for f in self.beh["file"]]

    def expect(self, frames):
        """[(columns [(name, type, bits)], row)]"""
        a, out = self.beh["arg"], []
        for f, fr in zip(self.beh["file"], frames):
            k = self.order(f["sig"]).find(a["col"]) if a["col"] else -1
            head = [(c.desc["name"], c.type, tuple(c.desc.get("bits") or ())) for c in fr.cols]
            for i in range(fr.nrows):
                r = fr.row(i)
                if a["val"]:
                    c = fr.cols[k]
                    r = r[:k] + [T.norm(c.type, self.new[c.type], c.miss)] + r[k + 1:]
                out.append((head, r))
        return out


def content(data):
    """-> [(columns, row)], rows per frame"""
    out, n = [], []
    for h in w.parse_stream(data):
        head = [(k.name, k.type, tuple(k.bits)) for k in h["cols"]]
        n.append(h["nrows"])
        for r in w.expand(h, h["rows"]):
            out.append((head, [T.norm(k.type, v, k.missing) for k, v in zip(h["cols"], r)]))
    return out, n


def tail(b):
    return (b or b"")[-300:].decode("latin1")


def frames_text(beh):
    return [(f["sig"], f["def"], len(f["rows"])) for f in beh["file"]]


def look(plan, rc, data, log, fixed, what, frames=True):
    """First divergence of a rewritten file from the specification, or None."""
    beh = plan.beh
    desc = "%s of frames %s" % (what, frames_text(beh))
    if beh["err"]:
        return None if rc == 1 else "%s must be refused: exit %s" % (desc, rc)
    want = plan.expect(fixed)
    if rc != 0:
        return "%s fails with %s: %s" % (desc, rc, log)
    try:
        got, n = content(data)
    except w.WireError as e:
        return "%s writes an invalid file: %s" % (desc, e)
    d = T.diff(got, want)
    if d:
        return "%s: %s" % (desc, d)
    if frames and [x for x in n if x] != plan.sizes:
        return "%s: frames of %s rows, expected %s" % (desc, n, plan.sizes)
    return None


def header_fields(k, skip=()):
    d = {"name": k.name, "type": k.type, "bits": k.bits, "codec": k.codec, "hasMissing": k.hasMissing,
         "min": k.min_raw, "max": repr(k.max), "missing": repr(k.missing), "strings": k.strings}
    if k.codec == "constant_string":
        d["max"] = None
    return {x: v for x, v in d.items() if x not in skip}


def look_md(plan, rc, data, log, src, fixed, what):
    beh = plan.beh
    if beh["err"]:
        return None if rc == 1 else "%s must be refused: exit %s" % (what, rc)
    if rc != 0:
        return "%s fails with %s: %s" % (what, rc, log)
    a = beh["arg"]
    try:
        pos, ipos = 0, 0
        while ipos < len(src):
            hi, ho = w.parse_header(src, ipos), w.parse_header(data, pos)
            for x in ("bo", "nrows", "props", "dataSize"):
                if hi[x] != ho[x]:
                    return "%s: %s of the frame at %d is %r, was %r" % (what, x, ipos, ho[x], hi[x])
            if not ho["md5_ok"]:
                return "%s: wrong checksum" % what
            if src[hi["data"]:hi["end"]] != data[ho["data"]:ho["end"]]:
                return "%s: the data of the frame at %d are changed" % (what, ipos)
            if len(hi["cols"]) != len(ho["cols"]):
                return "%s: number of columns changed" % what
            for ci, co in zip(hi["cols"], ho["cols"]):
                skip = []
                if ci.name == plan.names[a["col"]]:
                    skip = ["type", "bits"] * a["typ"] + ["min", "max"] * a["val"]
                    if a["typ"] and co.type != TNAME[plan.newtype]:
                        return "%s: type %s" % (what, co.type)
                x, y = header_fields(ci, skip), header_fields(co, skip)
                if x != y:
                    return "%s: definition of %s changed from %s to %s" % (what, ci.name, x, y)
            ipos, pos = hi["end"], ho["end"]
        if pos != len(data):
            return "%s: %d bytes more than the input has frames" % (what, len(data) - pos)
    except w.WireError as e:
        return "%s writes an invalid file: %s" % (what, e)
    if a["typ"]:
        return None
    d = T.diff(content(data)[0], plan.expect(fixed))
    return "%s: %s" % (what, d) if d else None


def job(a):
    plan, n, work = a
    beh, rng = plan.beh, plan.rng
    fixed = plan.build()
    src = b"".join(f.bytes for f in fixed)
    p, q = os.path.join(work, "r%d.odb" % n), os.path.join(work, "r%d.out" % n)
    with open(p, "wb") as o:
        o.write(src)
    try:
        plan.sizes = [len(f["rows"]) for f in beh["out"] if f["rows"]]
        tool = beh["tool"]
        arg = beh["arg"]
        if tool == "compact":
            if beh["buf"] < 99:
                return "driver", (p, fixed, src)
            args = [rng.choice(["compact", "compact", "fixrowsize"])]
        elif tool == "set":
            if beh["buf"] < 99:
                return None, None
            args = ["set", "%s=%s" % (plan.names[arg["col"]], plan.text)]
        else:
            e = plan.names[arg["col"]]
            if not arg["typ"] and not arg["val"]:
                return None, None
            args = ["mdset", e + (":" + plan.newtype) * arg["typ"] + ("=" + (plan.text or "")) * arg["val"]]
        rc, out, err = T.run_tool(args + [p, q], env=rng.choice([ENV, ENV, LONG]))
        data = open(q, "rb").read() if os.path.exists(q) else b""
        what = "odc " + " ".join(args)
        if tool == "mdset":
            bad = look_md(plan, rc, data, tail(out + err), src, fixed, what)
        else:
            bad = look(plan, rc, data, tail(out + err), fixed, what)
            if not bad and rc == 0 and tool == "compact" and rng.random() < 0.2:
                # n.b. the first pass may narrow string columns, which may make frames equal in layout: only content counts
                rc, out, err = T.run_tool(args + [q, p], env=ENV)
                bad = look(plan, rc, open(p, "rb").read(), tail(out + err), fixed, what + " twice", frames=False)
        return (args[0], bad) if bad else (None, None)
    finally:
        for x in (p, q):
            if os.path.exists(x):
                os.unlink(x)


def through_writer(ck, plan, x):
    """The same through the library, with a small buffer."""
    p, fixed, src = x
    path = os.path.join(ck.work, "w.odb")
    with open(path, "wb") as o:
        o.write(src)
    r = ck.call({"op": "writer", "rows_buffer": plan.beh["buf"], "script": [{"act": "pass1", "path": path}]})
    if "died" in r:
        return "pass1 of frames %s: %s" % (frames_text(plan.beh), r["died"])
    rc = r["rcs"][0] or r.get("close_rc") or 0
    return look(plan, rc, bytes.fromhex(r["data"]), str(r.get("err")), fixed,
                "pass1 through a buffer of %d rows" % plan.beh["buf"])


def no_rows(beh):
    return not any(f["rows"] for f in beh["file"])


def run(ck):
    def cfg(tools, mf, mn, mr, sigs, vals, bufs, samp):
        return CFG % (", ".join('"%s"' % t for t in tools), mf, mn, mr, sigs, ", ".join('"%s"' % v for v in vals), bufs,
                      samp)
    if ck.thorough:
        ck.tlc("Rewrite", cfg(["compact", "set", "mdset"], 2, 0, 2, "1, 3", "am", "2, 99", "FALSE").replace(
            "EmitOn = TRUE", "EmitOn = FALSE"), workers=8)
    ex = ck.tlc("Rewrite", cfg(["compact", "set", "mdset"], 2, 1, 1, "1, 3", "a", "1, 99", "FALSE"), workers=2).prints
    sim = []
    for t, b, n in (("compact", "99", 200), ("compact", "1, 2, 3", 250), ("set", "99", 200), ("mdset", "99", 300)):
        sim += ck.tlc("Rewrite", cfg([t], 4, 1, 4, "1, 2, 3, 4" if t == "compact" else "1, 2, 4", "abm", b, "TRUE"),
                      simulate=ck.pick(n, n * 15), depth=80, seed=ck.seed).prints
    ck.rng.shuffle(ex)
    plan = [b for b in ex[:ck.pick(250, 3000)] + sim if not no_rows(b)]
    ck.cov["behaviours_available"] = len(ex) + len(sim)
    for lo in range(0, len(plan), 96):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        jobs = [(Plan(random.Random(ck.rng.random()), b), lo + i, ck.work) for i, b in enumerate(plan[lo:lo + 96])]
        for j, (key, bad) in zip(jobs, T.parallel(job, jobs)):
            b = j[0].beh
            if key == "driver":
                key, bad = "pass1", through_writer(ck, j[0], bad)
            ck.traces += 1
            ck.count("replayed_" + b["tool"])
            if bad:
                ck.fail(key, bad, b)
    ck.sample({"behaviour": sim[0]})
    long_file(ck)
    long_constant(ck)
    scale.each(ck, ck.pick(3, 30), scale.rewritten)


def long_file(ck):
    """More rows than the buffer of the tools holds, and chained frames."""
    rng = ck.rng
    n = [7000, 2999, 1, 1, 10000, 3]
    vals = {"a": 1, "b": 300, "m": None}
    sv = {"a": b"abc", "b": b"a longer string", "m": b""}
    frames = []
    for k in n:
        rows = [[rng.choice("abm"), rng.choice("abm")] for _ in range(k)]
        cols = [defs.column(rng, "x", w.INTEGER, vals, ["a", "b", "m"], w.MISS_INT),
                defs.column(rng, "s", w.STRING, sv, ["a", "b", "m"], width=16)]
        frames.append(T.TFrame(rng, cols, rows, "<", ()))
    p, q = os.path.join(ck.work, "long.odb"), os.path.join(ck.work, "long.out")
    with open(p, "wb") as o:
        o.write(b"".join(f.bytes for f in frames))
    want = T.of_frames(frames)
    for args, upd in ((["compact"], None), (["set", "x=5"], 5)):
        if upd is not None:
            want = [(h, [upd, r[1]]) for h, r in want]
        rc, out, err = T.run_tool(args + [p, q], env=ENV)
        ck.traces += 1
        if rc != 0:
            ck.fail("long", "odc %s of %d rows: exit %s %s" % (args, sum(n), rc, tail(out + err)))
            continue
        data = open(q, "rb").read()
        d = T.diff(T.of_bytes(data), want)
        sizes = content(data)[1]
        if d or sizes != [TOOL_BUF, TOOL_BUF, sum(n) - 2 * TOOL_BUF]:
            ck.fail("long", "odc %s of %d rows: %s, frames of %s rows" % (args, sum(n), d, sizes))


def long_constant(ck):
    """A constant string that is not kept with the minimum and maximum of the header cannot be set there."""
    rng = ck.rng
    p, q = os.path.join(ck.work, "lc.odb"), os.path.join(ck.work, "lc.out")
    for v in (b"abc", b"a string of more than 8 bytes"):
        cols = [T.fixed_column("s", w.STRING, "long_constant_string", {"a": v}),
                defs.column(rng, "x", w.INTEGER, {"a": 5}, ["a"], w.MISS_INT, const=True)]
        f = T.TFrame(rng, cols, [["a", "a"]] * 3, rng.choice("<>"))
        with open(p, "wb") as o:
            o.write(f.bytes)
        rc, out, err = T.run_tool(["mdset", "s='new'", p, q])
        ck.traces += 1
        if rc == 1:
            continue
        new = T.of_bytes(open(q, "rb").read())
        if rc != 0 or [r[1][0] for r in new] != [b"     new"] * 3:
            ck.fail("long-constant", "odc mdset of a long_constant_string: exit %s, rows %s" % (rc, new[:1]))
