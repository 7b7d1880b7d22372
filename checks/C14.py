"""C14: odc merge (Merge.tla)."""
import os
import random

import defs
import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS MaxInputs = %d
 MaxFrames = %d
 MaxRows = %d
 Sigs = {%s}
 Vals = {%s}
 Sampled = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Paired Complete Refused Accepted Emit
CHECK_DEADLOCK FALSE
"""
TYPES = [w.INTEGER, w.REAL, w.DOUBLE, w.STRING, w.BITFIELD]


class Input:
    """Names, types and values of one input."""

    def __init__(self, rng, k, first, sql):
        self.rng, self.k = rng, k
        style = rng.choice(["%s%d", "%s@t%d", "%s_%d@hdr"])
        self.a, self.b = style % ("a", k), style % ("b", k)
        self.first = first.a if first else style % ("other", k)
        ta = w.INTEGER if sql else rng.choice(TYPES)
        wa = rng.choice([8, 16])
        if ta == w.STRING:
            ta3, wa3 = (ta, 24) if rng.random() < 0.6 else (w.INTEGER, 8)
        else:
            ta3, wa3 = (rng.choice([t for t in (w.INTEGER, w.REAL, w.DOUBLE) if t != ta]), 8)
        self.ty = {"a": {1: (ta, wa), 2: (ta, wa), 3: (ta3, wa3), 4: (ta, wa)}}
        tb = rng.choice(TYPES)
        wb = rng.choice([8, 16, 32])
        self.ty["b"] = {2: (tb, wb), 4: (first.ty["a"][1] if first else (tb, wb))}
        self.miss = {t: rng.choice([w.MISS_INT, -1, 4242] if t in (w.INTEGER, w.BITFIELD) else
                                   [w.MISS_REAL, 0.375]) for t in TYPES}
        self.bits = rng.sample([[("x", 3), ("y", 7)], [("z", 10)], [], [("x", 4), ("y", 6)]], 1 if sql else rng.choice([1, 2]))   # eckit: one definition of a name in a query
        self.vals = {}
        for c in self.ty:
            for t, wd in set(self.ty[c].values()):
                v = {"m": None}
                for s in "ab":
                    v[s] = defs.value(rng, t, wd, {-1, 4242, 0.375, w.MISS_INT, w.MISS_REAL} |
                                      set(x for x in v.values() if x is not None))
                self.vals[c, t, wd] = v
        if sql:
            for key in self.vals:
                if key[0] == "a":
                    t = key[1]
                    self.vals[key].update(a=5 if t == w.INTEGER else 5.0, b=-6 if t == w.INTEGER else -6.0)
            self.where = "%s = 5" % self.a

    def cols(self, sig):
        return {1: ["a"], 2: ["a", "b"], 3: ["a"], 4: ["a", "b"]}[sig]

    def frame(self, f):
        rng, out = self.rng, []
        for c in self.cols(f["sig"]):
            t, wd = self.ty[c][f["sig"]]
            used = sorted({r[c] for r in f["rows"]})
            m = None if t == w.STRING else self.miss[t]
            name = self.a if c == "a" else self.b if f["sig"] != 4 else self.first
            out.append(defs.column(rng, name, t, self.vals[c, t, wd], used, m, rng.choice(self.bits),
                                   const=len(used) == 1 and rng.random() < 0.3, width=wd))
        return T.TFrame(rng, out, [[r[c] for c in self.cols(f["sig"])] for r in f["rows"]], rng.choice("<<>"),
                        [("k", "v")] * rng.randint(0, 1))


def job(a):
    rng, beh, n, work = a
    inputs, files = [], []
    for k, fs in enumerate(beh["ins"]):
        inputs.append(Input(rng, k, inputs[0] if inputs else None, beh["sql"]))
        files.append([inputs[-1].frame(f) for f in fs])
    paths = [os.path.join(work, "m%d-%d.odb" % (n, k)) for k in range(len(files))]
    for p, fr in zip(paths, files):
        with open(p, "wb") as o:
            o.write(b"".join(f.bytes for f in fr))
    outp = os.path.join(work, "m%d.out" % n)
    args = ["merge", "-o", outp]
    sqlf = []
    if beh["sql"]:
        args = ["merge", "-S", "-o", outp]
        for p, i, f in zip(paths, inputs, beh["ins"]):
            text = "select %s where %s" % (rng.choice(["*", ",".join([i.a] + ([i.b if f[0]["sig"] == 2 else i.first]
                                                                              if f[0]["sig"] in (2, 4) else []))]), i.where)
            if rng.random() < 0.2:
                sqlf.append(p + ".sql")
                with open(sqlf[-1], "w") as o:
                    o.write(text)
                text = sqlf[-1]
            args += [p, text]
    else:
        args += paths
    try:
        rc, out, err = T.run_tool(args)
        return look(beh, files, rc, open(outp, "rb").read() if os.path.exists(outp) else b"", (out + err)[-300:], args)
    finally:
        for x in paths + [outp] + sqlf:
            if os.path.exists(x):
                os.unlink(x)


def head(fr):
    return [(c.desc["name"], c.type, tuple(c.desc.get("bits") or ())) for c in fr.cols]


def look(beh, files, rc, data, log, args):
    desc = "odc %s of inputs with frames %s" % (" ".join(a if " " in a or a[0] == "-" else "f" for a in args), [
        [(f["sig"], len(f["rows"])) for f in i] for i in beh["ins"]])
    streams = []
    for fs, i in zip(files, beh["ins"]):
        s = []
        for fr, f in zip(fs, i):
            for j in range(fr.nrows):
                if not beh["sql"] or f["rows"][j]["a"] == "a":
                    s.append((head(fr), fr.row(j)))
        streams.append(s)
    if beh["err"]:
        return None if rc == 1 else "%s has a column twice and must be refused: exit %s" % (desc, rc)
    if not all(streams):    # without rows, the definitions of the first frames may be refused
        if rc == 1 and any(f["sig"] == 4 for i in beh["ins"][1:] for f in i):
            return None
    if rc != 0:
        return "%s fails with %s: %s" % (desc, rc, log)
    want = [(sum((x[0] for x in rows), []), sum((x[1] for x in rows), [])) for rows in zip(*streams)]
    try:
        got = []
        for h in w.parse_stream(data):
            hd = [(k.name, k.type, tuple(k.bits)) for k in h["cols"]]
            for r in w.expand(h, h["rows"]):
                got.append((hd, [T.norm(k.type, v, k.missing) for k, v in zip(h["cols"], r)]))
    except w.WireError as e:
        return "%s writes an invalid file: %s" % (desc, e)
    d = T.diff(got, want)
    return "%s: %s" % (desc, d) if d else None


def q(xs):
    return ", ".join('"%s"' % x for x in xs)


def run(ck):
    ex = ck.tlc("Merge", CFG % (2, 2, 1, "1, 2", q("am"), "FALSE", "TRUE"), workers=2).prints
    if ck.thorough:
        ck.tlc("Merge", CFG % (2, 2, 2, "1, 4", q("ab"), "FALSE", "FALSE"), workers=8, timeout=1200)
    sim = []
    for mi, sigs, n in ((2, "1, 2, 3", 300), (3, "1, 2, 3", 200), (2, "1, 2, 3, 4", 120)):
        sim += ck.tlc("Merge", CFG % (mi, 4, 5, sigs, q("abm"), "TRUE", "TRUE"), simulate=ck.pick(n, n * 20), depth=80,
                      seed=ck.seed).prints
    ck.rng.shuffle(ex)
    plan = ex[:ck.pick(200, 4000)] + sim
    ck.cov["behaviours_available"] = len(ex) + len(sim)
    for lo in range(0, len(plan), 96):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        jobs = [(random.Random(ck.rng.random()), b, lo + i, ck.work) for i, b in enumerate(plan[lo:lo + 96])]
        for j, bad in zip(jobs, T.parallel(job, jobs)):
            ck.traces += 1
            ck.count("queries" if j[1]["sql"] else "files")
            if bad:
                ck.fail("sql" if j[1]["sql"] else "merge", bad, j[1])
    ck.sample({"behaviour": sim[0]})
    long_files(ck)
    scale.each(ck, ck.pick(3, 30), scale.merged)


def long_files(ck):
    """Inputs of different length, cut in other places, longer than the writer's buffer."""
    rng = ck.rng
    files, want = [], None
    for k, n in enumerate(([6000, 6001, 500], [1, 11999, 3000])):
        i = Input(rng, k, None, False)
        frs = []
        for m in n:
            f = {"sig": 2, "rows": [{"a": rng.choice("abm"), "b": rng.choice("abm")} for _ in range(m)]}
            frs.append(i.frame(f))
        files.append(frs)
    paths = []
    for k, f in enumerate(files):
        paths.append(os.path.join(ck.work, "long%d" % k))
        with open(paths[-1], "wb") as o:
            o.write(b"".join(x.bytes for x in f))
    outp = os.path.join(ck.work, "long.out")
    rc, out, err = T.run_tool(["merge", "-o", outp] + paths)
    a, b = [T.of_frames(f) for f in files]
    want = [(x[0] + y[0], x[1] + y[1]) for x, y in zip(a, b)]
    ck.traces += 1
    d = "exit %s %s" % (rc, err[-200:]) if rc else T.diff(T.of_bytes(open(outp, "rb").read()), want)
    if d:
        ck.fail("long", "odc merge of 12501 and 15000 rows: %s" % d)
