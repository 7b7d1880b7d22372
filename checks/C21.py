"""C21: count, header and index tools (Listing.tla)."""
import os
import re

import concrete
import huge
import odbwire as w
import scale
import streams
import tables as T

CFG = """CONSTANTS MaxFiles = %d
 MaxFrames = %d
 MaxRows = %d
 Seqnos = {%s}
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Counted Covers IndexExact IndexMinimal Emit
CHECK_DEADLOCK FALSE
"""
TYPES = {w.INTEGER: "INTEGER", w.REAL: "REAL", w.STRING: "STRING", w.BITFIELD: "BITFIELD", w.DOUBLE: "DOUBLE"}
SY = ["a", "b", "c", "m"]


def seq_values(rng):
    """Values of the symbolic report numbers, all different."""
    pool = [0, 1, -1, 2, 255, 256, 65535, 65536, -2147483648, 2147483646, 1000000, 77]
    rng.shuffle(pool)
    return {1: pool[0], 2: pool[1], 3: pool[2], 4: pool[3]}


def seq_column(rng, name, vals, syms):
    use = {s: vals[s] for s in (syms or [1])}
    lo, hi = min(use.values()), max(use.values())
    codecs = ["int32"]
    if lo == hi:
        codecs += ["constant", "constant_or_missing"]
    for n, lim in (("int8", 255), ("int16", 65535), ("int8_missing", 254), ("int16_missing", 65534)):
        if hi - lo <= lim:
            codecs.append(n)
    return T.fixed_column(name, w.INTEGER, rng.choice(codecs), use)


def concretise(rng, files):
    vals = seq_values(rng)
    name = rng.choice(["seqno", "seqno", "seqno@hdr"])
    out = []
    for f in files:
        frames = []
        nx = rng.randint(0, 3)
        extra = None
        for seqs in f:
            if extra is None or rng.random() < 0.5:
                nx = rng.randint(0, 3)
                extra = [concrete.foreign_column(rng, "x%d" % i, SY) for i in range(nx)]
            cut = rng.randint(0, nx)
            cols = extra[:cut] + [seq_column(rng, name, vals, seqs)] + extra[cut:]
            rows = []
            for s in seqs:
                r = [rng.choice(SY) for _ in range(nx)]
                rows.append(r[:cut] + [s] + r[cut:])
            props = [("k%d" % i, "v" * rng.choice([0, 1, 50])) for i in range(rng.randint(0, 2))]
            frames.append(T.TFrame(rng, cols, rows, rng.choice("<>"), props))
        out.append(frames)
    return out, vals


def job(a):
    rng, beh, n, work = a
    files, vals = concretise(rng, beh["files"])
    paths = []
    for i, fr in enumerate(files):
        p = os.path.join(work, "s%d-%d.odb" % (n, i))
        with open(p, "wb") as o:
            o.write(b"".join(f.bytes for f in fr))
        paths.append(p)
    idx = os.path.join(work, "s%d.idx" % n)
    keep = paths + [idx]
    try:
        return look(beh, files, vals, paths, idx)
    finally:
        for p in keep:
            if os.path.exists(p):
                os.unlink(p)


def look(beh, files, vals, paths, idx):
    """-> (key, what) of the first divergence, or None"""
    sig = [[len(f) for f in x] for x in beh["files"]]
    rc, out, err = T.run_tool(["count"] + paths)
    if rc != 0 or out.decode().split() != [str(beh["total"])]:
        return "count", "odc count of files with frames of %s rows: exit %s, %r, expected %d" % (sig, rc, out[:80],
                                                                                               beh["total"])
    for fi, (p, frames) in enumerate(zip(paths, files)):
        offs = [0]
        for f in frames:
            offs.append(offs[-1] + len(f.bytes))
        rc, out, err = T.run_tool(["header", p, "-offsets"])
        want = [[str(x) for x in (offs[i], len(f.bytes), f.nrows, len(f.cols))] for i, f in enumerate(frames)]
        got = [ln.split() for ln in out.decode().splitlines()]
        if rc != 0 or got != want:
            return "offsets", "odc header -offsets: exit %s, %s, expected %s" % (rc, got, want)
        rc, out, err = T.run_tool(["header", p])
        text = out.decode("latin1")
        heads = re.findall(r"Header (\d+)\. Begin offset: (\d+), end offset: (\d+), number of rows in block: (\d+), "
                           r"byteOrder: (\w+)", text)
        want = [(str(i + 1), str(offs[i]), str(offs[i + 1]), str(f.nrows), "same" if f.bo == "<" else "other")
                for i, f in enumerate(frames)]
        if rc != 0 or heads != want:
            return "header", "odc header: exit %s, %s, expected %s" % (rc, heads, want)
        for part, f in zip(text.split("\nHeader ")[1:], frames):
            cols = re.findall(r"^\s*(\d+)\. name: ([^,]+), type: (\w+)(?: \[([^\]]*)\] )?, codec: (\w+)", part, re.M)
            want = [(str(i), c.desc["name"], TYPES[c.type],
                     ";".join("%s:%d" % b for b in c.desc.get("bits", [])), c.desc["codec"])
                    for i, c in enumerate(f.cols)]
            if cols != want:
                return "columns", "odc header: columns %s, expected %s" % (cols, want)
        rc, out, err = T.run_tool(["index", p, idx])
        if rc != 0:
            return "index", "odc index fails with %s on frames of %s rows: %s" % (rc, sig[fi], (out + err)[-200:])
        try:
            rows = T.of_bytes(open(idx, "rb").read())
        except w.WireError as e:
            return "index", "the index is not a valid file: %s" % e
        want = [[offs[e["f"] - 1], len(frames[e["f"] - 1].bytes), vals[e["s"]], e["n"]] for e in beh["index"][fi]]
        names = ["block_begin", "block_length", "seqno", "n_rows"]
        if [r[1] for r in rows] != want or any([c[0] for c in r[0]] != names for r in rows):
            return "index", "odc index of report numbers %s: entries %s, expected %s" % (
                beh["files"][fi], [r[1] for r in rows], want)
    return None


def run(ck):
    import random
    ex = ck.tlc("Listing", CFG % (2, 2, 2, "1, 2", "FALSE"), workers=1).prints
    sim = ck.tlc("Listing", CFG % (3, 4, 6, "1, 2, 3", "TRUE"), simulate=ck.pick(400, 8000), depth=90,
                 seed=ck.seed).prints
    ck.rng.shuffle(ex)
    plan = ex[:ck.pick(300, 3000)] + sim
    ck.cov["behaviours_available"] = len(ex) + len(sim)
    for lo in range(0, len(plan), 64):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        part = plan[lo:lo + 64]
        jobs = [(random.Random(ck.rng.random()), b, lo + i, ck.work) for i, b in enumerate(part)]
        for b, bad in zip(part, T.parallel(job, jobs)):
            ck.traces += 1
            if bad:
                ck.fail(bad[0], bad[1], b)
    ck.sample({"behaviour": plan[0]})
    # the library's counter, and a file that is being appended to
    path = os.path.join(ck.work, "grow.odb")
    total, data = 0, b""
    for b in sim[:ck.pick(40, 300)]:
        files, _ = concretise(ck.rng, b["files"][:1])
        for f in files[0]:
            data += f.bytes
            total += f.nrows
            with open(path, "wb") as o:
                o.write(data)
            r = ck.call({"op": "rowcount", "path": path})
            if r.get("n") != total:
                ck.fail("library", "RowsCounter::fastRowCount gives %s for %d rows (%s)" % (r.get("n"), total, r))
            ck.traces += 1
    scale.each(ck, ck.pick(3, 30), scale.listed)
    big = ck.tlc("Stream", streams.CFG % (5, 1, "1, 2, 3", "1, 2, 3, 4", '"a"', "1", "0", "TRUE"), simulate=ck.pick(25, 300),
                 depth=40, seed=ck.seed).prints
    huge.listed(ck, big[:ck.pick(25, 300)])
