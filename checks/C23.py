"""C23: several iterators over readers (Iter.tla)."""
import os

import concrete
import odbwire as w
import tables as T
import wires

CFG = """CONSTANTS Shares = %s
 NFiles = %d
 MaxReaders = %d
 MaxFrames = %d
 RowCounts = {%s}
 Ids = {%s}
 MaxSteps = %d
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS InOrder AllSeen Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
"""


def ids(n):
    return ", ".join(str(i) for i in range(1, n + 1))


def behaviours(ck, shares):
    s = "TRUE" if shares else "FALSE"
    nr = 2 if shares else 1
    out = ck.tlc("Iter", CFG % (s, 1, nr, 2, "2", ids(2), 5 if shares else 5, "FALSE"), workers=1).prints
    ck.rng.shuffle(out)
    out = out[:ck.pick(700, 6000)]
    for files, frames, steps, n in ck.pick([(2, 4, 16, 700)], [(2, 5, 30, 4000), (3, 6, 60, 2000)]):
        sim = ck.tlc("Iter", CFG % (s, files if shares else 1, 3 if shares else 1, frames, "0, 1, 2, 3", ids(4), steps,
                                    "TRUE"), simulate=n, depth=steps + frames * files + 3, seed=ck.seed).prints
        seen = set()
        for b in sim:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    return out


SYMS = ["a", "b", "c", "m"]


def make(rng, counts):
    frames, base = [], None
    serial = [0]
    for n in counts:
        r = rng.random()
        if base is None or r < 0.4:
            base = wires.columns(rng, rng.choice([1, 2, 3]), SYMS)
        elif r < 0.7:
            base = wires.variant(rng, base, SYMS)
        vals = {}
        for i in range(n):
            vals["r%d" % i] = serial[0]
            serial[0] += 1
        idc = T.fixed_column("serial", w.INTEGER, "int32", vals)
        at = rng.randint(0, len(base))
        cols = base[:at] + [idc] + base[at:]
        rows = [["r%d" % i if k == at else rng.choice(SYMS) for k in range(len(cols))] for i in range(n)]
        props = [("p", "v%d" % rng.randint(0, 99))] if rng.random() < 0.5 else []
        frames.append(T.TFrame(rng, cols, rows, rng.choice("<>"), props))
    return frames


def replay_rows(ck, beh, ints, note):
    rng = ck.rng
    files, paths = [], []
    for k, counts in enumerate(beh["files"]):
        files.append(make(rng, counts))
        p = os.path.join(ck.work, "f%d.odb" % (k + 1))
        with open(p, "wb") as f:
            f.write(b"".join(x.bytes for x in files[-1]))
        paths.append(p)
    script = []
    readers = []
    for s in beh["log"]:
        a = {"act": s["act"]}
        if s["act"] == "open":
            readers.append(s["it"])
            a["path"] = paths[s["it"] - 1]
        else:
            a["it"] = s["it"]
            if s["act"] == "begin":
                a["reader"] = s["from"] - 1
            elif s["act"] == "copy":
                a["from"] = s["from"]
        script.append(a)
    rq = {"op": "iters", "script": script}
    r = ck.call(rq)
    if "died" in r:
        ck.fail("crash", "%s: iterators crashed: %s" % (note, r["died"][:200]), {"beh": beh})
        return
    if r.get("rc") != 0 or len(r["out"]) != len(script):
        ck.fail("iters", "%s: %s" % (note, r.get("err")), {"beh": beh})
        return
    of = {}
    for n, (s, o) in enumerate(zip(beh["log"], r["out"])):
        nt = "%s step %d %s it=%s files=%s" % (note, n + 1, s["act"], s["it"], beh["files"])
        if "err" in o:
            ck.fail("error", "%s: failed: %s" % (nt, o["err"]), {"beh": beh})
            return
        if s["act"] == "begin":
            of[s["it"]] = readers[s["from"] - 1]
        elif s["act"] == "copy":
            of[s["it"]] = of[s["from"]]
        if s["act"] in ("open", "drop"):
            continue
        at = s["at"]
        if o["more"] != at["more"]:
            ck.fail("more", "%s: %s, expected %s" % (nt, "a row" if o["more"] else "the end",
                                                     "row %d of frame %d" % (at["row"], at["frame"])
                                                     if at["more"] else "the end"), {"beh": beh})
            return
        if not at["more"]:
            continue
        f = files[of[s["it"]] - 1][at["frame"] - 1]
        i = at["row"] - 1
        if o["cols"] != f.names():
            ck.fail("columns", "%s: columns %s, expected %s" % (nt, o["cols"], f.names()), {"beh": beh})
            return
        first = not any(x for x in beh["files"][of[s["it"]] - 1][:at["frame"] - 1])
        if o["newds"] != (i == 0) and not (first and i == 0):   # at the start of a pass it is not reported
            ck.fail("newds", "%s: isNewDataset %s at row %d of a frame" % (nt, o["newds"], i), {"beh": beh})
            return
        for k, (c, hx) in enumerate(zip(f.cols, o["row"])):
            e = c.cell(f.symrows[i][k], ints)
            d = wires.diff_cells(c.type, hx, len(hx) // 2, [e])
            if d or len(hx) // 2 < c.width:
                ck.fail("value", "%s: frame %d row %d column %s: %s" % (nt, at["frame"], i, c.desc["name"], d),
                        {"beh": beh})
                return


def replay_tables(ck, beh, note):
    frames = make(ck.rng, beh["files"][0])
    offs = [0]
    for f in frames:
        offs.append(offs[-1] + len(f.bytes))
    data = b"".join(f.bytes for f in frames)
    script, log = [], []
    for s in beh["log"]:
        if s["act"] in ("open", "drop"):
            continue
        a = {"act": s["act"], "it": s["it"]}
        if s["act"] == "copy":
            a["from"] = s["from"]
        script.append(a)
        log.append(s)
    if not script:
        return
    r = ck.call({"op": "tables", "open": "mem", "hex": data.hex(), "script": script})
    if "died" in r:
        ck.fail("crash", "%s: table navigation crashed: %s" % (note, r["died"][:200]), {"beh": beh})
        return
    if r.get("rc") != 0:
        ck.fail("tables", "%s: %s" % (note, r.get("err")), {"beh": beh})
        return
    for n, (s, o) in enumerate(zip(log, r["out"])):
        nt = "%s tables step %d %s it=%s frames=%s" % (note, n + 1, s["act"], s["it"], beh["files"][0])
        if "err" in o:
            ck.fail("tables-error", "%s: failed: %s" % (nt, o["err"]), {"beh": beh})
            return
        at = s["at"]
        if o["at_end"] == at["more"]:
            ck.fail("tables-more", "%s: at end %s, expected %s" % (nt, o["at_end"], not at["more"]), {"beh": beh})
            return
        if not at["more"]:
            continue
        k = at["frame"] - 1
        want = (offs[k], offs[k + 1], frames[k].nrows, len(frames[k].cols), len(frames[k].bytes), True)
        got = (o["offset"], o["next"], o["rows"], o["ncols"], o["bytes"], o["same"])
        if got != want:
            ck.fail("tables-value", "%s: (offset, next, rows, columns, bytes, same bytes) %s, expected %s" %
                    (nt, got, want), {"beh": beh})
            return


def run(ck):
    jobs = [("rows", b) for b in behaviours(ck, True)] + [("tables", b) for b in behaviours(ck, False)]
    ck.rng.shuffle(jobs)
    ints = "long"
    ck.call({"op": "settings", "ints": ints})
    for n, (kind, b) in enumerate(jobs):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = n
            break
        if n % 200 == 100:
            ints = "double" if ints == "long" else "long"
            ck.call({"op": "settings", "ints": ints})
        if kind == "rows":
            replay_rows(ck, b, ints, "script %d" % n)
        else:
            replay_tables(ck, b, "script %d" % n)
        ck.traces += 1
        ck.count(kind)
        if n < 2:
            ck.sample(b)
