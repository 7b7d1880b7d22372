"""C04: frame navigation and aggregation (Stream.tla)."""
import os

import huge
import scale
import streams
import wires


def behaviours(ck):
    ex = ck.tlc("Stream", streams.CFG % (4, 0, "1, 2", "1, 2", "", "", "0, 1, 2, 3, 5", "FALSE"), workers=1).prints
    sim = ck.tlc("Stream", streams.CFG % (9, 4, "1, 2, 3", "1, 2, 3, 4", '"a"', "1", "0, 4, 5, 7, 11", "TRUE"),
                 simulate=ck.pick(150, 4000), depth=60, seed=ck.seed).prints
    return ex, sim


def check(ck, beh, frames, data, path, note):
    rng = ck.rng
    offs = [0]
    for f in frames:
        offs.append(offs[-1] + len(f.bytes))
    for via in ("cpp", "c"):
        rq = {"op": "decode", "via": via, "agg": beh["agg"], "max": beh["lim"] or -1, "path": path,
              "open": rng.choice(["path", "file", "mem", "dh"] if via == "cpp" else
                                 ["path", "fd", "buffer"] + ([] if beh["agg"] else ["stream"])),
              "copy_frames": rng.random() < 0.4 and not beh["err"], "encoded": True, "layout": rng.choice(["cols", "ext_row"])}
        if rq["open"] == "stream":
            rq["copy_frames"] = False
            rq["chunk"] = rng.choice([-1, 1, 13])
        r = ck.call(rq)
        nt = "%s %s agg=%s limit=%s %s" % (note, via, beh["agg"], beh["lim"],
                                         [(f["sig"], f["n"]) for f in beh["file"]])
        if "died" in r:
            ck.fail("crash", "reader crashed: %s (%s)" % (r["died"][:200], nt), rq)
            return
        want = 2 if beh["err"] else 1
        if r.get("end_rc") != want or len(r["frames"]) != len(beh["out"]):
            ck.fail("navigation", "%s: %d frames, end %s (%s); expected %d, end %d" %
                    (nt, len(r["frames"]), r.get("end_rc"), r.get("err"), len(beh["out"]), want), rq)
            return
        for gi, (g, fr) in enumerate(zip(beh["out"], r["frames"])):
            grp = [frames[i - 1] for i in g["g"]]
            a, b = offs[g["g"][0] - 1], offs[g["g"][-1]]
            if fr["rows"] != g["n"]:
                ck.fail("rows", "%s frame %d has %s rows, expected %d" % (nt, gi, fr["rows"], g["n"]), rq)
                return
            if [c["name"] for c in fr["cols"]] != grp[0].names():
                ck.fail("columns", "%s frame %d columns %s" % (nt, gi, fr["cols"]), rq)
                return
            if via == "cpp":
                if (fr["offset"], fr["length"]) != (a, b - a):
                    ck.fail("position", "%s frame %d at %s+%s, expected %d+%d" %
                            (nt, gi, fr["offset"], fr["length"], a, b - a), rq)
                    return
                if bytes.fromhex(fr.get("encoded") or "") != data[a:b]:
                    ck.fail("encoded", "%s frame %d: encoded bytes differ from the stream (%s)" %
                            (nt, gi, fr.get("encoded_err")), rq)
                    return
            if fr.get("drc") != 0:
                ck.fail("decode", "%s frame %d: %s" % (nt, gi, fr.get("derr")), rq)
                return
            for nm, hx in zip(grp[0].names(), fr["data"]):
                cells = [x for f in grp for x in f.cells(nm, "long")]
                col = grp[0].cols[grp[0].col(nm)]
                d = wires.diff_cells(col.type, hx, col.width, cells)
                if d:
                    ck.fail("value", "%s frame %d column %s: %s" % (nt, gi, nm, d), rq)
                    return


def run(ck):
    rng = ck.rng
    ex, sim = behaviours(ck)
    rows_pool = streams.pool(ck)
    rng.shuffle(ex)
    ck.cov["behaviours_available"] = len(ex) + len(sim)
    plan = ex[:ck.pick(1500, len(ex))] + sim
    rng.shuffle(plan)
    path = os.path.join(ck.work, "s.odb")
    ck.call({"op": "settings", "ints": "long"})
    for i, b in enumerate(plan):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = i
            break
        frames = streams.concretise(rng, b, rows_pool)
        data = b"".join(f.bytes for f in frames)
        with open(path, "wb") as o:
            o.write(data)
        check(ck, b, frames, data, path, "stream %d" % i)
        ck.traces += 1
        ck.count("frames", len(frames))
        if i < 2:
            ck.sample({"behaviour": b})
    scale.each(ck, ck.pick(3, 30), scale.decoded(True), first=lambda b: scale.late(b) > 65536)
    huge.read(ck, sim[:ck.pick(60, 800)])
