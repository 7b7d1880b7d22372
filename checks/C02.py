"""C02: every reader gives a frame's row-delta stream the meaning of the specification (RowDelta.tla)."""
import os

import scale
import wires

BASE = """CONSTANTS NC = %d
 MaxRows = %d
 Vals = {%s}
 MinLen = %d
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS IteratorAgrees DecoderAgrees SpanAgrees Untouched Emit
CHECK_DEADLOCK FALSE
"""


def behaviours(ck):
    small = ck.tlc("RowDelta", BASE % (3, 3, '"a", "m"', 1, "FALSE"), workers=1).prints
    if ck.thorough:
        small += ck.tlc("RowDelta", BASE % (2, 4, '"a", "b", "m"', 1, "FALSE"), workers=1).prints
    small += ck.tlc("RowDelta", BASE % (1, 4, '"a", "b", "m"', 1, "FALSE"), workers=1).prints
    big = []
    for nc, rows, n in ck.pick([(4, 9, 120), (7, 16, 150)], [(4, 9, 1500), (7, 16, 2000), (12, 40, 800)]):
        p = ck.tlc("RowDelta", BASE % (nc, rows, '"a", "b", "c", "m"', rows // 2, "TRUE"), simulate=n,
                   depth=2 * rows + 6, seed=ck.seed).prints
        seen = set()
        for b in p:
            k = str(b)
            if k not in seen:
                seen.add(k)
                big.append(b)
    return small, big


def expected(group, names, ints):
    out = []
    for n in names:
        kind = group[0].cols[group[0].col(n)].type
        width = group[0].cols[group[0].col(n)].width
        cells = []
        for f in group:
            cells += f.cells(n, ints)
        out.append((n, kind, width, cells))
    return out


def check_decode(ck, frames, path, ints, rq, note):
    r = ck.call(dict(rq, op="decode", path=path))
    if "died" in r:
        ck.fail("crash", "decode crashed: %s (%s)" % (r["died"][:200], note), rq)
        return
    gs = wires.groups(frames) if rq.get("agg") else [[f] for f in frames]
    if r.get("end_rc") != 1 or len(r["frames"]) != len(gs):
        ck.fail("frames", "%s: %d frames (end %s %s), expected %d" % (note, len(r["frames"]), r.get("end_rc"),
                                                                      r.get("err"), len(gs)), rq)
        return
    for gi, (g, fr) in enumerate(zip(gs, r["frames"])):
        n = sum(f.nrows for f in g)
        if fr["rows"] != n:
            ck.fail("rowcount", "%s frame %d: rows %s expected %s" % (note, gi, fr["rows"], n), rq)
            return
        got = [(c["name"], c["type"], c["size"]) for c in fr["cols"]]
        exp = [(c.desc["name"], c.type, c.width) for c in g[0].cols]
        if got != exp:
            ck.fail("columns", "%s frame %d: columns %s expected %s" % (note, gi, got, exp), rq)
            return
        if fr.get("drc") != 0:
            ck.fail("decode", "%s frame %d: decode failed: %s" % (note, gi, fr.get("derr")), rq)
            return
        if not fr.get("guard", True) or fr.get("bad_shape") or "accessor_mismatch" in fr:
            ck.fail("guard", "%s frame %d: wrote outside its target / wrong shape" % (note, gi), rq)
            return
        names = rq.get("cols") or g[0].names()
        for (nm, kind, width, cells), hx in zip(expected(g, names, ints), fr["data"]):
            d = wires.diff_cells(kind, hx, width, cells)
            if d:
                f = g[0]
                ck.fail("value", "%s frame %d column %s (%s, %s): %s" %
                        (note, gi, nm, f.cols[f.col(nm)].desc["codec"], f.bo, d), rq)
                return


def check_iter(ck, frames, path, ints, note):
    r = ck.call({"op": "iter", "path": path})
    if "died" in r:
        ck.fail("crash", "row iterator crashed: %s" % r["died"][:200], path)
        return
    rows = []
    for d in r["datasets"]:
        names = [c["name"] for c in d["cols"]]
        rows += [(names, x) for x in d["rows"]]
    exp = [(f, i) for f in frames for i in range(f.nrows)]
    if r["rc"] or len(rows) != len(exp):
        ck.fail("iter", "%s: row iterator gave %d rows (%s), expected %d" % (note, len(rows), r.get("err"), len(exp)),
                path)
        return
    for ri, ((names, row), (f, i)) in enumerate(zip(rows, exp)):
        if names != f.names():
            ck.fail("iter-cols", "%s: row %d: columns %s expected %s" % (note, ri, names, f.names()), path)
            return
        for c, hx, col in zip(names, row, f.cols):
            e = f.cells(c, ints)[i]
            if e is None:
                continue
            d = wires.diff_cells(col.type, hx, len(hx) // 2, [e])
            if d or len(hx) // 2 < col.width:
                ck.fail("iter-value", "%s: row iterator row %d (frame row %d) column %s (%s,%s): %s" %
                        (note, ri, i, c, col.desc["codec"], f.bo, d), path)
                return


def run(ck):
    rng = ck.rng
    small, big = behaviours(ck)
    rng.shuffle(small)
    syms = ["a", "b", "c", "m"]
    small = small[:ck.pick(2700, len(small))]
    plan = [small[i:i + 3] for i in range(0, len(small), 3)]
    i = 0
    while i < len(big):
        n = rng.choice([1, 2, 3])
        plan.append(big[i:i + n])
        i += n
    path = os.path.join(ck.work, "s.odb")
    ints = None
    for pi, behs in enumerate(plan):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = pi
            break
        if pi % 40 == 0:
            ints = "long" if (pi // 40) % 2 == 0 else "double"
            ck.call({"op": "settings", "ints": ints})
        frames = wires.stream(rng, behs, syms)
        data = b"".join(f.bytes for f in frames)
        with open(path, "wb") as f:
            f.write(data)
        note = "stream %d ints=%s" % (pi, ints)
        # 1 columnar decoding, C++
        rq = {"via": "cpp", "open": rng.choice(["path", "file", "mem", "dh"]), "agg": rng.random() < 0.4,
              "layout": rng.choice(["cols", "ext_row"]), "pad": rng.choice([0, 0, 8, 3]),
              "nthreads": rng.choice([1, 1, 1, 3]), "extra_rows": rng.choice([0, 2])}
        common = set(frames[0].names())
        for f in frames[1:]:
            common &= set(f.names())
        if common and rng.random() < 0.5:
            c = sorted(common)
            rng.shuffle(c)
            rq["cols"] = c[:rng.randint(1, len(c))]
        check_decode(ck, frames, path, ints, rq, note)
        # 2 C API
        rq = {"via": "c", "open": rng.choice(["path", "fd", "buffer", "stream"]), "agg": rng.random() < 0.4,
              "layout": rng.choice(["cols", "ext_row", "own_row", "own_col", "ext_col"]),
              "nthreads": rng.choice([1, 1, 2])}
        if rq["open"] == "stream":
            rq["agg"] = False   # a stream cannot be revisited
            rq["chunk"] = rng.choice([-1, 1, 7, 4096])
        if rq["layout"] == "cols":
            rq["pad"] = rng.choice([0, 8])
        check_decode(ck, frames, path, ints, rq, note)
        # 3 row iterator
        check_iter(ck, frames, path, ints, note)
        ck.traces += len(behs)
        ck.count("streams")
        ck.count("rows", sum(f.nrows for f in frames))
        if pi < 2:
            ck.sample({"wire": behs[0]["wire"], "columns": [(c.desc["name"], c.desc["codec"]) for c in frames[0].cols],
                       "byte_order": frames[0].bo})
    scale.each(ck, ck.pick(3, 30), scale.decoded(False))
