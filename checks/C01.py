"""C01: encoding then decoding returns every value, for every codec choice of Codecs.tla."""
import os
import struct

import encgen
import odbwire as w
import wires


def expect(cols, rpf, nrows, ints):
    for s in range(0, nrows, rpf):
        yield [[c.cell(v, ints) for v in c.values[s:s + rpf]] for c in cols]


def compare(ck, cols, nrows, rpf, ints, r, note, rq):
    if "died" in r:
        ck.fail("crash", "decode crashed: %s (%s)" % (r["died"][:200], note), rq)
        return
    frames = list(expect(cols, rpf, nrows, ints))
    if r.get("end_rc") != 1 or len(r["frames"]) != len(frames):
        ck.fail("frames", "%s: %d frames (end %s %s), expected %d" %
                (note, len(r["frames"]), r.get("end_rc"), r.get("err"), len(frames)), rq)
        return
    for fi, (fr, exp) in enumerate(zip(r["frames"], frames)):
        if fr.get("drc") != 0:
            ck.fail("decode", "%s: frame %d: decode failed %s" % (note, fi, fr.get("derr")), rq)
            return
        got = [(c["name"], c["type"], c["size"]) for c in fr["cols"]]
        for c, (n, t, s) in zip(cols, got):
            if (n, t) != (c.name, c.type) or s > c.size:
                ck.fail("column", "%s: frame %d column %s type %d size %d decoded as %s %d %d" %
                        (note, fi, c.name, c.type, c.size, n, t, s), rq)
                return
        if len(got) != len(cols) or fr["rows"] != len(exp[0]):
            ck.fail("shape", "%s: frame %d has %d columns %d rows" % (note, fi, len(got), fr["rows"]), rq)
            return
        for c, (n, t, s), hx, cells in zip(cols, got, fr["data"], exp):
            cells = [x[:s] if not x[s:].strip(b"\0") else x for x in cells]
            if any(len(x) > s for x in cells):
                d = "decoded width %d is too small" % s
            else:
                d = wires.diff_cells(t, hx, s, cells)
            if d:
                ck.fail("value", "%s: frame %d column %s (type %d): %s" % (note, fi, n, t, d),
                        dict(rq, values=[repr(v) for v in c.values[:20]]))
                return


def roundtrip(ck, cols, nrows, rpf, ints, note, path):
    rng = ck.rng
    enc = {"op": "encode", "via": rng.choice(["c", "cpp"]), "nrows": nrows, "rpf": rpf, "path": path,
           "want_data": False, "dest": "buffer" if nrows * len(cols) < 50000 else "stream"}
    if enc["via"] == "cpp":
        enc["dest"] = "dh"
    pad = rng.choice([0, 0, 8])
    r = ck.call(dict(enc, cols=[c.spec(ints, pad) for c in cols]))
    if "died" in r:
        ck.fail("crash", "encode crashed: %s (%s)" % (r["died"][:200], note), enc)
        return
    if r["rc"] or r.get("setup_rc"):
        ck.fail("encode", "%s: encode failed: %s" % (note, r.get("err")),
                dict(enc, cols=[(c.name, c.type, [repr(v) for v in c.values]) for c in cols[:5]]))
        return
    rq = {"op": "decode", "via": rng.choice(["c", "cpp"]), "open": "path", "path": path, "layout": "cols"}
    compare(ck, cols, nrows, rpf, ints, ck.call(rq), note + " " + enc["via"] + ">" + rq["via"], rq)


def many_columns(ck, path):
    """The marker of a row has 16 bits: 65535 columns are the most that a frame can have."""
    vals = [[1.5, 1.5, 2.5], [1.5, 1.5, 1.5], [-4.25, -4.25, 3.0]]
    hx = [struct.pack("<3d", *v).hex() for v in vals]
    for n in (65535, 65536):
        ends = {0: 0, n - 1: 2}
        cols = [{"name": "c%d" % i, "type": w.REAL, "data": hx[ends.get(i, 1)]} for i in range(n)]
        r = ck.call({"op": "encode", "via": "cpp", "dest": "dh", "path": path, "nrows": 3, "cols": cols, "want_data": False})
        note = "%d columns" % n
        ck.traces += 1
        if "died" in r:
            ck.fail("crash", "%s: %s" % (note, r["died"][:200]), {"columns": n})
        elif n > 65535:
            if r["rc"] == 0:
                ck.fail("many-columns", "%s: encoding did not fail" % note, {"columns": n})
        elif r["rc"] != 0:
            ck.fail("many-columns", "%s: encoding failed: %s" % (note, r.get("err")), {"columns": n})
        else:
            g = ck.call({"op": "iter", "path": path, "max_rows": 5})
            rows = [x for d in g.get("datasets", []) for x in d["rows"]]
            exp = [[struct.pack("<d", vals[ends.get(i, 1)][k]).hex() for i in range(n)] for k in range(3)]
            if g.get("rc") or rows != exp:
                ck.fail("many-columns", "%s: read back differently: %s" % (note, g.get("err") or len(rows)), {"columns": n})


def run(ck):
    rng = ck.rng
    behs = encgen.behaviours(ck)
    ck.assumptions += ["REAL columns are given values of 32 bits",
                       "-0.0 and +0.0 are the same value, and so are all NaNs"]
    path = os.path.join(ck.work, "c.odb")
    many_columns(ck, path)
    nb = 0
    for ints in ("long", "double"):
        ck.call({"op": "settings", "ints": ints})
        for cols, nrows, rpf in encgen.batches(rng, behs):
            # whether constant strings of more than 8 bytes may be written with a codec of their own
            ck.call({"op": "settings", "longconst": rng.random() < 0.5})
            roundtrip(ck, cols, nrows, rpf, ints, "batch %d ints=%s" % (nb, ints), path)
            ck.traces += 3 * len(cols)
            ck.count("cells", nrows * len(cols))
            nb += 1
            if nb == 3:
                ck.sample({"type": cols[0].type, "rows_per_frame": rpf, "values": [repr(v) for v in cols[0].values]})
            if ck.elapsed() > ck.budget:
                ck.cov["cut_short"] = True
                return
    for ints in ("long", "double"):
        ck.call({"op": "settings", "ints": ints})
        for kind in ("wide", "huge") if ints == "long" else ("wide",):
            for b in behs[kind]:
                m = encgen.wide_map(rng, set(b["cells"]), kind)
                col = encgen.ECol("c", w.INTEGER, 8, [m[s] for s in b["cells"]])
                n = len(col.values)
                ck.traces += 1
                ck.count("wide_integers")
                if b["codec"] != "reject":
                    roundtrip(ck, [col], n, n, ints, "integers %s ints=%s" % (col.values, ints), path)
                    continue
                via, dest = rng.choice([("c", "stream"), ("cpp", "dh")])
                r = ck.call({"op": "encode", "via": via, "dest": dest, "nrows": n, "rpf": n, "want_data": False,
                             "cols": [col.spec(ints)]})
                if "died" in r or r["rc"] == 0:
                    ck.fail("wide", "integers %s ints=%s: encoding did not fail: %s" % (col.values, ints, r), {"values": col.values})
    ck.call({"op": "settings", "ints": "long"})
    for col, nrows, rpf, reject in encgen.string_tables(rng, behs, ck.thorough):
        ck.traces += 1
        ck.count("string_tables")
        other = encgen.ECol("i", w.INTEGER, 8, [i % 7 for i in range(nrows)])
        note = "string table of %d" % len(set(col.values))
        if not reject:
            roundtrip(ck, [other, col], nrows, rpf, "long", note, path)
            continue
        r = ck.call({"op": "encode", "via": "c", "dest": "stream", "nrows": nrows, "rpf": rpf, "want_data": False,
                     "cols": [col.spec("long")]})
        if "died" in r or r["rc"] == 0:
            ck.fail("overfull", "%s: encoding did not fail: %s" % (note, r), {"nd": nrows})
