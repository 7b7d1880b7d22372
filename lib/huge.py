"""Files of many gigabytes, made of holes: the behaviours of Stream.tla with every number of rows multiplied."""
import os
import struct

import odbwire as w
import tables as T

SIGS = {1: ("a", w.INTEGER, "int32", 4), 2: ("a", w.DOUBLE, "long_real", 8), 3: ("b", w.INTEGER, "int32", 4)}


def write(rng, beh, path, scale):
    """scale(n): the rows of a frame of n rows. -> (offsets, rows); the cells of a frame of many rows are not there"""
    offs, rows = [0], []
    with open(path, "wb") as o:
        for f in beh["file"]:
            name, ty, codec, width = SIGS[f["sig"]]
            n = scale(f["n"])
            bo = rng.choice("<>")
            col = dict(name=name, type=ty, codec=codec, min=0, max=0)
            props = [(str(k), str(v)) for k, v in sorted(f["p"].items()) if v] if isinstance(f["p"], dict) else []
            if n < 100:
                b = w.build_frame([col], [(0, [i + 1]) for i in range(n)], props=props, bo=bo)
                o.write(b)
                size = len(b)
            else:
                b = w.build_frame([col], [], nrows=n, dataSize=n * (2 + width), props=props, bo=bo)
                o.write(b)
                size = len(b) + n * (2 + width)
                o.seek(offs[-1] + size)
            offs.append(offs[-1] + size)
            rows.append(n)
        o.truncate(offs[-1])
    return offs, rows


def holes(work):
    """Whether the disk can hold such files."""
    p = os.path.join(work, "huge.odb")
    try:
        with open(p, "wb") as o:
            o.truncate(1 << 38)
        ok = os.stat(p).st_blocks < 4096
    except OSError:
        ok = False
    if os.path.exists(p):
        os.unlink(p)
    return ok


def read(ck, behs):
    """Positions, lengths, rows and groups of frames whatever the size; frames of few rows are also decoded (not aggregated)."""
    if not holes(ck.work):
        ck.cov["huge_files"] = "no sparse files here"
        return
    path = os.path.join(ck.work, "huge.odb")
    ck.call({"op": "settings", "ints": "long"})
    for beh in behs:
        rng = ck.rng
        k = rng.choice([1 << 27, (1 << 28) + 1, 10 ** 9, 1 << 30])
        mixed = not beh["agg"] and rng.random() < 0.6
        scale = (lambda n: n if n < 3 else n * k) if mixed else (lambda n: n * k)
        offs, rows = write(rng, beh, path, scale)
        via = rng.choice(["c", "cpp", "cpp"])
        rq = {"op": "decode", "via": via, "agg": beh["agg"], "max": beh["lim"] * k if beh["lim"] else -1, "path": path,
              "open": "path" if via == "cpp" else rng.choice(["path", "fd"]), "encoded": True, "most_rows": 100,
              "copy_frames": rng.random() < 0.4 and not beh["err"]}
        r = ck.call(rq)
        nt = "file of %d bytes, frames of %s rows, agg=%s limit=%s %s" % (offs[-1], rows, beh["agg"], rq["max"], via)
        if "died" in r:
            ck.fail("huge-crash", "reader crashed: %s (%s)" % (r["died"][:200], nt), rq)
            continue
        want = 2 if beh["err"] else 1
        if r.get("end_rc") != want or len(r["frames"]) != len(beh["out"]):
            ck.fail("huge", "%s: %d frames, end %s (%s); expected %d" % (nt, len(r["frames"]), r.get("end_rc"), r.get("err"),
                                                                      len(beh["out"])), rq)
            continue
        for g, f in zip(beh["out"], r["frames"]):
            a, b = offs[g["g"][0] - 1], offs[g["g"][-1]]
            n = sum(rows[i - 1] for i in g["g"])
            if f["rows"] != n or (via == "cpp" and (f["offset"], f["length"]) != (a, b - a)):
                ck.fail("huge", "%s: frame of %s rows at %s+%s, expected %d rows at %d+%d" %
                        (nt, f["rows"], f.get("offset"), f.get("length"), n, a, b - a), rq)
                break
            if n <= 100:
                with open(path, "rb") as o:
                    o.seek(a)
                    raw = o.read(b - a)
                if via == "cpp" and bytes.fromhex(f.get("encoded") or "") != raw:
                    ck.fail("huge", "%s: the bytes of the frame at %d differ (%s)" % (nt, a, f.get("encoded_err")), rq)
                    break
                vals = list(range(1, n + 1))
                real = SIGS[beh["file"][g["g"][0] - 1]["sig"]][1] == w.DOUBLE
                cells = struct.pack("<%d%s" % (n, "d" if real else "q"), *vals)
                if f.get("drc") != 0 or bytes.fromhex(f["data"][0]) != cells:
                    ck.fail("huge", "%s: the frame at %d is decoded as %s (%s)" % (nt, a, f.get("data"), f.get("derr")), rq)
                    break
                ck.count("huge_decoded")
        ck.traces += 1
        ck.count("huge_files")
        ck.cov["largest_file"] = max(ck.cov.get("largest_file", 0), offs[-1])
    if os.path.exists(path):
        os.unlink(path)


def listed(ck, behs):
    """The tools that list frames, and what they say of a file that ends too soon."""
    if not holes(ck.work):
        ck.cov["huge_files"] = "no sparse files here"
        return
    path = os.path.join(ck.work, "huge.odb")
    for beh in behs:
        rng = ck.rng
        k = rng.choice([1 << 27, (1 << 28) + 1, 10 ** 9, 1 << 30])
        offs, rows = write(rng, beh, path, (lambda n: n if n < 3 else n * k) if rng.random() < 0.5 else (lambda n: n * k))
        nt = "file of %d bytes, frames of %s rows" % (offs[-1], rows)
        rc, out, err = T.run_tool(["count", path])
        if rc != 0 or out.split() != [b"%d" % sum(rows)]:
            ck.fail("huge", "%s: odc count gives %r (exit %s %s)" % (nt, out[:80], rc, err[-200:]), beh)
        r = ck.call({"op": "rowcount", "path": path})
        if r.get("n") != sum(rows):
            ck.fail("huge", "%s: fastRowCount gives %s" % (nt, r), beh)
        rc, out, err = T.run_tool(["header", path, "-offsets"])
        want = [[str(x) for x in (a, b - a, n, 1)] for a, b, n in zip(offs, offs[1:], rows)]
        if rc != 0 or [ln.split() for ln in out.decode().splitlines()] != want:
            ck.fail("huge", "%s: odc header -offsets gives %r, expected %s" % (nt, out[:600], want), beh)
        rc, out, err = T.run_tool(["header", path])
        for i, (a, b, n) in enumerate(zip(offs, offs[1:], rows)):
            ln = "Header %d. Begin offset: %d, end offset: %d, number of rows in block: %d, byteOrder: " % (i + 1, a, b, n)
            if rc != 0 or ln not in out.decode():
                ck.fail("huge", "%s: odc header (exit %s) has no line %s" % (nt, rc, ln), beh)
                break
        if rows and rows[-1] > 100:
            with open(path, "r+b") as o:
                o.truncate(offs[-1] - rng.choice([1, 5, 1 << 20]))
            rc, out, err = T.run_tool(["count", path])
            if rc != 1:
                ck.fail("huge", "%s, cut: odc count exits with %s, %r" % (nt, rc, out[:80]), beh)
        ck.traces += 1
        ck.count("huge_files")
        ck.cov["largest_file"] = max(ck.cov.get("largest_file", 0), offs[-1])
    if os.path.exists(path):
        os.unlink(path)
