"""C05: truncated or corrupted streams are reported (Faults.tla)."""
import os
import subprocess

import build
import odbwire as w
import streams
import wires

CFG = """CONSTANTS MaxFrames = 3
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS ReportedExactly NothingLost NoneInvented Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
"""
READERS = {"sized": [("cpp", "path"), ("cpp", "file"), ("cpp", "mem"), ("cpp", "dh"), ("c", "path"), ("c", "buffer")],
           "unsized": [("c", "fd"), ("c", "stream")], "rows": [("iter", "")]}
TOOLS = [["count"], ["header"], ["header", "-offsets"], ["sql", "select *", "-i"], ["ls"]]


def regions(data, off):
    """Offsets of the regions of the frame at off: names as in the specification -> (begin, end)."""
    h = w.parse_header(data, off)
    return {"magic": (off, off + 5), "order": (off + 5, off + 9), "version": (off + 9, off + 17),
            "digest": (off + 17, off + 53), "hsize": (off + 53, off + 57), "var": (off + 57, h["data"]),
            "rows": (h["data"], h["end"])}


class Stream:
    def __init__(self, rng, pool, nf, agg_like=False):
        nc = rng.choice([2, 3])
        behs = [rng.choice(pool[(nc if agg_like else rng.choice([2, 3]), rng.randint(1, 3))]) for _ in range(nf)]
        self.frames = wires.stream(rng, behs, streams.SYMS, homogeneous="agg" if agg_like else None)
        self.data = b"".join(f.bytes for f in self.frames)
        self.offs = [0]
        for f in self.frames:
            self.offs.append(self.offs[-1] + len(f.bytes))
        self.regions = [regions(self.data, o) for o in self.offs[:-1]]

    def faulted(self, rng, beh, limit):
        """-> list of (description, bytes)"""
        ft = beh["fault"]
        if ft["kind"] == "none":
            return [("no fault", self.data)]
        if ft["kind"] == "junk":
            return [("%d other bytes after the last frame" % len(j), self.data + j) for j in
                    (b"\0", b"\xff", b"\xff\xffOD", b"\0" * 100, self.frames[0].bytes[1:], b"ODA" + self.frames[0].bytes)]
        a, b = self.regions[ft["f"] - 1][beh["region"]]
        if ft["kind"] == "cut":
            if not ft["inside"]:
                return [("cut at %d, before %s of frame %d" % (a, beh["region"], ft["f"]), self.data[:a])]
            pos = list(range(a + 1, b))
            if len(pos) > limit:
                pos = sorted({pos[0], pos[-1]} | set(rng.sample(pos, limit - 2)))
            return [("cut at %d, inside %s of frame %d" % (p, beh["region"], ft["f"]), self.data[:p]) for p in pos]
        pos = list(range(a, b))
        if len(pos) > limit:
            pos = sorted({pos[0], pos[-1]} | set(rng.sample(pos, limit - 2)))
        out = []
        for p in pos:
            x = rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 0xff, rng.randint(1, 255)])
            d = bytearray(self.data)
            d[p] ^= x
            if beh["region"] == "version":
                bo = self.frames[ft["f"] - 1].bo
                minor = int.from_bytes(d[a + 4:a + 8], "little" if bo == "<" else "big", signed=True)
                major = int.from_bytes(d[a:a + 4], "little" if bo == "<" else "big", signed=True)
                if major == 0 and minor in (4, 5):   # another version that is supported
                    continue
            out.append(("byte %d in %s of frame %d changed by xor %#x" % (p, beh["region"], ft["f"], x), bytes(d)))
        return out


def same_frame(frame, cols, data, ints):
    for nm, hx in zip(frame.names(), data):
        c = frame.cols[frame.col(nm)]
        d = wires.diff_cells(c.type, hx, c.width, frame.cells(nm, ints))
        if d:
            return "column %s: %s" % (nm, d)
    return None


def check_frames(ck, st, beh, via, how, note, path):
    rng = ck.rng
    rq = {"op": "decode", "via": via, "open": how, "path": path, "agg": False, "layout": rng.choice(["cols", "ext_row"]),
          "nthreads": rng.choice([1, 1, 2])}
    if how == "stream":
        rq["chunk"] = rng.choice([-1, 1, 64])
    r = ck.call(rq)
    note = "%s; %s %s" % (note, via, how)
    if "died" in r:
        ck.fail("crash", "%s: reader crashed or hung: %s" % (note, r["died"][:200]), rq)
        return False
    got = []
    for i, fr in enumerate(r["frames"]):
        if fr.get("drc") != 0:
            got.append("fails")
        elif i >= len(st.frames):
            got.append("invented")
        else:
            f = st.frames[i]
            d = "rows %s" % fr["rows"] if fr["rows"] != f.nrows or [c["name"] for c in fr["cols"]] != f.names() else \
                same_frame(f, fr["cols"], fr["data"], "long")
            got.append("good" if not d else "changed")
    # a decoding error is the report; what follows it is not prescribed
    if "fails" in got:
        got = got[:got.index("fails") + 1]
        res = "error"
    else:
        res = "end" if r["end_rc"] == 1 else "error"
    want = list(beh["delivered"])
    if "changed" in want:   # the rows' own bytes are not protected: an error or other rows, the rest unaffected
        i = want.index("changed")
        ok = got[:i] == want[:i] and (got[i:i + 1] == ["fails"] or
                                      (len(got) == len(want) and got[i] in ("good", "changed") and
                                       got[i + 1:] == want[i + 1:] and res == "end"))
    else:
        ok = got == want and res == beh["result"]
        # when it is the rows that are cut, a reader may also refuse the whole frame, or find out by decoding it
        if not ok and want != ["fails"] and beh["region"] == "rows" and beh["fault"]["kind"] == "cut":
            strip = lambda x: [d for d in x if d != "fails"]
            ok = strip(got) == strip(want) and res == "error"
    if not ok:
        ck.fail("frames", "%s: delivered %s then %s; expected %s then %s (%s)" %
                (note, got, res, want, beh["result"], r.get("err") or ""), dict(rq, beh=beh))
        return False
    return True


def check_rows(ck, st, beh, note, path):
    r = ck.call({"op": "iter", "path": path})
    if "died" in r:
        ck.fail("crash", "%s: row iterator crashed or hung: %s" % (note, r["died"][:200]), {"beh": beh})
        return False
    rows = [x for d in r["datasets"] for x in d["rows"]]
    n = len([d for d in beh["delivered"] if d != "fails"])
    exp = [(f, i) for f in st.frames[:n] for i in range(f.nrows)]
    changed = beh["delivered"].index("changed") if "changed" in beh["delivered"] else None
    res = "error" if r["rc"] else "end"
    if changed is not None:
        before = sum(f.nrows for f in st.frames[:changed])
        ok = (res == "end" and len(rows) == len(exp)) or (res == "error" and len(rows) >= before)
        exp = exp[:before]
        rows = rows[:before]
    else:
        ok = res == beh["result"] and len(rows) == len(exp)
    if not ok:
        ck.fail("rows", "%s; row iterator: %d rows then %s (%s); expected %d then %s" %
                (note, len(rows), res, r.get("err"), len(exp), beh["result"]), {"beh": beh})
        return False
    for row, (f, i) in zip(rows, exp):
        for nm, hx in zip(f.names(), row):
            c = f.cols[f.col(nm)]
            d = wires.diff_cells(c.type, hx, len(hx) // 2, [f.cells(nm, "long")[i]])
            if d:
                ck.fail("row-value", "%s; row iterator row %d column %s: %s" % (note, i, nm, d), {"beh": beh})
                return False
    return True


def check_agg(ck, st, beh, note, path):
    """Aggregated reading: only frames that are complete, in order, then the error."""
    rng = ck.rng
    rq = {"op": "decode", "via": rng.choice(["c", "cpp"]), "open": "path", "path": path, "agg": True, "layout": "cols"}
    r = ck.call(rq)
    note += "; aggregated " + rq["via"]
    if "died" in r:
        ck.fail("crash", "%s: crashed or hung: %s" % (note, r["died"][:200]), rq)
        return False
    bad = any(fr.get("drc") for fr in r["frames"])
    res = "error" if bad or r["end_rc"] != 1 else "end"
    changed = "changed" in beh["delivered"]
    if (res != beh["result"]) and not changed:
        ck.fail("agg-end", "%s: %s, expected %s" % (note, res, beh["result"]), rq)
        return False
    if changed:
        return True
    n = len([d for d in beh["delivered"] if d == "good"])
    good = st.frames[:n]
    k = 0
    for fr in r["frames"]:
        if fr.get("drc"):
            break
        take = []
        while k < n and sum(f.nrows for f in take) < fr["rows"]:
            take.append(good[k])
            k += 1
        if sum(f.nrows for f in take) != fr["rows"] or not take:
            ck.fail("agg-rows", "%s: a frame of %s rows is not made of complete frames" % (note, fr["rows"]), rq)
            return False
        for nm, hx in zip([c["name"] for c in fr["cols"]], fr["data"]):
            c = take[0].cols[take[0].col(nm)]
            d = wires.diff_cells(c.type, hx, c.width, [x for f in take for x in f.cells(nm, "long")])
            if d:
                ck.fail("agg-value", "%s column %s: %s" % (note, nm, d), rq)
                return False
    if beh["result"] == "end" and k != n:
        ck.fail("agg-lost", "%s: only %d of %d frames" % (note, k, n), rq)
        return False
    return True


def check_tools(ck, st, beh, note, path):
    # a query needs the columns of the first frame in every frame
    alike = len({tuple(sorted((c.desc["name"], c.type) for c in f.cols)) for f in st.frames}) == 1
    for t in ck.rng.sample(TOOLS, 2):
        if "changed" in beh["delivered"] and t[0] in ("sql", "ls"):
            continue
        if t[0] == "sql" and (not beh["delivered"] or not alike):
            continue
        try:
            p = subprocess.run([build.odc_tool()] + t + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                               cwd=ck.work)
        except subprocess.TimeoutExpired:
            ck.fail("tool-hang", "%s: odc %s hung" % (note, " ".join(t)), {"beh": beh})
            return False
        if p.returncode < 0 or (p.returncode != 0) != (beh["result"] == "error"):
            ck.fail("tool", "%s: odc %s ended with %d, expected %s: %s" %
                    (note, " ".join(t), p.returncode, beh["result"], p.stdout[-200:]), {"beh": beh})
            return False
        ck.count("tool_runs")
    return True


def run(ck):
    rng = ck.rng
    behs = {}
    for b in ck.tlc("Faults", CFG).prints:   # several paths lead to the same outcome
        behs.setdefault((b["nf"], str(b["fault"]), b["mode"]), b)
    behs = list(behs.values())
    ck.cov["fault_behaviours"] = len(behs)
    pool = streams.pool(ck)
    ck.call({"op": "settings", "ints": "long"})
    path = os.path.join(ck.work, "f.odb")
    rounds = ck.pick(1, 25)
    for rnd in range(rounds):
        rng.shuffle(behs)
        limit = ck.pick(14, 400)
        cache = {}
        for bi, b in enumerate(behs):
            if ck.elapsed() > ck.budget:
                ck.cov["cut_short"] = True
                return
            if bi % 12 == 0:
                cache = {n: Stream(rng, pool, n, agg_like=rng.random() < 0.5) for n in (1, 2, 3)}
            st = cache[b["nf"]]
            cases = st.faulted(rng, b, limit)
            for ci, (what, data) in enumerate(cases):
                with open(path, "wb") as o:
                    o.write(data)
                note = "%d frames (%s): %s" % (b["nf"], [f.bo for f in st.frames], what)
                ok = True
                if b["mode"] == "rows":
                    ok = check_rows(ck, st, b, note, path)
                    if ok and rng.random() < 0.5:
                        ok = check_agg(ck, st, b, note, path)
                else:
                    via, how = rng.choice(READERS[b["mode"]])
                    ok = check_frames(ck, st, b, via, how, note, path)
                ck.traces += 1
                if ok and (ci == 0 and rng.random() < ck.pick(0.5, 1.0)):
                    ok = check_tools(ck, st, b, note, path)
                if not ok:
                    break
            if rnd == 0 and bi < 3:
                ck.sample(b)
