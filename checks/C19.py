"""C19: destinations that stop accepting bytes (Sink.tla)."""
import os
import resource
import signal
import subprocess

import build
import concrete
import encgen
import odbwire as w

CFG = """CONSTANTS Mode = "%s"
 U = 3
 MaxFrames = %d
 MaxRows = %d
 MaxActs = %d
 MaxCalls = %d
 Dests = {%s}
 Modes = {"part", "err", "zero", "throw", "once"}
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS Honest Reported Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
"""
INF = 1000
U = 3
DESTS = '"buffer", "stream", "fd", "pipe", "handle", "file"'
MODES = {"part": "short", "err": "err", "zero": "zero", "throw": "throw", "once": "once"}


def behaviours(ck, mode):
    dests = DESTS if mode == "encode" else '"handle"'
    out = ck.tlc("Sink", CFG % (mode, 2, 3, 5, 1, dests, "FALSE"), workers=1).prints
    if mode == "writer":
        ck.rng.shuffle(out)
        out = out[:ck.pick(900, 100000)]
    for frames, rows, acts, calls, n in ck.pick([(3, 6, 9, 4, 500)], [(3, 6, 9, 4, 4000), (4, 20, 30, 8, 3000)]):
        sim = ck.tlc("Sink", CFG % (mode, frames, rows, acts, calls, dests, "TRUE"), simulate=n,
                     depth=calls * (2 * frames + 4) + 8 * acts + 8, seed=ck.seed).prints
        seen = set()
        for b in sim:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    return out


def parts(data):
    """[(length of the header, length of the data)] of the frames."""
    out, pos = [], 0
    for h in w.parse_stream(data):
        out += [h["data"] - pos, h["end"] - h["data"]]
        pos = h["end"]
    return out


def bytes_of(rng, ps, units):
    """A number of bytes standing for a number of units of the parts."""
    full, rest = divmod(units, U)
    n = sum(ps[:full])
    if rest and full < len(ps):
        a = sorted(rng.choice([1, ps[full] - 1, rng.randint(1, ps[full] - 1), 5]) for _ in range(2))
        a = [min(x, ps[full] - 1) for x in a]
        n += a[rest - 1] if rest - 1 < len(a) else a[-1]
    return n


class Data:
    """The same table for the C and the C++ encoders and for the row writer."""

    def __init__(self, rng, nrows):
        self.rng = rng
        self.cols = []
        tail = rng.randint(2, 9)
        for i in range(rng.randint(1, 3)):
            k = rng.choice(["int", "long", "str", "wide", "real", "dbl", "const"])
            name = "c%d" % i
            if k in ("int", "long"):
                r = 200 if k == "int" else 10**9
                v = [rng.choice([None, rng.randint(-r, r)]) for _ in range(nrows)]
                c = encgen.ECol(name, w.INTEGER, 8, v)
            elif k in ("str", "wide"):
                sz = 8 if k == "str" else 8 * tail
                v = [bytes(rng.randint(97, 122) for _ in range(rng.randint(1, sz))) for _ in range(nrows)]
                c = encgen.ECol(name, w.STRING, sz, v)
            elif k == "const":
                v = [rng.choice([7, None])] * nrows
                c = encgen.ECol(name, w.INTEGER, 8, v)
            else:
                ty = w.REAL if k == "real" else w.DOUBLE
                v = [concrete.f32(rng.uniform(-1e6, 1e6)) for _ in range(nrows)]
                c = encgen.ECol(name, ty, 8, v)
            self.cols.append(c)
        self.props = [("key%d" % i, "value" * rng.randint(0, 5)) for i in range(rng.randint(0, 2))]
        self.nrows = nrows

    def row(self, i):
        return [c.cell(c.values[i], "long").hex() for c in self.cols]


# -- encoders ----------------------------------------------------------------------------------------------------
def setup(d, rpf):
    s = [["new_encoder", "e"], ["eset_rows", "e", d.nrows], ["rows_per_frame", "e", rpf]]
    for i, c in enumerate(d.cols):
        s += [["eadd_column", "e", c.name, c.type], ["ecol_size", "e", i, c.size],
              ["region", "m%d" % i, c.size * d.nrows, c.packed("long").hex()],
              ["e_own", "e", i, "m%d" % i, 0, c.size, c.size]]
    for k, v in d.props:
        s.append(["add_property", "e", k, v])
    return s


def encode_cpp(ck, d, rpf, **kw):
    rq = {"op": "encode", "via": "cpp", "dest": "dh", "nrows": d.nrows, "rpf": rpf, "props": d.props,
          "cols": [c.spec("long") for c in d.cols]}
    rq.update(kw)
    return ck.call(rq)


def check_encode(ck, beh, note):
    rng = ck.rng
    n = beh["frames"]
    rpf = rng.choice([1, 2, 3])
    d = Data(rng, (n - 1) * rpf + rng.randint(1, rpf))
    path = os.path.join(ck.work, "e.odb")

    def fail(key, what, **more):
        ck.fail(key, "%s: %s" % (note, what), dict(more, beh=beh))
        return False
    r = encode_cpp(ck, d, rpf)
    if "died" in r or r["rc"]:
        return fail("reference", "encoding failed: %s" % str(r)[:200])
    ref = bytes.fromhex(r["data"])
    ps = parts(ref)
    if len(ps) != 2 * n:
        return fail("frames", "%d frames, expected %d" % (len(ps) // 2, n))
    s, plan = setup(d, rpf), []
    nsetup = len(s)
    appended = False
    for c in beh["calls"]:
        dst = c["d"]
        room = -1 if dst["room"] == INF else bytes_of(rng, ps, min(dst["room"], 2 * U * n)) + \
            (rng.choice([0, 1, 1000]) if dst["room"] >= 2 * U * n else 0)
        chunk = -1
        if dst["step"] == U:
            chunk = max(ps) + rng.choice([0, 0, 5])
        elif dst["step"] < U:
            chunk = rng.choice([1, min(ps) - 1, rng.randint(1, min(ps) - 1)])
        k = dst["kind"]
        fm = MODES[dst["mode"]]
        step = None
        if k == "buffer":
            step = ["encode_buffer", "e", len(ref) + 500 if room < 0 else room]
        elif k == "stream":
            step = ["encode_stream", "e", room, chunk, fm]
        elif k == "fd":
            step = ["encode_fd", "e", path, room, int(appended and rng.random() < 0.6)]
            appended = True
        elif k == "pipe":
            step = ["encode_pipe", "e"] if dst["room"] == INF else ["encode_buffer", "e", room]
        if step:
            s.append(step)
        plan.append((c, room, chunk, step))
    out = []
    if len(s) > nsetup:
        r = ck.call({"op": "capi", "script": s})
        if "died" in r or "out" not in r:
            return fail("crash", "encoding crashed: %s" % str(r)[:200], script=s)
        bad = [x for x in r["out"][:nsetup] if x["rc"]]
        if bad:
            return fail("setup", str(bad[0])[:200], script=s)
        out = r["out"][nsetup:]
    for c, room, chunk, step in plan:
        dst = c["d"]
        if step:
            o = out.pop(0)
            data, v = bytes.fromhex(o["data"]), o["v"]
            if o.get("guard") is False:
                return fail("beyond", "%s wrote beyond the buffer" % step, script=s)
            if o.get("open") is False:
                return fail("closed", "%s closed the caller's descriptor" % step, script=s)
            rc = o["rc"]
        else:
            if dst["kind"] == "file":
                if dst["room"] != INF:
                    continue
                o = encode_cpp(ck, d, rpf, dest="file", path=path)
            else:
                o = encode_cpp(ck, d, rpf, limit=room, chunk=chunk, fmode=MODES[dst["mode"]])
            if "died" in o:
                return fail("crash", "encoding to %s crashed: %s" % (dst, o["died"][:200]))
            data, v, rc, step = bytes.fromhex(o["data"]), o["nbytes"], o["rc"], [dst["kind"], room, chunk, dst["mode"]]
        what = "%s, total %d (%s)" % (step, len(ref), ps)
        if (rc == 0) != c["ok"]:
            return fail("result", "%s: returned %d (%s), expected %s" % (what, rc, o.get("err"),
                                                                        "success" if c["ok"] else "an error"), script=s)
        if c["ok"]:
            if v != len(ref):
                return fail("count", "%s: %s bytes reported" % (what, v), script=s)
            if data != ref:
                return fail("bytes", "%s: other bytes than those of the C++ encoder" % what, script=s)
        else:
            limit = len(data) if step[0] == "encode_buffer" else max(0, room) if room >= 0 else chunk
            got = data
            if step[0] == "encode_buffer":
                k = len(os.path.commonprefix([data, ref]))
                if any(x != 0xA5 for x in data[k:]):
                    return fail("prefix", "%s: other bytes in the buffer" % what, script=s)
            elif len(got) > limit or ref[:len(got)] != got:
                return fail("prefix", "%s: %d bytes in the destination, not a prefix" % (what, len(got)), script=s)
    return True


# -- row writer --------------------------------------------------------------------------------------------------
def check_writer(ck, beh, note):
    rng = ck.rng
    nrow = len([a for a in beh["acts"] if a["act"] == "row"])
    d = Data(rng, max(nrow, 1))

    def fail(key, what, **more):
        ck.fail(key, "%s: %s" % (note, what), dict(more, beh=beh))
        return False
    cols = [{"name": c.name, "type": c.type} for c in d.cols]
    sizes = {c.name: c.size // 8 for c in d.cols if c.size > 8}
    head = [{"act": "columns", "cols": cols}] + [{"act": "prop", "key": k, "value": v} for k, v in d.props] + \
        [{"act": "header"}] + ([{"act": "resize", "sizes": sizes}] if sizes else [])
    body, i = [], 0
    for a in beh["acts"]:
        if a["act"] == "row":
            body.append({"act": "row", "cells": d.row(i)})
            i += 1
        elif a["act"] == "recover":
            body.append({"act": "sink", "limit": -1})
        else:
            body.append({"act": a["act"]})
    base = {"op": "writer", "rows_buffer": beh["frames"], "script": head + body, "stop_on_error": False}
    r = ck.call(base)
    if "died" in r or r["rc"] or any(r["rcs"]) or r.get("close_rc"):
        return fail("reference", "writing failed: %s" % str(r)[:300], script=base)
    ref = bytes.fromhex(r["data"])
    ps = parts(ref)
    dst = beh["dest"]
    if dst["kind"] == "none":
        return True
    room = -1 if dst["room"] == INF else bytes_of(rng, ps, dst["room"]) if dst["room"] < U * len(ps) else len(ref)
    chunk = -1
    if dst["step"] == U:
        chunk = max(ps + [1])
    elif dst["step"] < U and ps:
        chunk = rng.choice([1, min(ps) - 1])
    # what the destination holds after a recovery is not a prefix: only complete frames count from there on
    if not ps:
        return True
    first = next((k for k, a in enumerate(beh["acts"]) if not a["ok"]), None)
    rec = next((k for k, a in enumerate(beh["acts"]) if a["act"] == "recover"), None)
    if dst["mode"] == "once":
        rec = first
    rq = dict(base, fmode=MODES[dst["mode"]], limit=-1, chunk=-1)
    rq["script"] = head + [{"act": "sink", "limit": room, "chunk": chunk}] + body
    r = ck.call(rq)
    if "died" in r:
        return fail("crash", "the writer crashed: %s" % r["died"][:300], script=rq)
    what = "rows buffer %d, %s, %s bytes of %s accepted, chunk %d, mode %s" % (
        beh["frames"], [(a["act"], a["ok"]) for a in beh["acts"]], room, ps, chunk, dst["mode"])
    rcs = [x == 0 for x in r["rcs"][len(head) + 1:]]
    if rec is None:
        # frames that follow a failed one may be smaller and fit: compare up to the first error
        k = len(rcs) if first is None else first + 1
        if rcs[:k] != [a["ok"] for a in beh["acts"]][:k]:
            return fail("writer-result", "%s: succeeded %s" % (what, rcs), script=rq)
    elif rcs != [a["ok"] for a in beh["acts"]]:
        return fail("writer-result", "%s: succeeded %s" % (what, rcs), script=rq)
    if first is None:
        if r["data"] != ref.hex():
            return fail("writer-bytes", "%s: other bytes" % what, script=rq)
        return True
    got = bytes.fromhex(r.get("failed_data", ""))
    if ref[:len(got)] != got or (room >= 0 and len(got) > room):
        return fail("writer-prefix", "%s: %d bytes in the destination, not a prefix" % (what, len(got)), script=rq)
    if rec is not None:
        # the rows after the recovery, in frames as if the writer had been flushed where it failed
        data = bytes.fromhex(r["data"])
        at, rows, buf = [], [], []
        k = 0
        for j, a in enumerate(beh["acts"]):
            if a["act"] == "row":
                buf.append(k)
                k += 1
            full = a["act"] == "row" and len(buf) == beh["frames"]
            if full or a["act"] in ("flush", "close"):
                if buf and j > rec:
                    rows.append(list(buf))
                buf = []
        tail = None
        for p in range(len(data) + 1):
            if data[p:p + 5] == b"\xff\xffODA" or p == len(data):
                try:
                    hs = w.parse_stream(data[p:])
                except w.WireError:
                    continue
                if [h["nrows"] for h in hs] == [len(x) for x in rows]:
                    tail = hs
                    break
        if tail is None:
            return fail("writer-recovered", "%s: the frames %s written after the recovery are not there" % (what, rows),
                        script=rq)
        for h, rr in zip(tail, rows):
            for g, i in zip(w.expand(h, h["rows"]), rr):
                for c, x in zip(d.cols, g):
                    v = c.values[i]
                    e = v.ljust(c.size, b"\0") if c.type == w.STRING else v
                    x = x.ljust(c.size, b"\0") if c.type == w.STRING else x
                    if x != e:
                        return fail("writer-recovered", "%s: row %d column %s is %s" % (what, i, c.name, x), script=rq)
    return True


# -- tools -------------------------------------------------------------------------------------------------------
def tool(args, cwd, limit=None):
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        p = subprocess.run([build.odc_tool()] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                           cwd=cwd, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        return -99, b"hung"
    return p.returncode, p.stdout[-300:]


def check_tools(ck, n):
    rng = ck.rng
    d = os.path.join(ck.work, "tools")
    os.makedirs(d, exist_ok=True)

    def outputs():
        return [os.path.join(d, x) for x in os.listdir(d) if x.startswith("out")]
    for k in range(n):
        nr = rng.randint(1, 30)
        dat = Data(rng, nr)
        key = encgen.ECol("key", w.INTEGER, 8, [rng.randint(1, 2) for _ in range(nr)])
        rq = {"op": "encode", "via": "cpp", "dest": "file", "nrows": nr, "rpf": rng.choice([3, 10000]),
              "path": os.path.join(d, "in.odb"), "cols": [c.spec("long") for c in [key] + dat.cols], "want_data": False}
        r = ck.call(rq)
        rq2 = dict(rq, path=os.path.join(d, "in2.odb"), cols=[encgen.ECol("other", w.INTEGER, 8, list(range(nr))).spec("long")])
        r2 = ck.call(rq2)
        if "died" in r or r["rc"] or "died" in r2 or r2["rc"]:
            ck.fail("tool-input", str(r)[:200], {})
            return
        with open(os.path.join(d, "in.csv"), "w") as f:
            f.write("a:INTEGER,b:REAL\n" + "".join("%d,%f\n" % (i, i / 2) for i in range(nr)))
        for args in (["compact", "in.odb", "out.odb"], ["set", "key=5", "in.odb", "out.odb"],
                     ["mdset", "key:REAL", "in.odb", "out.odb"],
                     ["sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "out.odb"],
                     ["import", "in.csv", "out.odb"], ["split", "in.odb", "out.{key}.odb"],
                     ["merge", "-o", "out.odb", "in.odb", "in2.odb"]):
            for x in outputs():
                os.unlink(x)
            rc, log = tool(args, d)
            if rc:
                ck.fail("tool-plain", "odc %s fails: %s" % (" ".join(args), log), {"args": args})
                return
            full = max(os.path.getsize(x) for x in outputs())
            for limit in rng.sample([0, 1, full // 2, full - 1, rng.randint(0, full - 1)], ck.pick(2, 5)) + [full]:
                for x in outputs():
                    os.unlink(x)
                rc, log = tool(args, d, limit)
                ck.count("tool_runs")
                if (rc == 0) != (limit >= full) or rc in (-99, -signal.SIGSEGV, -signal.SIGXFSZ):
                    ck.fail("tool", "odc %s ends with %d when files can have %d of the %d bytes written: %s" %
                            (" ".join(args), rc, limit, full, log), {"args": args, "limit": limit})
                    return


def run(ck):
    ck.call({"op": "settings", "ints": "long"})
    todo = [(m, b) for m in ("encode", "writer") for b in behaviours(ck, m)]
    ck.rng.shuffle(todo)
    check_tools(ck, ck.pick(3, 40))
    for n, (m, b) in enumerate(todo):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = n
            break
        (check_encode if m == "encode" else check_writer)(ck, b, "%s %d" % (m, n))
        ck.traces += 1
        ck.count(m)
        if n < 4:
            ck.sample(b)
