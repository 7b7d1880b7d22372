"""C06: threads on a shared handle (Shared.tla, Pool.tla)."""
import json
import os
import subprocess
import sys

import build
import concrete
import drv
import streams
import wires

SH = """CONSTANTS Workers = {%s}
 MaxOps = %d
 Positions = {%s}
 Lengths = {%s}
 Size = %d
 MaxFaults = %d
 Locked = %s
 Sampled = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS OwnBytes Exclusive Emit
CHECK_DEADLOCK FALSE
"""
PO = """CONSTANTS Threads = {%s}
 MaxTables = %d
 MinTables = %d
 Rows = {%s}
 MaxFaults = %d
 Sampled = %s
 EmitOn = %s
%s
INVARIANTS OkIsSerial OnlyRight ErrorReported OneOwner Emit
CHECK_DEADLOCK FALSE
"""
IN = "INIT Init\nNEXT Next"
LIVE = "SPECIFICATION Spec\nPROPERTY Terminates"
UNIT = 7   # bytes per position of the model


def handle(ck, behs, size):
    """Views of one handle: turn by turn in the order of the specification, and as threads under an imposed schedule."""
    rng = ck.rng
    data = bytes(rng.randrange(256) for _ in range(size * UNIT))
    for i, b in enumerate(behs):
        if ck.elapsed() > ck.budget:
            break
        ws = sorted(b["script"], key=int) if isinstance(b["script"], dict) else range(len(b["script"]))
        scripts = [b["script"][w] for w in ws]
        workers = [[[-1 if o["p"] == 99 else o["p"] * UNIT, o["n"] * UNIT] for o in s] for s in scripts]
        bad = any(not g["ok"] for w in ws for g in b["got"][w])
        rq = {"op": "shared", "hex": data.hex(), "workers": workers, "owned": rng.random() < 0.6,
              "drop_first": rng.random() < 0.5}
        mode = "turns" if i % 2 == 0 else "gate"
        if mode == "turns":
            rq["turns"] = [w - 1 for w in b["order"]]
        else:
            rq["choices"] = [rng.randrange(6) for _ in range(16)] if rng.random() < 0.5 else [w - 1 for w in b["order"]]
            if bad:  # the n-th read of all fails
                rq["fail"] = [rng.randrange(1, 5)]
                rq["fmode"] = "throw"
        r = ck.call(rq)
        note = "views of a handle (%s) %s order %s" % (mode, workers, b["order"])
        if "died" in r:
            ck.fail("crash", "%s: %s" % (note, r["died"][:200]), rq)
            return
        excs = sum(1 for w in r["workers"] for o in w if "exc" in o)
        if excs != len([e for e in r["log"] if e[1] == "fail"]):
            ck.fail("error", "%s: %d operations failed, %d were reported" %
                    (note, len([e for e in r["log"] if e[1] == "fail"]), excs), rq)
            return
        for w, sc in enumerate(workers):
            pos = 0
            for k, (p, n) in enumerate(sc):
                o = r["workers"][w][k]
                pos = p if p >= 0 else pos
                if "exc" in o:
                    continue
                e = data[pos:pos + n]
                if bytes.fromhex(o["hex"]) != e or o["n"] != len(e) or o["p"] != pos + len(e):
                    ck.fail("view", "%s: view %d read %d bytes at %s (now %s), expected %d bytes at %d" %
                            (note, w, o["n"], data.find(bytes.fromhex(o["hex"])), o["p"], len(e), pos), rq)
                    return
                pos += len(e)
        ck.traces += 1
        ck.count("handle_schedules" if mode == "gate" else "handle_turns")
        ck.count("handle_operations", r["ops"])


def one_frame(ck, d, frames, data, rq, note, tsan=False):
    r = d(rq)
    if "died" in r:
        ck.fail("race" if tsan else "crash", "%s: %s" % (note, r["died"][-700:]), rq)
        return False
    groups = wires.groups(frames, rq["max"] if rq["max"] > 0 else None) if rq["agg"] else [[f] for f in frames]
    if r.get("err") or len(r["frames"]) != len(groups):
        ck.fail("frames", "%s: %d frames (%s), expected %d" % (note, len(r["frames"]), r.get("err"), len(groups)), rq)
        return False
    failed = any(e[1] == "fail" for e in r["log"])
    errs = [fr for fr in r["frames"] if "err" in fr]
    if failed != bool(errs):
        ck.fail("error", "%s: a read %s, and decoding %s" % (note, "failed" if failed else "never failed",
                                                             "failed: " + errs[0]["err"] if errs else "succeeded"), rq)
        return False
    if failed:
        ck.count("failures_reported")
    for g, fr in zip(groups, r["frames"]):
        if "err" in fr:
            continue
        for nm, hx in zip(g[0].names(), fr["data"]):
            col = g[0].cols[g[0].col(nm)]
            df = wires.diff_cells(col.type, hx, col.width, [x for f in g for x in f.cells(nm, "long")])
            if df:
                ck.fail("value", "%s column %s: %s" % (note, nm, df), rq)
                return False
    ck.count("gated_operations", r["ops"])
    ck.count("context_switches", r["switches"])
    return True


def tables(ck, d, frames, rq, note, tsan=False):
    """Threads walking over the tables of one reader all see every table."""
    r = d(rq)
    if "died" in r:
        ck.fail("race" if tsan else "crash", "%s: %s" % (note, r["died"][-700:]), rq)
        return False
    want, off = [], 0
    for f in frames * rq.get("times", 1):
        want.append([f.nrows, off, off + len(f.bytes)])
        off += len(f.bytes)
    for t in r["threads"]:
        if t.get("err") or t["tables"] != want:
            ck.fail("tables", "%s: a thread saw %s %s, expected %s" % (note, t["tables"], t.get("err"), want), rq)
            return False
    ck.count("table_walks")
    return True


def stream_of(rng, rows, rows_pool):
    beh = {"file": [{"sig": 1, "n": n, "p": {}} for n in rows]}
    return streams.concretise(rng, beh, rows_pool)


def pool_runs(ck, behs, rows_pool, path):
    rng = ck.rng
    for i, b in enumerate(behs):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = i
            break
        frames = stream_of(rng, b["rows"], rows_pool)
        data = b"".join(f.bytes for f in frames)
        with open(path, "wb") as o:
            o.write(data)
        pipeline = i % 4 == 3
        fails = [k + 1 for k, h in enumerate(b["hist"]) if not h["ok"]]
        rq = {"op": "schedframe", "path": path, "agg": not pipeline, "max": -1, "nthreads": b["threads"],
              "mode": "pipeline" if pipeline else "threads", "choices": [h["t"] - 1 for h in b["hist"]] or [0],
              "settle": rng.choice([100, 300])}
        if pipeline and i % 8 == 3:
            rq["copies"] = rng.choice([1, 2])
        if rng.random() < 0.4:
            rq["choices"] = [rng.randrange(8) for _ in range(11)]
        if i % 5 == 4 and not tables(ck, ck.call, frames, {"op": "schedtables", "path": path, "nthreads": b["threads"],
                                                           "choices": rq["choices"]},
                                     "threads on the tables of one reader, frames of %s rows" % b["rows"]):
            return
        if i % 20 == 6:
            r = ck.call(dict(rq, nthreads=0, mode="threads", agg=True))
            if "died" in r or not all("err" in f for f in r["frames"]):
                ck.fail("zero", "decoding with no thread at all succeeded, or crashed: %s" % str(r)[:200], rq)
                return
        if fails and not pipeline:
            rq["fail"] = fails
            rq["fmode"] = rng.choice(["throw", "short"])
        if not one_frame(ck, ck.call, frames, data, rq, "%s, %d threads, frames of %s rows, columns %s, schedule %s" %
                         (rq["mode"], b["threads"], b["rows"], [(c.type, c.desc["codec"]) for c in frames[0].cols],
                          rq["choices"])):
            return
        ck.traces += 1
        ck.count("pipelines" if pipeline else "threaded_decodes")
        if i < 2:
            ck.sample({"behaviour": b, "request": dict(rq, path="...")})


def race_runs(ck, rows_pool, path):
    """The same code, compiled so that accesses of two threads that are not ordered by the synchronisation of the model are
    detected even when the result happens to be right."""
    rng = ck.rng
    bdir = os.path.join(build.BUILD, "tsan")
    env = dict(os.environ, ODC_VSAN="-fsanitize=thread", ODC_VBUILD=bdir)
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import build; build.build(); "
                        "print(build.driver_path())" % os.path.join(build.VERIF, "lib")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        ck.cov["race_detector"] = "not available: " + p.stderr[-200:]
        return
    d = drv.Driver(env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 report_signal_unsafe=0"}, timeout=120,
                   path=p.stdout.split()[-1])
    try:
        d.call({"op": "settings", "ints": "long"})
    except drv.DriverDied as e:
        ck.cov["race_detector"] = "does not run here: " + str(e)[:200]
        return

    def call(rq):
        try:
            return d.call(rq)
        except drv.DriverDied as e:
            return {"died": str(e)}
    n = ck.pick(40, 600)
    for i in range(n):
        if ck.elapsed() > ck.budget:
            break
        frames = stream_of(rng, [rng.choice([1, 2, 4]) for _ in range(rng.randint(2, 6))], rows_pool)
        data = b"".join(f.bytes for f in frames)
        with open(path, "wb") as o:
            o.write(data)
        pipeline = i % 3 == 2
        rq = {"op": "schedframe", "path": path, "agg": not pipeline, "max": -1, "nthreads": rng.choice([2, 3, 4]),
              "mode": "pipeline" if pipeline else "threads", "gated": False}
        if pipeline and i % 2:
            rq["copies"] = rng.choice([1, 2, 3])
        if not one_frame(ck, call, frames, data, rq, "unordered accesses of threads, %s, columns %s" %
                         (rq["mode"], [(c.type, c.desc["codec"]) for c in frames[0].cols]), tsan=True):
            break
        if i % 4 == 0 and not tables(ck, call, frames, {"op": "schedtables", "path": path, "nthreads": 3, "gated": False,
                                                           "times": 8},
                                     "unordered accesses of threads on the tables of one reader", tsan=True):
            break
        ck.count("race_detector_runs")
    d.stop()


def run(ck):
    rng = ck.rng
    ex = ck.tlc("Shared", SH % ("1, 2", 2, "0, 3", "2", 4, 1, "TRUE", "FALSE", "TRUE"), workers=1).prints
    ck.tlc("Shared", SH % ("1, 2, 3", 2, "0, 2", "1, 2", 4, 1, "TRUE", "FALSE", "FALSE"), workers=8) if ck.thorough else None
    sim = ck.tlc("Shared", SH % ("1, 2, 3", 4, "0, 2, 5, 9", "1, 2, 4", 9, 1, "TRUE", "TRUE", "TRUE"),
                 simulate=ck.pick(300, 5000), depth=80, seed=ck.seed).prints
    # the lock is what makes it right: without it the model must show a violation
    import tlc
    r = tlc.run("Shared", SH % ("1, 2", 1, "0, 3", "2", 4, 0, "FALSE", "FALSE", "FALSE"))
    if r.ok:
        raise tlc.TlcError("Shared.tla: the property is vacuous, it holds without the lock")
    pe = ck.tlc("Pool", PO % ("1, 2", 3, 2, "1, 2", 1, "FALSE", "TRUE", IN), workers=1).prints
    ck.tlc("Pool", PO % ("1, 2", 3, 2, "1", 1, "FALSE", "FALSE", LIVE), workers=4)
    if ck.thorough:
        ck.tlc("Pool", PO % ("1, 2, 3", 4, 2, "1, 2", 2, "FALSE", "FALSE", LIVE), workers=8, timeout=1500)
    ps = ck.tlc("Pool", PO % ("1, 2, 3", 7, 3, "1, 2, 3, 4", 2, "TRUE", "TRUE", IN),
                simulate=ck.pick(300, 4000), depth=80, seed=ck.seed).prints
    rng.shuffle(ex)
    handle(ck, ex[:ck.pick(250, 4000)], 4)
    handle(ck, sim[:ck.pick(250, 5000)], 9)
    rows_pool = streams.pool(ck)
    path = os.path.join(ck.work, "s.odb")
    ck.call({"op": "settings", "ints": "long"})
    rng.shuffle(pe)
    pool_runs(ck, pe[:ck.pick(150, len(pe))] + ps, rows_pool, path)
    race_runs(ck, rows_pool, path)
