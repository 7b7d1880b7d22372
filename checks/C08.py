"""C08: frame properties (Stream.tla: Properties)."""
import os

import encgen
import odbwire as w
import streams

KEYS = {"a": ["a", "k", "key", "x" * 40, "e"], "b": ["b", "A", "key2", "encode", "z z"]}
VALS = {1: ["v", "", "1", "encoder", "value with = ; ' \""], 2: ["w", "other", "v" * 300, " ", "u"]}


def behaviours(ck):
    ex = ck.tlc("Stream", streams.CFG % (3, 1, "1, 2", "1", '"a", "b"', "1", "0, 2", "FALSE"), workers=1).prints
    sim = ck.tlc("Stream", streams.CFG % (7, 3, "1, 2", "1, 2", '"a", "b"', "1, 2", "0, 3, 5", "TRUE"),
                 simulate=ck.pick(200, 3000), depth=50, seed=ck.seed).prints
    return ex, sim


def encode(ck, beh, names, path):
    """The stream written by odc itself: one call per frame, properties of the behaviour."""
    rng = ck.rng
    out = b""
    i = 0
    fs = beh["file"]
    while i < len(fs):
        f = fs[i]
        j = i
        # frames of one signature, row count and property set can come from one call
        while j + 1 < len(fs) and all(fs[j + 1][k] == f[k] for k in ("sig", "n", "p")) and rng.random() < 0.7:
            j += 1
        n = f["n"] * (j - i + 1)
        props = [[names[k][0], names[k][1][v]] for k, v in f["p"].items() if v]
        rng.shuffle(props)
        via = rng.choice(["c", "cpp", "writer"])
        cols = [encgen.ECol("c", w.INTEGER if f["sig"] == 1 else w.REAL, 8, [rng.randint(0, 5) for _ in range(n)])]
        if via == "writer":
            sc = [{"act": "columns", "cols": [{"name": "c", "type": cols[0].type}]}]
            sc += [{"act": "prop", "key": k, "value": v} for k, v in props]
            sc.append({"act": "header"})
            sc += [{"act": "row", "cells": [cols[0].cell(v, "long").hex()]} for v in cols[0].values]
            rq = {"op": "writer", "rows_buffer": f["n"], "script": sc}
        else:
            rq = {"op": "encode", "via": via, "nrows": n, "rpf": f["n"], "props": props,
                  "dest": "dh" if via == "cpp" else "buffer", "cols": [cols[0].spec("long", 0)]}
        r = ck.call(rq)
        if "died" in r or r.get("rc") or r.get("close_rc"):
            ck.fail("write", "encoding with properties failed: %s" % (r.get("died") or r.get("err")), rq)
            return None
        out += bytes.fromhex(r["data"])
        beh.setdefault("enc", []).extend([via != "writer"] * (j - i + 1))   # only encoders record their version
        i = j + 1
    with open(path, "wb") as o:
        o.write(out)
    return out


def expected(beh, names, real):
    out = []
    for g in beh["out"]:
        d = {names[k][0]: names[k][1][v] for k, v in g["p"].items() if v}
        if real and any(beh["enc"][i - 1] for i in g["g"]):
            d["encoder"] = None
        out.append(d)
    return out


def same(got, exp):
    """got: [[k, v]..]"""
    if len(got) != len(exp):
        return False
    d = {}
    for x in got:
        if isinstance(x, dict) or x[0] in d:
            return False
        d[x[0]] = x[1]
    return all(k in d and (v is None and d[k].startswith("odc version ") or d[k] == v) for k, v in exp.items())


def script(ck, beh, exp, path, note):
    """The C API's accessors in any order, on the frame and on copies of it, also after moving on."""
    rng = ck.rng
    sc = [["open_path", "r", path] if rng.random() < 0.5 else ["open_buffer", "r", "b"], ["new_frame", "f", "r"]]
    want = [None, None]
    live = {}

    def acc(f, e):
        for _ in range(rng.randint(0, 4)):
            op = rng.choice(["count", "idx", "idx", "bad", "key", "nokey"])
            if op == "count":
                sc.append(["props_count", f])
                want.append(("count", len(e)))
            elif op == "idx" and e:
                sc.append(["prop_idx", f, rng.randrange(len(e))])
                want.append(("idx", e))
            elif op == "bad":
                sc.append(["prop_idx", f, rng.choice([len(e), len(e) + 1, -1, 1000000])])
                want.append(("error", None))
            elif op == "key" and e:
                k = rng.choice(sorted(e))
                sc.append(["prop", f, k])
                want.append(("key", (k, e[k])))
            elif op == "nokey":
                k = rng.choice([x for x in ["nope", "", "a", "b", "Key", "encoderx"] if x not in e])
                sc.append(["prop", f, k])
                want.append(("none", None))

    for i, e in enumerate(exp):
        sc.append(["next_agg", "f", beh["lim"] or -1] if beh["agg"] else ["next", "f"])
        want.append(("ok", None))
        acc("f", e)
        if rng.random() < 0.5:
            n = "c%d" % i
            sc.append(["copy", "f", n])
            want.append(("ok", None))
            live[n] = e
        for n in sorted(live):
            if rng.random() < 0.5:
                acc(n, live[n])
        acc("f", e)
        if live and rng.random() < 0.3:
            n = rng.choice(sorted(live))
            sc.append(["free_frame", n])
            want.append(("ok", None))
            del live[n]
    if not beh["err"]:
        sc.append(["next_agg", "f", beh["lim"] or -1] if beh["agg"] else ["next", "f"])
        want.append(("end", None))
    if rng.random() < 0.5:
        sc.append(["free_frame", "f"])
        want.append(("ok", None))
    for n in sorted(live):
        acc(n, live[n])
    rq = {"op": "capi", "bufs": {"b": open(path, "rb").read().hex()}, "script": sc}
    r = ck.call(rq)
    if "died" in r:
        ck.fail("crash", "%s: property accessors crashed: %s" % (note, r["died"][:200]), rq)
        return
    seen = {}
    for k, (s, x, o) in enumerate(zip(sc, want, r["out"])):
        if x is None:
            x = ("ok", None)
        kind, v = x
        bad = None
        if s[0] in ("next", "next_agg"):
            seen["f"] = {}
        if kind == "error":
            bad = o["rc"] == 0
        elif kind == "end":
            bad = o["rc"] != 1
        elif o["rc"] != 0:
            bad = True
        elif kind == "count":
            bad = o["v"] != v
        elif kind == "idx":
            kk, vv = o["v"]
            bad = kk not in v or not (v[kk] == vv or v[kk] is None and vv.startswith("odc version "))
            d = seen.setdefault(s[1], {})
            for i2, k2 in d.items():   # an index names one key, different indices different keys
                if (i2 == s[2]) != (k2 == kk):
                    bad = True
            d[s[2]] = kk
        elif kind == "key":
            bad = not (o["v"] == v[1] or v[1] is None and (o["v"] or "").startswith("odc version "))
        elif kind == "none":
            bad = o["v"] is not None
        if bad:
            ck.fail("accessor", "%s: step %d %s gave %s, expected %s" % (note, k, s, o, x), rq)
            return
    ck.count("accessor_calls", len(sc))


def run(ck):
    rng = ck.rng
    ex, sim = behaviours(ck)
    rows_pool = streams.pool(ck)
    rng.shuffle(ex)
    plan = ex[:ck.pick(1200, len(ex))] + sim
    rng.shuffle(plan)
    path = os.path.join(ck.work, "s.odb")
    ck.call({"op": "settings", "ints": "long"})
    for i, b in enumerate(plan):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = i
            break
        real = rng.random() < 0.5
        b.pop("enc", None)
        if real:
            names = {k: (rng.choice(KEYS[k]), {v: rng.choice(VALS[v]) for v in VALS}) for k in KEYS}
            if encode(ck, b, names, path) is None:
                continue
        else:
            names = {k: (k, {v: streams.prop_value(k, v) for v in (1, 2)}) for k in KEYS}
            frames = streams.concretise(rng, b, rows_pool)
            with open(path, "wb") as o:
                o.write(b"".join(f.bytes for f in frames))
        exp = expected(b, names, real)
        note = "stream %d %s agg=%s limit=%s %s" % (i, "written by odc" if real else "foreign", b["agg"], b["lim"],
                                                    [(f["sig"], f["n"], f["p"]) for f in b["file"]])
        # as a whole, C++; by index and key, C
        for via in ("cpp", "c"):
            rq = {"op": "decode", "via": via, "agg": b["agg"], "max": b["lim"] or -1, "path": path, "decode": False,
                  "copy_frames": rng.random() < 0.5 and not b["err"], "open": rng.choice(["path", "buffer"])}
            r = ck.call(rq)
            if "died" in r or len(r["frames"]) != len(exp):
                ck.fail("crash", "%s: %s" % (note, r.get("died") or "%d frames" % len(r["frames"])), rq)
                continue
            for gi, (e, fr) in enumerate(zip(exp, r["frames"])):
                if not same(fr["props"], e) or fr.get("prop_inconsistent"):
                    ck.fail("properties", "%s: %s frame %d has properties %s, expected %s" %
                            (note, via, gi, fr["props"], e), rq)
                    break
        # row iterator: properties of the frame the row came from
        r = ck.call({"op": "iter", "path": path})
        single = [{names[k][0]: names[k][1][v] for k, v in f["p"].items() if v} for f in b["file"]]
        for e, enc in zip(single, b.get("enc", [])):
            if enc:
                e["encoder"] = None
        got = r.get("datasets", [])
        if "died" in r or r["rc"] or len(got) != len(single):
            ck.fail("iter", "%s: row iterator: %s, %d frames" % (note, r.get("died") or r.get("err"), len(got)), path)
        else:
            for gi, (e, d) in enumerate(zip(single, got)):
                if not same(d["props"], e):
                    ck.fail("iter-properties", "%s: row iterator, frame %d: %s, expected %s" %
                            (note, gi, d["props"], e), path)
                    break
        script(ck, b, exp, path, note)
        ck.traces += 1
        if i < 2:
            ck.sample({"file": b["file"], "out": b["out"]})
