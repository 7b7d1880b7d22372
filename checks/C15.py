"""C15: odc compare (Compare.tla)."""
import math
import os
import random

import concrete
import defs
import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS Types = {%s}
 Vals = {%s}
 MaxRows = %d
 MaxMut = %d
 Sampled = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Sound Reflexive Emit
CHECK_DEADLOCK FALSE
"""
TYPE = {"I": w.INTEGER, "R": w.REAL, "D": w.DOUBLE, "S": w.STRING, "B": w.BITFIELD}
NAMES = [{"A": "a", "B": "b", "C": "c", "E": "e"}, {"A": "lat@hdr", "B": "lon@hdr", "C": "lat@body", "E": "x"},
         {"A": "aa", "B": "a", "C": "aaa", "E": "A"}]
BITS = [[("x", 3), ("y", 7)], [("x", 3), ("z", 7)], [("x", 4), ("y", 6)], [("x", 10)], [("y", 7), ("x", 3)], []]


def values(rng, simple):
    """{type: {symbol: value}}"""
    nan, inf = float("nan"), float("inf")
    if simple:
        a, b = rng.sample([0, 1, 2, 5, 9, 100], 2)
        v = {"a": a, "b": b, "m": None, "t": 200, "n": 201, "i": 202}
        out = {t: dict(v) for t in "IB"}
        t = a * (1 + 1e-10) if a else concrete.f32(1e-10)
        out["R"] = {"a": float(a), "b": float(b), "m": None, "t": t, "n": nan, "i": inf}
        out["D"] = dict(out["R"])
    else:
        out = {}
        k = rng.choice([0, 1, -7, 2147483640, -2147483647, 1000000000, rng.randint(-10**9, 10**9)])
        out["I"] = {"a": k, "t": k + 1, "b": k + rng.choice([2, 3, 5, -255 if k > 0 else 256]), "n": k + 4, "i": k + 6,
                    "m": None}
        k = rng.choice([0, 1, 8, 1000])
        out["B"] = {"a": k, "t": k + 1, "b": k + 2, "n": k + 3, "i": k + 4, "m": None}
        s = rng.choice([-1, 1])
        near = rng.random() < 0.3
        if near:    # absolute tolerance
            out["D"] = {"a": s * rng.choice([0.0, 1e-10]), "t": s * 2e-10, "b": s * rng.choice([5e-9, 1.0])}
            out["R"] = {x: concrete.f32(y) for x, y in out["D"].items()}
        else:
            a = s * rng.choice([1.0, 273.15, 1e-5, 1e20, 1e300, 3.0e-9])
            out["D"] = {"a": a, "t": a * (1 + rng.choice([1e-10, -3e-10, 8e-10])),
                        "b": rng.choice([a * (1 + 1e-8), a * (1 - 3e-9), -a, a + 1.0 if abs(a) < 1e3 else 0.0])}
            a = concrete.f32(s * rng.choice([1.0, 273.15, 1e-5, 1e20]))
            out["R"] = {"a": a, "t": a * (1 + 1e-10),
                        "b": rng.choice([concrete.f32(a * (1 + 2e-7)), -a, concrete.f32(a * 2)])}
        for t in "RD":
            out[t].update(n=nan, i=inf, m=None)
            if rng.random() < 0.2:
                out[t]["b"] = -inf
    a = concrete.rand_str(rng, rng.choice([3, 7, 8, 15])) or b"s"
    out["S"] = {"a": a, "t": a + b"x", "b": rng.choice([a[:-1] + b"\x01" if a[-1:] != b"\x01" else a[:-1] + b"\x02",
                                                      b"\x80" + a, a + b" "]),
                "n": a + b"nan", "i": a * 2 + b"!", "m": b""}
    return out


class Files:
    def __init__(self, rng, beh, names):
        self.rng, self.beh = rng, beh
        self.names = names
        one, two = beh["one"], beh["two"]
        t1 = {(c["name"], c["type"]) for r in one + two for c in r["cols"]}
        # values that mean the same in every numeric type where the types differ
        self.vals = values(rng, len({n for n, _ in t1}) != len(t1))
        self.bits = rng.sample(BITS, 2)

    def build(self, rows, cuts):
        rng = self.rng
        out = b""
        cuts = sorted(c for c in cuts if c <= len(rows)) + [len(rows) + 1]
        for lo, hi in zip(cuts, cuts[1:]):
            part = rows[lo - 1:hi - 1]
            cols = []
            for k, c in enumerate(part[0]["cols"]):
                ty = TYPE[c["type"]]
                vals = self.vals[c["type"]]
                used = sorted({r["v"][k] for r in part})
                m = None
                if ty != w.STRING:
                    m = rng.choice([w.MISS_INT, w.MISS_INT, -123456, 77777] if ty in (w.INTEGER, w.BITFIELD) else
                                   [w.MISS_REAL, w.MISS_REAL, -9999.0, 0.75])
                width = max(8 * ((max(len(vals[u]) for u in used) + 7) // 8), 8) if ty == w.STRING else 8
                if ty == w.STRING and rng.random() < 0.3:
                    width += 8
                const = len(used) == 1 and rng.random() < 0.3 and not (vals[used[0]] != vals[used[0]])
                cols.append(defs.column(rng, self.names[c["name"]], ty, vals, used, m, self.bits[c["bits"] - 1],
                                        const=const, width=width))
                if rng.random() < 0.3:   # the flag is not part of the data
                    cols[-1].desc["hasMissing"] = 1
            out += T.TFrame(rng, cols, [r["v"] for r in part], rng.choice("<<>"),
                            [("k", "v")] * rng.randint(0, 1)).bytes
            if rng.random() < 0.1:   # frames without rows do not count
                out += T.TFrame(rng, cols, [], "<").bytes
        return out


def job(a):
    rng, beh, n, work, keep, names = a
    f = Files(rng, beh, names)
    p, q = os.path.join(work, "c%d-1.odb" % n), os.path.join(work, "c%d-2.odb" % n)
    for path, rows, cuts in ((p, beh["one"], beh["a"]), (q, beh["two"], beh["b"])):
        with open(path, "wb") as o:
            o.write(f.build(rows, cuts))
    args = ["compare"]
    if beh["exc"]:
        args += ["-excludeColumns", ",".join(f.names[x] for x in beh["exc"])]
    if beh["exct"]:
        args += ["-excludeColumnsTypes", ",".join(f.names[x] for x in beh["exct"])]
    try:
        env = {"odc_NAN_IS_OK": "1"} if beh["nanok"] else None
        rc, out, err = T.run_tool(args + [p, q], env=env)
        if rc != (0 if beh["same"] else 1):
            return ("reports-difference" if beh["same"] else "misses-difference",
                    "odc %s: exit %s, the files are %s\n%s\n%s\nvalues %s\n%s" % (
                        " ".join(args), rc, "equal" if beh["same"] else "different", beh["one"], beh["two"], f.vals,
                        (out + err)[-500:].decode("latin1")))
        return None
    finally:
        if not keep:
            for x in (p, q):
                os.unlink(x)


def library(ck, j):
    """The same files compared by an object of the library, which is used more than once."""
    rng, beh, n, work, _, f = j
    p, q = os.path.join(work, "c%d-1.odb" % n), os.path.join(work, "c%d-2.odb" % n)
    exc, exct = beh["exc"], beh["exct"]
    how = rng.choice(["path", "iter"] + (["dh", "dh"] if not exc and not exct else []))
    nan = any(v == "n" for r in beh["one"] + beh["two"] for v in r["v"])
    pairs = [(p, q)] * 2
    want = [beh["same"]] * 2
    if not nan or beh["nanok"]:
        pairs.insert(1, (q, q))
        want.insert(1, True)
    r = ck.call({"op": "compare", "how": how, "pairs": pairs, "nanok": beh["nanok"], "exc": [f[x] for x in exc],
                 "exct": [f[x] for x in exct]})
    for x in (p, q):
        os.unlink(x)
    ck.count("library")
    if "died" in r:
        return ck.fail("crash", "comparing crashed: %s" % r["died"][:200], beh)
    got = [o == "" for o in r["out"]]
    if got != want:
        ck.fail("library", "Comparator (%s) finds %s, wanted %s\n%s\n%s" % (how, r["out"], want, beh["one"], beh["two"]), beh)


def q(xs):
    return ", ".join('"%s"' % x for x in xs)


def run(ck):
    ex = ck.tlc("Compare", CFG % (q("R"), q("am"), 2, 1, "FALSE", "TRUE"), workers=2).prints
    # differences between definitions of bitfields only
    defined = [b for b in ck.tlc("Compare", CFG % (q("B"), q("a"), 2, 1, "FALSE", "TRUE"), workers=2).prints
               if len({c["bits"] for r in b["one"] + b["two"] for c in r["cols"]}) > 1]
    ck.rng.shuffle(defined)
    if ck.thorough:
        ck.tlc("Compare", CFG % (q("RIB"), q("atm"), 2, 1, "FALSE", "FALSE"), workers=8, timeout=1200)
    sim = []
    for types, vals, mut, n in (("B", "am", 1, 150), ("BI", "abm", 1, 150), ("IRDSB", "abm", 1, 250), ("RD", "abtmni", 1, 250), ("RDISB", "abtmni", 1, 250),
                                ("IRDSB", "abm", 0, 60), ("IRDSB", "abtm", 3, 100)):
        sim += ck.tlc("Compare", CFG % (q(types), q(vals), 5, mut, "TRUE", "TRUE"),
                      simulate=ck.pick(n, n * 20), depth=60, seed=ck.seed).prints
    ck.rng.shuffle(ex)
    plan = ex[:ck.pick(200, 4000)] + defined[:ck.pick(100, 1000)] + sim
    ck.cov["bitfield_definitions"] = len(defined)
    ck.cov["behaviours_available"] = len(ex) + len(sim)
    for lo in range(0, len(plan), 96):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        jobs = [(random.Random(ck.rng.random()), b, lo + i, ck.work, i % 2 == 0, ck.rng.choice(NAMES)) for i, b in enumerate(plan[lo:lo + 96])]
        for j, bad in zip(jobs, T.parallel(job, jobs)):
            ck.traces += 1
            ck.count("equal" if j[1]["same"] else "different")
            if bad:
                ck.fail(bad[0], bad[1], j[1])
            if j[4]:
                library(ck, j)
    ck.sample({"behaviour": sim[0]})
    scale.each(ck, ck.pick(3, 30), scale.compared)
