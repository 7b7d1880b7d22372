"""C18: where the cells of decoders and encoders lie (Layout.tla)."""
import odbwire as w
import tables as T

CFG = """CONSTANTS Mode = "%s"
 MaxCols = %d
 MaxRowsSet = %d
 MaxSize = %d
 MaxSteps = %d
 MinUses = %d
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS InBounds Disjoint Packed Emit
CHECK_DEADLOCK FALSE
"""
FRAMES = [(2, [1, 2, 1]), (3, [2, 1, 1, 3]), (1, [1, 1, 1]), (0, [1, 1, 2]), (3, [1, 3, 2])]
NAMES = ["a", "b@t", "c", "d@t"]
MAXROWS = 4


def behaviours(ck, mode):
    out = ck.tlc("Layout", CFG % (mode, 2, 2, 2, ck.pick(3, 4), 1, "FALSE"), workers=1).prints
    out = [b for b in out if b["log"][-1]["act"] == mode]
    ck.rng.shuffle(out)
    out = out[:ck.pick(900, 12000)]
    for cols, steps, uses, n in ck.pick([(3, 8, 1, 1200), (4, 14, 2, 1500)], [(3, 8, 1, 8000), (4, 14, 2, 8000),
                                                                             (4, 30, 4, 3000)]):
        sim = ck.tlc("Layout", CFG % (mode, cols, 3, 3, steps, uses, "TRUE"), simulate=n, depth=steps + 2,
                     seed=ck.seed).prints
        seen = set()
        for b in sim:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    return out


class F:
    """A frame with the words of its cells."""

    def __init__(self, rng, n, widths):
        cols, self.words = [], []
        rows = [[] for _ in range(n)]
        for i, wd in enumerate(widths):
            syms = ["v%d" % (0 if rng.random() < 0.3 else r) for r in range(n)]
            if wd == 1:
                vals = {"v%d" % r: rng.randint(-10**9, 10**9) for r in range(max(n, 1))}
                cols.append(T.fixed_column(NAMES[i], w.INTEGER, "int32", vals))
                self.words.append([[vals[s].to_bytes(8, "little", signed=True)] for s in syms])
            else:
                vals = {"v%d" % r: bytes(rng.randint(33, 126) for _ in range(8 * wd)) for r in range(max(n, 1))}
                cols.append(T.fixed_column(NAMES[i], w.STRING, "int8_string", vals))
                self.words.append([[vals[s][8 * k:8 * k + 8] for k in range(wd)] for s in syms])
            for r in range(n):
                rows[r].append(syms[r])
        self.n, self.widths = n, widths
        self.bytes = T.TFrame(rng, cols, rows, rng.choice("<>")).bytes


def addr(p, r, k):
    return p["base"] + r * p["rs"] + (k // p["ck"]) * p["cks"] + k % p["ck"]


FILL = b"\xa5" * 8


def decode_script(ck, beh, frames):
    rng = ck.rng
    s, meaning = [], []

    def step(x, m=None):
        s.append(x)
        meaning.append(m)
    for k, f in enumerate(frames):
        step(["open_buffer", "r%d" % k, "b%d" % k])
        step(["new_frame", "f%d" % k, "r%d" % k])
        step(["next", "f%d" % k])
    step(["new_decoder", "d"])
    ncols, regions, serial = 0, {}, 0
    for e in beh["log"]:
        a = e["act"]
        if a == "add":
            step(["add_column", "d", NAMES[e["i"] - 1]])
            ncols += 1
        elif a == "rows":
            step(["set_rows", "d", e["a"]])
        elif a == "major":
            step(["set_colmajor", "d", e["a"]])
        elif a == "size":
            step(["dcol_size", "d", e["i"] - 1, 8 * e["a"]])
        elif a == "own":
            serial += 1
            name = "own%d" % serial
            words = e["c"] + MAXROWS * max(e["a"], e["b"], 3)
            step(["region", name, 8 * words])
            regions[e["i"]] = (name, words)
            step(["d_own", "d", e["i"] - 1, name, 8 * e["c"], 8 * e["a"], 8 * e["b"]])
        elif a == "array":
            serial += 1
            name = "arr%d" % serial
            step(["region", name, 8 * e["a"] * e["b"]])
            regions["array"] = (name, e["a"] * e["b"])
            step(["d_arr", "d", name, 8 * e["a"], e["b"], e["c"]])
        elif a == "decode":
            for n in {x[0] for x in regions.values()}:
                step(["fill", n])
            step(["decode", "d", "f%d" % (e["i"] - 1), rng.choice([1, 1, 2])], ("decode", e))
            if e["ok"]:
                step(["d_layout", "d"], ("layout", e, dict(regions)))
            for n, words in sorted(set(regions.values())):
                step(["mem", n], ("mem", e, n, words, dict(regions)))
    return s, meaning


def check_decode(ck, beh, note):
    frames = [F(ck.rng, n, wd) for n, wd in FRAMES]
    s, meaning = decode_script(ck, beh, frames)
    r = ck.call({"op": "capi", "script": s, "bufs": {"b%d" % i: f.bytes.hex() for i, f in enumerate(frames)}})
    if "died" in r or "out" not in r:
        ck.fail("crash", "%s: decoding crashed: %s" % (note, str(r)[:200]), beh)
        return
    for n, (x, m, o) in enumerate(zip(s, meaning, r["out"])):
        if m is None:
            if o["rc"]:
                ck.fail("call", "%s: %s failed: %s" % (note, x, o.get("err")), {"beh": beh, "script": s})
                return
            continue
        e = m[1]
        f = frames[e["i"] - 1]
        nt = "%s step %d frame %s %s" % (note, n, (f.n, f.widths), [tuple(v for v in (y["act"], y["i"], y["a"], y["b"], y["c"]))
                                                                   for y in beh["log"]])
        if m[0] == "decode":
            if (o["rc"] == 0) != e["ok"]:
                ck.fail("refusal", "%s: decode returned %d (%s), expected %s" %
                        (nt, o["rc"], o.get("err"), "success" if e["ok"] else "a refusal"), {"beh": beh, "script": s})
                return
            if e["ok"] and o["v"] != f.n:
                ck.fail("rows", "%s: %s rows decoded, expected %d" % (nt, o["v"], f.n), {"beh": beh, "script": s})
                return
            if not e["ok"] and not o.get("err"):
                ck.fail("message", "%s: refused without a message" % nt, {"beh": beh, "script": s})
                return
        elif m[0] == "layout":
            if not layout_ok(ck, e, o, f, m[2], nt, beh, s):
                return
        else:
            # the contents of one region: the cells, and nothing else
            _, _, name, words, regions = m
            got = bytes.fromhex(o["v"])
            exp, free = expected(beh, e, f, name, regions, words)
            for k in range(words):
                g = got[8 * k:8 * k + 8]
                if k in free or g == exp.get(k, FILL):
                    continue
                ck.fail("memory", "%s: word %d of %s is %s, expected %s" %
                        (nt, k, name, g.hex(), exp[k].hex() if k in exp else "untouched"), {"beh": beh, "script": s})
                return
            if not o["guard"]:
                ck.fail("guard", "%s: written outside %s" % (nt, name), {"beh": beh, "script": s})
                return


def columns_at(beh, e):
    """The frame column of every decoder column at the time of e."""
    out = []
    for x in beh["log"]:
        if x is e:
            break
        if x["act"] == "add":
            out.append(x["i"] - 1)
    return out


def expected(beh, e, f, name, regions, words):
    """{word: bytes} of one region, and the words that are free (the rest of cells wider than their values)."""
    exp, free = {}, set()
    if not e["ok"]:
        return exp, free
    for i, (p, c) in enumerate(zip(e["place"], columns_at(beh, e))):
        reg = regions.get("array" if p["reg"] == "array" else i + 1)
        if reg is None or reg[0] != name:
            continue
        for r in range(f.n):
            cell = f.words[c][r]
            for k in range(p["e"]):
                if k < len(cell):
                    exp[addr(p, r, k)] = cell[k]
                else:
                    free.add(addr(p, r, k))
    return exp, free


def layout_ok(ck, e, o, f, regions, nt, beh, s):
    inarr = [p for p in e["place"] if p["reg"] == "array"]
    if inarr and f.n:
        arc, aw, ah, cm, at = o["arr"]
        name = regions["array"][0] if "array" in regions else "owned"
        if arc or (aw, ah) != (8 * e["w"], e["h"]) or at[0] != name:
            ck.fail("array", "%s: the array is said to be %s, expected %s of %dx%d" % (nt, o["arr"], name, 8 * e["w"],
                                                                                      e["h"]), {"beh": beh})
            return False
        if name == "owned":
            got = bytes.fromhex(o["owned"])
            exp, _ = expected(beh, e, f, "owned", {"array": ("owned", 0)}, e["w"] * e["h"])
            for k, b in exp.items():
                if got[8 * k:8 * k + 8] != b:
                    ck.fail("memory", "%s: word %d of the allocated array is %s, expected %s" %
                            (nt, k, got[8 * k:8 * k + 8].hex(), b.hex()), {"beh": beh, "script": s})
                    return False
    for i, (p, g) in enumerate(zip(e["place"], o["cols"])):
        if p["reg"] == "array":
            if not f.n:
                continue
            name = regions["array"][0] if "array" in regions else "owned"
            st = 8 * p["e"] if p["ck"] == 1 and p["cks"] else 8 * p["rs"]
            want = [8 * p["e"], st, name, 8 * p["base"]]
        else:
            want = [8 * p["e"], 8 * p["rs"], regions[i + 1][0], 8 * p["base"]]
        if g != want:
            ck.fail("accessor", "%s: column %d is said to have (size, stride, memory, offset) %s, expected %s" %
                    (nt, i, g, want), {"beh": beh, "script": s})
            return False
    return True


# -- encoding ----------------------------------------------------------------------------------------------------
def word(n, ty):
    if ty == w.INTEGER:
        return (n - 1000).to_bytes(8, "little", signed=True)
    return b"%08d" % n


def check_encode(ck, beh, note):
    rng = ck.rng
    wide = set()
    n = 0
    for e in beh["log"]:
        if e["act"] in ("size", "own") and e["a"] > 1:
            wide.add(e["i"])
        n += e["act"] == "add"
    # one type for all columns, as they may share an array
    ty = w.STRING if wide or rng.random() < 0.4 else w.INTEGER
    s, meaning, serial, ncols = [["new_encoder", "e"]], [None], 0, 0
    regions = {}
    base = 10000

    def step(x, m=None):
        s.append(x)
        meaning.append(m)
    for e in beh["log"]:
        a = e["act"]
        if a == "add":
            ncols += 1
            step(["eadd_column", "e", "c%d" % ncols, ty])
        elif a == "rows":
            step(["eset_rows", "e", e["a"]])
        elif a == "size":
            step(["ecol_size", "e", e["i"] - 1, 8 * e["a"]])
        elif a in ("own", "array"):
            serial += 1
            name = "m%d" % serial
            words = e["c"] + MAXROWS * max(e["a"], e["b"], 3) + 4 if a == "own" else e["a"] * e["b"]
            step(["region", name, 8 * words, b"".join(word(base + k, ty) for k in range(words)).hex()])
            regions[e["i"] if a == "own" else "array"] = base
            base += 1000
            if a == "own":
                step(["e_own", "e", e["i"] - 1, name, 8 * e["c"], 8 * e["a"], 8 * e["b"]])
            else:
                step(["e_arr", "e", name, 8 * e["a"], e["b"], 8 * e["c"]])
        elif a == "encode":
            step(["encode_buffer", "e", 20000], (e, dict(regions)))
    r = ck.call({"op": "capi", "script": s})
    if "died" in r or "out" not in r:
        ck.fail("crash", "%s: encoding crashed: %s" % (note, str(r)[:200]), beh)
        return
    for k, (x, m, o) in enumerate(zip(s, meaning, r["out"])):
        nt = "%s step %d %s" % (note, k, [tuple(v for v in (y["act"], y["i"], y["a"], y["b"], y["c"]))
                                           for y in beh["log"]])
        if m is None:
            if o["rc"]:
                ck.fail("call", "%s: %s failed: %s" % (nt, x, o.get("err")), {"beh": beh, "script": s})
                return
            continue
        e, regs = m
        if (o["rc"] == 0) != e["ok"]:
            ck.fail("encode-refusal", "%s: encode returned %d (%s), expected %s" %
                    (nt, o["rc"], o.get("err"), "success" if e["ok"] else "a refusal"), {"beh": beh, "script": s})
            return
        if not e["ok"]:
            continue
        hs = w.parse_stream(bytes.fromhex(o["data"]))
        rows = [x for h in hs for x in w.expand(h, h["rows"])]
        exp = []
        for row in range(e["n"]):
            line = []
            for i, p in enumerate(e["place"]):
                b = regs["array"] if p["reg"] == "array" else regs[i + 1]
                cell = b"".join(word(b + addr(p, row, q), ty) for q in range(p["e"]))
                line.append(cell if ty == w.STRING else int.from_bytes(cell, "little", signed=True))
            exp.append(line)
        got = [[v.rstrip(b"\0") if isinstance(v, bytes) else v for v in x] for x in rows]
        if got != exp:
            ck.fail("encoded", "%s: encoded %s, expected %s" % (nt, got[:3], exp[:3]), {"beh": beh, "script": s})
            return


def run(ck):
    ck.assumptions += ["the words of a cell beyond the width of its value are unspecified"]
    ck.call({"op": "settings", "ints": "long"})
    jobs = [(check_decode, b) for b in behaviours(ck, "decode")] + [(check_encode, b) for b in behaviours(ck, "encode")]
    ck.rng.shuffle(jobs)
    for n, (fn, b) in enumerate(jobs):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = n
            break
        fn(ck, b, "sequence %d" % n)
        ck.traces += 1
        ck.count(fn.__name__)
        if n < 2:
            ck.sample(b["log"])
