"""C16: the import of texts (Import.tla)."""
import os
import random
import struct

import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS MaxCols = %d
 MaxLines = %d
 Buffer = %d
 Queries = %s
 Sampled = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Table Refused Beginning Fits Informed Emit
CHECK_DEADLOCK FALSE
"""
DELIMS = [",", ";", "\t", " ", "|", "x", ","]
NUM = (w.INTEGER, w.INTEGER, w.REAL, w.DOUBLE, w.BITFIELD)
TY = {w.INTEGER: "INTEGER", w.REAL: "REAL", w.DOUBLE: "DOUBLE", w.STRING: "STRING"}


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Plan:
    """A text for a behaviour."""

    def __init__(self, rng, beh):
        self.rng, self.beh = rng, beh
        self.delim = rng.choice(DELIMS)
        n = len(beh["cols"])
        pool = ["a", "lat@hdr", "obsvalue", "c_1@body", "Q", "seqno@desc", "z9"]
        if self.delim == "x":
            pool = [p.replace("x", "") for p in pool]
        names = rng.sample(pool, n)
        self.cols = []
        for k, kind in enumerate(beh["cols"]):
            ty = w.STRING if kind == "S" else rng.choice(NUM)
            bits = []
            if ty == w.BITFIELD:
                m = ["p", "q", "rr", "s_1", "T"][:rng.randint(1, 4)]
                bits = [(x, rng.randint(1, 7)) for x in m]
                if rng.random() < 0.2:
                    bits = [("p", 1), ("q", 30)]
            self.cols.append((names[k], ty, bits))
        if self.delim == ";" and any(bits for _, _, bits in self.cols):
            self.delim = ","               # the members of a bitfield are separated by semicolons
        self.vals = [self.values(ty, bits) for _, ty, bits in self.cols]
        self.eol = "\n"
        self.lines = [self.header()]
        self.rows = []
        for i, l in enumerate(beh["text"], 1):
            self.lines.append(self.line(l))
        self.text = self.eol.join(self.lines) + ("" if rng.random() < 0.3 else self.eol)
        q = beh["q"]
        self.out = [self.cols[i - 1] for i in q["out"]]
        want = [(self.names(self.out), [self.cell(i - 1, s) for i, s in zip(q["out"], r)]) for r in beh["rows"]]
        self.want = want

    @staticmethod
    def names(cols):
        return [(n, ty) for n, ty, _ in cols]

    def values(self, ty, bits):
        rng = self.rng
        if ty == w.INTEGER:
            v = rng.sample([-2147483648, -70000, -256, -1, 0, 1, 7, 255, 256, 65535, 65536, 1000000, 2147483646], 2)
        elif ty == w.BITFIELD:
            top = (1 << sum(s for _, s in bits)) - 1
            v = rng.sample(range(min(top + 1, 1 << 20)), 2)
            if rng.random() < 0.3 and top != 2147483647:
                v[0] = top if v[1] != top else v[0]
        elif ty == w.REAL:
            v = [f32(rng.choice([rng.uniform(-1e3, 1e3), 1e30, -1e-30, 0.1, 273.15, -0.5])) for _ in "ab"]
            v[1] = v[0] + 1 if f32(v[0] + 1) == v[0] + 1 else f32(v[0] * 0.5)
        elif ty == w.DOUBLE:
            v = [rng.choice([rng.uniform(-1e3, 1e3), 1e300, -1e-300, 0.1, 1 / 3, 12345678.125]) for _ in "ab"]
            v[1] = v[0] * 0.75
        else:
            out = {"e": b""}
            # a string may have anything in it but the delimiter, line ends, spaces at its ends and quotes around it
            chars = "".join(c for c in "abcXYZ059_.:'\"/\\#-+=(){}[]%$!?*" + " ,;|" + "é" if c not in self.delim + "\n")
            for s, words in (("s1", 1), ("s2", 2), ("s3", 3)):
                n = rng.choice([8 * words, 8 * words - 7, rng.randint(8 * words - 7, 8 * words)])
                while True:
                    t = "".join(rng.choice(chars) for _ in range(n))
                    if rng.random() < 0.1:
                        t = rng.choice(["null", "NULL", "Null", "None", "nan", "-1", "3.5"]) if words == 1 else t
                    b = t.encode()
                    if (t.strip() == t and len(b) <= 8 * words and len(b) > 8 * (words - 1) and t[0] not in "'\"" and t[-1] not in "'\""
                            and b not in out.values()):
                        break
                out[s] = b
            return out
        return {"a": v[0], "b": v[1]}

    def header(self):
        rng, out = self.rng, []
        for n, ty, bits in self.cols:
            if bits:
                t = rng.choice(["BITFIELD", "bitfield", "Bitfield"]) + "[" + ";".join("%s:%d" % b for b in bits) + "]"
            else:
                t = TY[ty]
                t = rng.choice([t, t.lower(), t.capitalize()]) if self.delim != "x" else t
            out.append((" " if rng.random() < 0.1 and self.delim not in " x" else "") + n + ":" + t)
        return self.delim.join(out)

    def cell(self, k, s):
        ty = self.cols[k][1]
        if s == "null":
            return b"" if ty == w.STRING else None
        return self.vals[k][s]

    def number(self, ty, v):
        rng = self.rng
        if ty in (w.INTEGER, w.BITFIELD):
            return rng.choice(["%d" % v] * 4 + ["%.1f" % v, "%d." % v] + (["+%d" % v, "0%d" % v] if v >= 0 else []))
        if ty == w.REAL:
            return rng.choice(["%r" % v, "%.9g" % v, "%.12e" % v])
        return rng.choice(["%r" % v, "%.17g" % v, "%.17e" % v])

    def field(self, k, s):
        rng = self.rng
        ty = self.cols[k][1]
        if s == "null":
            t = rng.choice(["NULL", "null", "Null", "nUlL"])
        elif s == "bad":
            other = ";" if self.delim != ";" else ","
            bad = ["abc", "1.5z", "1%s5" % other, "--1", "1e", "'", "-", "."]
            if self.delim != " ":
                bad += ["1 2"]
            if ty in (w.INTEGER, w.BITFIELD):
                bad += ["1.5", "99999999999999999999", "1e300"]
            if ty == w.REAL:
                bad += ["1e300"]
            t = rng.choice(bad)
        elif ty == w.STRING:
            t = self.vals[k][s].decode()
            if not t or t.upper() == "NULL" or rng.random() < 0.4 or (self.delim == " " and " " in t):
                t = rng.choice(["'%s'", '"%s"']) % t
        else:
            t = self.number(ty, self.vals[k][s])
        if self.delim != " " and rng.random() < 0.1:
            t = " " * rng.randint(1, 2) + t + " " * rng.randint(0, 2)
        return t

    def line(self, l):
        rng, d, n = self.rng, self.delim, len(self.cols)
        if l["k"] == "blank":
            return rng.choice(["", "", " ", "  "])
        f = l["f"] or [rng.choice(["a", "b"]) if c == "N" else "s1" for c in self.beh["cols"]]
        t = [self.field(k, s) for k, s in enumerate(f)]
        if l["k"] == "tail":
            return d.join(t) + d + (" " if rng.random() < 0.1 else "")
        if l["k"] == "short":
            if n == 1:
                return d if d != " " else "1 2"
            del t[rng.randrange(n)]
            return d.join(t)
        if l["k"] == "long":
            t.insert(rng.randint(0, n), rng.choice(["1", "NULL", "x9" if d != "x" else "y", "'s'"]))
            return d.join(t)
        if l["k"] == "hole":
            k = rng.randrange(n)
            if n > 1 and rng.random() < 0.3:
                k = n - 1
            t[k] = "" if d == " " or n == 1 or rng.random() < 0.7 else " "
            s = d.join(t)
            if d == " ":
                return s if n > 1 else "1 2"
            # an empty value at the end of a line needs another one after it: one delimiter may follow the last value
            return s + d if k == n - 1 and t[k] == "" and n == 1 else s
        s = d.join(t)
        if d == " " and rng.random() < 0.3:
            s = (d * rng.randint(1, 3)).join(t)
        return s

    def sql(self):
        rng, q = self.rng, self.beh["q"]
        n, ty, _ = self.cols[q["c"] - 1]
        plain = q["out"] == list(range(1, len(self.cols) + 1))
        s = "select " + ("*" if plain and rng.random() < 0.5 else ",".join(self.cols[i - 1][0] for i in q["out"]))
        if q["op"] == "null":
            s += " where %s is null" % n
        elif q["op"] == "some":
            s += " where %s is not null" % n
        elif q["op"] == "eq":
            v = self.vals[q["c"] - 1]["s1" if ty == w.STRING else "a"]
            s += " where %s = %s" % (n, "'%s'" % v.decode() if ty == w.STRING else "%.17g" % v if ty != w.INTEGER else "%d" % v)
        return s


def sqlable(p):
    """Texts whose query can be written: a string literal has no quotes, and a missing string is an empty one."""
    q = p.beh["q"]
    n, ty, bits = p.cols[q["c"] - 1]
    if ty == w.STRING and q["op"] == "eq" and any(c in p.vals[q["c"] - 1]["s1"] for c in b"'\"\\\xc3"):
        return False
    if ty == w.STRING and q["op"] in ("null", "some"):
        return False
    if ty != w.STRING and q["op"] == "eq" and abs(p.vals[q["c"] - 1]["a"]) > 1e8 and ty != w.INTEGER:
        return False
    if ty != w.STRING and q["op"] == "eq" and ty in (w.REAL, w.DOUBLE) and abs(p.vals[q["c"] - 1]["a"]) < 1e-6:
        return False
    return all(c[0] == c[0].lower() for c in p.cols)    # SQL names are in lower case


def table(data):
    return T.of_bytes(data)


def judge(ck, p, rc, data, how, n=None):
    err = p.beh["err"]
    what = None
    try:
        got = table(data)
    except w.WireError as e:
        got, what = [], "output is no stream: %s" % e
    want = p.want
    if what is None:
        if err:
            if rc == 0:
                what = "line %d was accepted" % (p.beh["at"] + 1)
            else:
                what = T.diff(got, want[:len(got)])
        elif rc != 0:
            what = "failed (%s)" % rc
        else:
            what = T.diff(got, want)
            if what is None and n is not None and n != len(want):
                what = "counted %d rows instead of %d" % (n, len(want))
    if what is None and got:
        bits = {c.name: [(x[0], x[1]) for x in c.bits] for h in w.parse_stream(data) for c in h["cols"]}
        for n_, ty, b in p.out:
            if ty == w.BITFIELD and bits[n_] != b:
                what = "bitfield %s is %s instead of %s" % (n_, bits[n_], b)
    if what is None and got:   # nothing is left behind the end of a string
        for h in w.parse_stream(data):
            ks = [k for k, c in enumerate(h["cols"]) if c.type == w.STRING]
            for r in w.expand(h, h["rows"]):
                for k in ks:
                    if b"\0" in (r[k] or b"").rstrip(b"\0"):
                        what = "string %r in column %s" % (r[k], h["cols"][k].name)
    ck.traces += 1
    if what:
        ck.fail("import", "%s: %s" % (how, what), {"text": p.text, "delimiter": p.delim, "how": how, "behaviour": p.beh,
                                                   "want": repr(want), "got": repr(got)})


def through_tool(ck, plans):
    jobs = []
    for i, (p, sql) in enumerate(plans):
        src = os.path.join(ck.work, "t%d.csv" % i)
        dst = os.path.join(ck.work, "t%d.odb" % i)
        with open(src, "wb") as f:
            f.write(p.text.encode())
        name = {"\t": "TAB", " ": "SPACE"}.get(p.delim, p.delim)
        if name in ("TAB", "SPACE") and p.rng.random() < 0.3:
            name = name.lower()
        opts = [] if p.delim == "," and p.rng.random() < 0.5 else ["-d", name]
        if sql:
            opts += ["-sql", sql]
        env = {"ODB_ROWS_BUFFER_SIZE": str(p.rng.choice([2, 3, 5]))} if p.rng.random() < 0.4 else {}
        jobs.append((p, opts, env, src, dst))

    def run(j):
        return T.run_tool(["import"] + j[1] + [j[3], j[4]], env=j[2])
    for j, (rc, _, err) in zip(jobs, T.parallel(run, jobs)):
        p, opts, env, src, dst = j
        how = "odc import %s" % " ".join(map(repr, opts))
        data = open(dst, "rb").read() if os.path.exists(dst) else b""
        if rc is None or rc < 0:
            ck.fail("import-crash", "%s: crash or hang (%s)" % (how, rc), {"text": p.text, "opts": opts, "err": err.decode("latin1")[-400:]})
            continue
        judge(ck, p, rc, data, how)
        for f in (src, dst):
            if os.path.exists(f):
                os.unlink(f)


def through_api(ck, p):
    rng = p.rng
    via = rng.choice(["string", "stream", "handle", "handle"])
    rq = {"op": "import", "hex": p.text.encode().hex(), "via": via, "delimiter": p.delim}
    mode = rng.random()
    if via == "handle":
        rq["chunk"] = rng.choice([-1, 1, 3, 7, 64])
    r = ck.call(rq)
    if "died" in r:
        ck.fail("import-crash", "odbFromCSV (%s): %s" % (via, r["died"]), rq)
        return
    judge(ck, p, r["rc"], bytes.fromhex(r["data"]), "odbFromCSV (%s)" % via, r.get("n"))
    if p.beh["err"] or not p.want:
        return
    # a source or a destination that fails: an error, and no more than a beginning of the table
    if mode < 0.5:
        rq = dict(rq, via="handle", throw_at=rng.randrange(len(p.text.encode())), chunk=rng.choice([-1, 5]))
        how = "odbFromCSV from a source failing after %d bytes" % rq["throw_at"]
    else:
        rq = dict(rq, limit=rng.randrange(len(r["data"]) // 2), fmode=rng.choice(["short", "err", "throw", "zero"]))
        how = "odbFromCSV into a destination failing (%s) after %d bytes" % (rq["fmode"], rq["limit"])
    r = ck.call(rq)
    if "died" in r:
        ck.fail("import-crash", "%s: %s" % (how, r["died"]), rq)
        return
    ck.traces += 1
    if r["rc"] == 0:
        ck.fail("import-fault", "%s: success" % how, rq)
        return
    if "limit" not in rq:
        got = table(bytes.fromhex(r["data"]))
        d = T.diff(got, p.want[:len(got)])
        if d:
            ck.fail("import-fault", "%s: %s" % (how, d), rq)


HEADERS = ["a", "a:", ":INTEGER", "a:FOO", "a:INTEGERS", "a:INTEGER,b", "b,a:REAL", "f:BITFIELD", "f:BITFIELD[", "f:BITFIELD[a]",
           "f:BITFIELD[a:0]", "f:BITFIELD[a:-1;b:2]", "f:BITFIELD[a:1;a:2]", "f:BITFIELD[a:x]", "f:BITFIELD[a:16;b:16]", "a:1", ""]


def headers(ck):
    """Headers that are none: an error, and nothing is written."""
    for h in HEADERS:
        for text in (h, h + "\n1\n", h + "\n1,1\n"):
            r = ck.call({"op": "import", "hex": text.encode().hex(), "via": "string", "delimiter": ","})
            ck.traces += 1
            if "died" in r or r["rc"] == 0 or r["data"]:
                ck.fail("import-header", "header %r: %s" % (h, str(r)[:300]), text)


def run(ck):
    ck.tlc("Import", CFG % (2, ck.pick(3, 4), 2, "FALSE", "FALSE", "FALSE"), workers=4)
    ck.tlc("Import", CFG % (2, 2, 2, "TRUE", "FALSE", "FALSE"), workers=4)
    behs = ck.tlc("Import", CFG % (1, 2, 2, "FALSE", "FALSE", "TRUE"), workers=2).prints
    ck.cov["exhaustive_behaviours"] = len(behs)
    seen = set()
    for cols, lines, n in ck.pick([(3, 5, 900), (5, 14, 900), (4, 60, 60)], [(3, 5, 8000), (5, 14, 8000), (6, 120, 500)]):
        for b in ck.tlc("Import", CFG % (cols, lines, 3, "TRUE", "TRUE", "TRUE"), simulate=n, depth=3 * lines + 8, seed=ck.seed,
                        workers=2).prints:
            if str(b) not in seen:
                seen.add(str(b))
                behs.append(b)
    ck.cov["behaviours"] = len(behs)
    headers(ck)
    plans = []
    for i, b in enumerate(behs):
        p = Plan(random.Random("%d/%d" % (ck.seed, i)), b)
        plain = b["q"]["op"] == "all" and b["q"]["out"] == list(range(1, len(b["cols"]) + 1))
        if plain:
            through_api(ck, p)
        if plain and (i % 2 or i < 100):
            plans.append((p, None))
        elif sqlable(p):
            plans.append((p, p.sql()))
        ck.count("lines", len(b["text"]))
        ck.count("refused", b["err"])
    through_tool(ck, plans)
    for p, sql in plans[-2:]:
        ck.sample({"text": p.text[:400], "sql": sql, "delimiter": p.delim, "rows": len(p.want), "error": p.beh["err"]})
    scale.each(ck, ck.pick(3, 30), scale.imported)
