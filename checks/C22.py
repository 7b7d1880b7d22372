"""C22: sequences of calls of the Fortran interface (Fortran.tla)."""
import concurrent.futures
import os
import re
import select
import struct
import subprocess
import tempfile
import time

import build
import odbwire as w
import tables as T

CFG = """CONSTANTS Readers = {"r", "s"}
 Frames = {"f", "g"}
 Decoders = {%s}
 Encoders = {%s}
 Ops = {%s}
 Prelude = "%s"
 MaxFiles = 6
 MaxSteps = %d
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Shows Places Emit
PROPERTIES Absent Failed One Grow
CHECK_DEADLOCK FALSE
"""


def q(x):
    return ", ".join('"%s"' % c for c in x.split())


def behaviours(ck):
    out = []
    for d, e, ops, prelude, n, k in (("", "", "next", "frames", 6, ck.pick(800, 10 ** 6)),
                                     ("", "", "next", "frames", ck.pick(5, 7), ck.pick(500, 6000)),
                                     ("d c", "", "tell", "decoder", 5, ck.pick(300, 5000)),
                                     ("", "e", "sizes encode", "encoder", ck.pick(6, 7), ck.pick(300, 6000))):
        got = ck.tlc("Fortran", CFG % (q(d), q(e), q(ops), prelude, n, "FALSE"), workers=1).prints
        ck.rng.shuffle(got)
        out += got[:k]
    for d, e, ops, prelude, n, k in (("d", "", "arrays decode", "decoder", 12, ck.pick(700, 9000)),
                                     ("d c", "", "decoders arrays decode", "decoder", 30, ck.pick(400, 6000)),
                                     ("", "e", "sizes encode", "encoder", 14, ck.pick(600, 8000)),
                                     ("d", "e h", "encoders encode units frames next tell decode arrays", "encoder", 50, ck.pick(400, 6000)),
                                     ("d c", "e h", "frames next tell decoders arrays decode encoders encode units wrong", "none", 90,
                                      ck.pick(250, 5000))):
        out += ck.tlc("Fortran", CFG % (q(d), q(e), q(ops), prelude, n, "TRUE"), simulate=k, depth=n + 2, seed=ck.seed).prints
    return out


LINE = re.compile(r"\d+ \d+ \d+ -?\d+( |$)")


class Died(Exception):
    pass


class Fdrv:
    """The driver of the Fortran interface: commands in, a line for each out."""

    def __init__(self):
        self.exe = build.build_fortran()
        self.p = None
        self.n = 0

    def start(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("ODC_", "ODB_", "GFORTRAN_")) and k != "LD_LIBRARY_PATH"}
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                f.close()
            self.p = None

    def run(self, cmds, timeout=60):
        """-> a list of [rc, notified, error, context, values, message]"""
        if self.p is None:
            self.start()
        out, lines = [], []
        end = time.time() + timeout
        # in pieces that fit any pipe
        for i in range(0, len(cmds), 40):
            part = cmds[i:i + 40]
            data = "".join(c + "\n" for c in part).encode()
            try:
                while data:
                    data = data[os.write(self.p.stdin.fileno(), data):]
            except OSError:
                self.dead("ends")
            want = len(lines) + len(part)
            while len(lines) < want:
                while b"\n" in self.buf and len(lines) < want:
                    ln, self.buf = self.buf.split(b"\n", 1)
                    ln = ln.decode("latin1")
                    if not LINE.match(ln):
                        continue                                  # what the library logs
                    lines.append(ln)
                if len(lines) < want:
                    left = end - time.time()
                    if left <= 0:
                        self.dead("hangs")
                    if select.select([self.p.stdout], [], [], left)[0]:
                        d = os.read(self.p.stdout.fileno(), 1 << 16)
                        if not d:
                            self.dead("ends", len(lines))
                        self.buf += d
        for ln in lines:
            a, _, m = ln.partition(" # ")
            t = a.split()
            out.append([int(x) for x in t[:4]] + [t[4:], m.strip()])
        return out

    def dead(self, how, n=None):
        rc = self.p.poll()
        self.err.seek(0)
        t = self.err.read().decode("latin1")[-300:]
        self.stop()
        raise Died("the program %s (%s) %s %s" % (how, rc, "" if n is None else "at command %d" % n, t))


NUM = {"r": 1, "s": 2, "f": 1, "g": 2, "d": 1, "c": 2, "e": 1, "h": 2}
TYPE = {"int": 1, "str": 3, "bits": 4, "dbl": 5}
DEFAULTS = {"int": 2147483647, "dbl": -2147483647.0}


def hexw(b):
    return "%016X" % struct.unpack("<Q", b)


def dash(o, k=1):
    """An optional argument."""
    if o == []:
        return "-"
    v = o[0]
    if isinstance(v, bool):
        return "T" if v else "F"
    return str(v * k if v >= 0 else 12)                      # a size below nothing stands for half a word


def place(p, r, k):
    return p["base"] + r * p["rs"] + (k // p["ck"]) * p["cks"] + k % p["ck"]


class Conflict(Exception):
    """The same memory is to hold text and numbers."""


class Plan:
    def __init__(self, ck, beh, n, slot):
        self.rng = rng = ck.rng
        self.beh = beh
        self.longs = n % 2 == 0
        self.ctx = rng.randint(1, 10 ** 12)
        self.names = {"a": "alpha", "b": rng.choice(["beta@t", "b"]), "c": "c%d" % rng.randint(0, 9), "s": "station@hdr", "u": "u", "z": "zeta"}
        self.keys = {"p": "key", "q": rng.choice(["k", "key2", "Key"])}
        self.miss = {"int": [DEFAULTS["int"]] + [rng.randint(-10 ** 9, -1000) for _ in range(4)],
                     "dbl": [DEFAULTS["dbl"]] + [float(rng.randint(-10 ** 9, -1000)) for _ in range(4)]}
        self.dir = os.path.join(ck.work, "slot%d" % slot)
        os.makedirs(self.dir, exist_ok=True)
        self.path, self.frames = {}, {}        # file -> path; source -> (frame, {column: words of the cells})
        self.used = {}                         # memory -> {word: "text" | "number"}
        for i, st in enumerate(beh["base"]):
            data = b"".join(self.frame(f) for f in st)
            self.path[i + 1] = os.path.join(self.dir, "base%d-%d" % (i + 1, n % 7))
            with open(self.path[i + 1], "wb") as fh:
                fh.write(data)
        self.nfiles = len(beh["base"])
        self.content = {}                      # written file -> its frames
        self.memory = {}
        for e in beh["log"]:
            if e["fn"] == "encode" and e["rc"] == 0:
                fr = e["val"]["frames"]
                for c, p in zip(fr[0]["cols"], e["val"]["place"]):
                    for r in range(sum(f["n"] for f in fr)):
                        for k in range(p["e"]):
                            kind = "number" if c["type"] == "bits" else "text" if c["type"] == "str" else "any"
                            m = self.used.setdefault(p["id"], {})
                            at = place(p, r, k)
                            have = m.get(at, "any")
                            if {have, kind} == {"number", "text"}:
                                raise Conflict()
                            m[at] = have if kind == "any" else kind

    def num(self, v):
        return struct.pack("<q", v) if self.longs else struct.pack("<d", v)

    def text(self, k):
        return bytes(self.rng.randint(33, 126) for _ in range(8 * k))

    def frame(self, f):
        rng, n = self.rng, f["n"]
        cols, cells = [], {}
        syms = [[] for _ in range(n)]
        for c in f["cols"]:
            if c["type"] == "str":
                vals = {"v%d" % r: self.text(c["w"]) for r in range(n)}
                cols.append(T.fixed_column(self.names[c["name"]], w.STRING, "int8_string", vals))
                words = [[vals["v%d" % r][8 * k:8 * k + 8] for k in range(c["w"])] for r in range(n)]
            else:
                vals = {"v%d" % r: rng.randint(0, 15) for r in range(n)}
                bits = [("m%d" % j, b) for j, b in enumerate(c["bits"])]
                cols.append(T.fixed_column(self.names[c["name"]], w.BITFIELD if c["type"] == "bits" else w.INTEGER,
                                           rng.choice(["int8", "int16", "int8_missing"]), vals, bits=bits, lo=0))
                words = [[self.num(vals["v%d" % r])] for r in range(n)]
            cells[c["name"]] = words
            for r in range(n):
                syms[r].append("v%d" % r)
        self.frames[tuple(f["src"])] = (f, cells)
        props = [(self.keys[p], self.value(p, k)) for p, k in f["props"]]
        return T.TFrame(rng, cols, syms, rng.choice("<>"), props=props).bytes

    @staticmethod
    def value(p, k):
        return None if p == "encoder" else "value-%s-%d" % (p, k)

    def filled(self, mid, n):
        """New memory for an encoder."""
        kinds = self.used.get(mid, {})
        ws = [self.num(self.rng.randint(0, 15)) if kinds.get(i) == "number" else self.text(1) for i in range(n)]
        self.memory[mid] = ws
        return "mem %d %d %s" % (mid, n, " ".join(hexw(x) for x in ws))

    def commands(self):
        """-> list of (command, what is expected of it)"""
        rng = self.rng
        out = [("reset %d" % self.ctx, None), ("behaviour %d" % (2 if self.longs else 1), None),
               ("setmissint %d" % DEFAULTS["int"], None), ("setmissdbl %r" % DEFAULTS["dbl"], None)]
        regions = {}             # memory of decoders
        unit = None

        def add(c, m=None):
            out.append((c, m))
        for n, s in enumerate(self.beh["log"]):
            fn, a, rc, val = s["fn"], s["args"], s["rc"], s["val"]
            pos = n + 1
            o = NUM.get(a[0]) if a and isinstance(a[0], str) else None
            m = (n, s)
            if fn == "open":
                add("open %d %s" % (o, "/nonexistent/%d" % n if a[1] == 0 else self.path[a[1]]), m)
            elif fn in ("close", "ffree", "dfree", "efree", "einit", "drowcount", "dcolcount"):
                add("%s %d" % (fn, o), m)
            elif fn in ("finit", "copy", "ddefaults"):
                add("%s %d %d" % (fn, o, NUM[a[1]]), m)
            elif fn == "next":
                add("next %d %s %s" % (o, dash(a[1]), "-" if a[2] == [] else a[2][0]), m)
                if rc == 0:
                    add("rows %d" % o, (n, dict(s, fn="rows")))
            elif fn in ("rows", "cols", "props"):
                add("%s %d" % (fn, o), m)
            elif fn == "attr":
                add("attr %d %d %d" % (o, a[1], a[3]), m)
            elif fn == "bit":
                add("bit %d %d %d %d" % (o, a[1], a[2], a[3]), m)
            elif fn == "prop_idx":
                add("prop_idx %d %d" % (o, a[1]), m)
            elif fn == "prop":
                add("prop %d %s %d" % (o, self.keys.get({0: "p", 1: "q"}.get(a[1]), "nothing"), a[3]), m)
            elif fn == "dinit":
                add("dinit %d %s" % (o, dash(a[1])), m)
            elif fn == "dadd":
                add("dadd %d %s" % (o, self.names[a[1]]), m)
            elif fn in ("drows", "erows", "erpf"):
                add("%s %d %d" % (fn, o, rng.choice([-1, -2 ** 62]) if a[1] < 0 else a[1]), m)
            elif fn == "darray":
                h, wd, cm = a[1], a[2], a[3]
                add("mem %d %d" % (pos, h * wd))
                regions[pos] = h * wd
                # by rows, the first index is that of the column
                x, y = (h, wd) if cm in ([], [True]) else (wd, h)
                add("darray %d %d %d %d %s" % (o, pos, x, y, dash(cm)), m)
            elif fn == "dsize":
                add("dsize %d %d %d" % (o, a[1], 8 * a[2]), m)
            elif fn == "down":
                if a[4] != []:
                    add("mem %d 40" % pos)
                    regions[pos] = 40
                add("down %d %d %s %s %s" % (o, a[1], dash(a[2], 8), dash(a[3], 8), "-" if a[4] == [] else pos), m)
            elif fn == "decode":
                for k in regions:
                    add("fill %d" % k)
                add("decode %d %d %s" % (o, NUM[a[1]], dash(a[2])), m)
                if rc == 0:
                    if any(val["inarray"]):
                        add("ddata %d %d" % (o, 1 if self.owned(val) else 0), (n, dict(s, fn="ddata")))
                    for i in range(len(val["cols"])):
                        add("dcol %d %d" % (o, i + 1), (n, dict(s, fn="dcol", i=i)))
                for k in regions:
                    add("look %d" % k, (n, dict(s, fn="look", id=k, words=regions[k])))
            elif fn == "eadd":
                add("eadd %d %s %d" % (o, self.names[a[1]], TYPE[a[2]]), m)
            elif fn == "eprop":
                add("eprop %d %s %s" % (o, self.keys[a[1]], self.value(a[1], pos)), m)
            elif fn == "ebits":
                add("ebits %d %d m%d %d" % (o, a[1], n, a[2]), m)
            elif fn == "earray":
                h, wd, cm = a[1], a[2], a[3]
                add(self.filled(pos, h * wd))
                x, y = (h, wd) if cm in ([], [True]) else (wd, h)
                add("earray %d %d %d %d %s" % (o, pos, x, y, dash(cm)), m)
            elif fn == "esize":
                add("esize %d %d %s %s" % (o, a[1], dash(a[2], 8), dash(a[3])), m)
            elif fn == "eown":
                if a[5] != []:
                    add(self.filled(pos, 24))
                add("eown %d %d %s %s %s %s" % (o, a[1], dash(a[2], 8), dash(a[3]), dash(a[4], 8), "-" if a[5] == [] else pos), m)
            elif fn == "unit":
                if a[0] == "new":
                    self.nfiles += 1
                    unit = self.nfiles
                    self.path[unit] = os.path.join(self.dir, "out%d" % unit)
                    self.content[unit] = []
                else:
                    unit = a[1]
                add("unit %s %s" % (a[0], self.path[unit]), m)
            elif fn == "unitclose":
                add("unitclose", m)
            elif fn == "encode":
                if rc == 0:
                    self.encoded(s)
                    self.content[unit] += val["frames"]
                add("encode %d" % o, (n, dict(s, unit=unit)))
            elif fn == "setmiss":
                v = self.miss[a[0]][a[1]]
                add("setmiss%s %r" % (a[0], v), m)
            elif fn == "getmiss":
                add("getmiss" + a[0], m)
            elif fn == "typename":
                add("typename %d" % a[0], m)
            elif fn == "null":
                self.null(add, a[0], m)
            else:
                raise KeyError(fn)
        add("typecount", (-1, {"fn": "typecount", "args": [], "rc": 0, "val": []}))
        add("reset %d" % self.ctx, (-1, {"fn": "reset", "args": [], "rc": 0, "val": []}))
        return out

    def null(self, add, what, m):
        rng = self.rng
        if what == "section":
            # parts of an array that are not in one piece in memory
            kind = rng.choice("de")
            add(kind + ("init 8 -" if kind == "d" else "init 8"))
            add("%ssection 8 %s" % (kind, rng.choice(["5 2", "3 1", "6 5"])), m)
            add(kind + "free 8")
            return
        cmd = {"next": "next 9 - -", "rows": "rows 9", "props": "props 9", "ddefaults": "ddefaults 9 9", "decode": "decode 9 9 -",
               "dadd": "dadd 9 a", "eadd": "eadd 9 a 1", "erows": "erows 9 2", "encode": "encode 9", "copy": "copy 9 8",
               "darray": "darray 9 399 1 1 -", "earray": "earray 9 399 1 1 -", "finit": "finit 8 9", "behaviour": "behaviour %d" %
               rng.choice([0, 3, -1]), "dcolcount": "dcolcount 9"}[what]
        if "399" in cmd:
            add("mem 399 1")
        add(cmd, m)

    @staticmethod
    def owned(val):
        return any(i and p["id"] == 0 for i, p in zip(val["inarray"], val["place"]))

    def encoded(self, s):
        """What the frames just written contain."""
        at = 0
        for f in s["val"]["frames"]:
            cells = {}
            for c, p in zip(f["cols"], s["val"]["place"]):
                m = self.memory[p["id"]]
                cells[c["name"]] = [[m[place(p, r, k)] for k in range(p["e"])] for r in range(at, at + f["n"])]
            at += f["n"]
            self.frames[tuple(f["src"])] = (f, cells)

    def cells(self, val, i):
        return [x for src in val["src"] for x in self.frames[tuple(src)][1][val["cols"][i]]]


def verify(p, s, o, st):
    """-> what is wrong with the outcome of a command, or None"""
    fn, rc, val = s["fn"], s["rc"], s["val"]
    got, notified, err, ctx, v, msg = o
    if fn == "look":
        rc = 0
    if got != rc:
        return "returns %d (%s), expected %d" % (got, msg, rc)
    if rc == 2:
        if not notified or err != 2 or ctx != p.ctx:
            return "fails and calls the failure handler %d times with error %d, context %d (expected %d)" % (notified, err, ctx, p.ctx)
        return None if msg and msg != "<unknown>" else "fails without a message"
    if notified:
        return "succeeds and calls the failure handler"
    if rc == 1:
        return None
    if fn in ("rows", "cols", "props", "drowcount", "dcolcount"):
        return None if v == [str(val[0])] else "gives %s, expected %s" % (v, val[0])
    if fn == "attr":
        full = [p.names[val["name"]], str(TYPE[val["type"]]), str(8 * val["w"]), str(val["w"]), str(len(val["bits"]))]
        want = s["args"][3]
        mask = [1, 1, 1, 1, 1] if want == 31 else [1, 0, 0, 0, 0] if want & 1 else [0, 1, 0, 0, 1] if want & 2 else \
            [0, 0, 0, 1, 0] if want & 4 else [0, 0, 1, 0, 0] if want & 8 else [0] * 5
        exp = [x if k else y for x, k, y in zip(full, mask, ["-", "-77", "-77", "-77", "-77"])]
        return None if v[1:] == exp[1:] and v[0] == exp[0] else "gives %s, expected %s" % (v, exp)
    if fn == "bit":
        j, bits = val
        want = s["args"][3] & 3
        exp = ["-77" if want in (0, 1) else str(sum(bits[:j - 1])), str(bits[j - 1]) if want in (0, 3) else "-77"]
        if v[1:] != exp or (v[0] == "-") != (want in (0, 2)) or v[0] in ("?", '""'):
            return "gives %s, expected member %d of %s (%d)" % (v, j, bits, want)
        return None
    if fn in ("prop", "prop_idx"):
        want = {p.keys.get(k, k): p.value(k, src) for k, src in val}
        if fn == "prop_idx":
            k, x = v[0], " ".join(v[1:])
            if k not in want or (want[k] is not None and x != want[k]) or (want[k] is None and not x.startswith("odc version")):
                return "gives %s, expected one of %s" % (v, want)
            return None
        ask = s["args"][3] & 3
        there = list(want.values())
        exp = ["T" if there and ask & 2 else "F", there[0] if there and ask & 1 else None]
        if v[0] != exp[0] or (exp[1] is not None and v[1] != exp[1]) or (exp[1] is None and ask & 1 and v[1] not in ("?",)):
            return "gives %s, expected %s (%d)" % (v, want, ask)
        return None
    if fn == "decode":
        return None if v == [str(val["n"])] else "decodes %s rows, expected %d" % (v, val["n"])
    if fn == "ddata":
        cm = "T" if val["cm"] else "F"
        shape = [val["h"], val["w"]] if val["cm"] else [val["w"], val["h"]]
        own = p.owned(val)
        at = [x for k, x in zip(val["inarray"], val["place"]) if k][0]["id"]
        exp = [cm] + [str(x) for x in shape] + (["owned"] if own else [str(at)]) + ["0"]
        if v[:5] != exp or v[-1] != cm:
            return "has the array %s (%s), expected %s" % (v[:5], v[-1], exp)
        if own:
            mem = v[5:-1]
            for i, (k, x) in enumerate(zip(val["inarray"], val["place"])):
                for r, cell in enumerate(p.cells(val, i) if k else []):
                    for q_, word in enumerate(cell):
                        if mem[place(x, r, q_)] != hexw(word):
                            return "row %d of column %s is %s, expected %s" % (r + 1, val["cols"][i], mem[place(x, r, q_)], hexw(word))
        return None
    if fn == "dcol":
        x = val["place"][s["i"]]
        inarr = val["inarray"][s["i"]]
        stride = 8 * x["e"] if inarr and val["cm"] else 8 * x["rs"]
        exp = [str(8 * x["e"]), str(x["e"]), str(stride)] + (["owned", "0"] if x["id"] == 0 else [str(x["id"]), str(8 * x["base"])])
        return None if v == exp else "column %d is said to lie at %s, expected %s" % (s["i"] + 1, v, exp)
    if fn == "look":
        exp, free = {}, set()
        if s["rc"] == 0:
            for i, x in enumerate(val["place"]):
                if x["id"] == s["id"]:
                    for r, cell in enumerate(p.cells(val, i)):
                        for k in range(x["e"]):
                            if k < len(cell):
                                exp[place(x, r, k)] = hexw(cell[k])
                            else:
                                free.add(place(x, r, k))
        if v[0] != "T":
            return "writes outside the memory %d" % s["id"]
        for k, g in enumerate(v[1:]):
            if k not in free and g != exp.get(k, "25A5A5A5A5A5A5A5"):
                return "word %d of memory %d is %s, expected %s" % (k, s["id"], g, exp.get(k, "what it was"))
        return None
    if fn == "getmiss":
        x = p.miss[s["args"][0]][val[0]]
        exp = str(x) if s["args"][0] == "int" else hexw(struct.pack("<d", x))
        return None if v == [exp] else "gives %s, expected %s" % (v, exp)
    if fn == "typename":
        exp = ["ignore", "integer", "real", "string", "bitfield", "double"][s["args"][0]]
        return None if v == [exp] else "gives %s, expected %s" % (v, exp)
    if fn == "typecount":
        return None if v == ["6"] else "gives %s, expected 6" % v
    if fn == "encode":
        st["bytes"][s["unit"]] = st["bytes"].get(s["unit"], 0) + int(v[0])
    return None


def written(p, st):
    """-> what is wrong with the files written"""
    for k, fr in p.content.items():
        with open(p.path[k], "rb") as fh:
            data = fh.read()
        if len(data) != st["bytes"].get(k, 0):
            return "a file has %d bytes, %d were said to be written" % (len(data), st["bytes"].get(k, 0))
        try:
            hs = w.parse_stream(data)
        except w.WireError as e:
            return "a file that was written is invalid: %s" % e
        if len(hs) != len(fr):
            return "a file has %d frames, expected %d" % (len(hs), len(fr))
        for h, f in zip(hs, fr):
            cols = [(c.name, c.type, [b for _, b in c.bits]) for c in h["cols"]]
            want = [(p.names[c["name"]], TYPE[c["type"]], list(c["bits"])) for c in f["cols"]]
            if cols != want:
                return "a frame was written with columns %s, expected %s" % (cols, want)
            rows = list(w.expand(h, h["rows"]))
            cells = p.frames[tuple(f["src"])][1]
            if len(rows) != f["n"]:
                return "a frame was written with %d rows, expected %d" % (len(rows), f["n"])
            for r, row in enumerate(rows):
                for c, x in zip(f["cols"], row):
                    b = b"".join(cells[c["name"]][r])
                    exp = b if c["type"] == "str" else struct.unpack("<d", b)[0] if c["type"] == "dbl" or not p.longs else struct.unpack("<q", b)[0]
                    if x != exp:
                        return "row %d of column %s was written as %r, expected %r" % (r + 1, c["name"], x, exp)
            props = {p.keys.get(x, x): p.value(x, v) for x, v in f["props"]}
            have = dict(h["props"])
            if set(have) != set(props) or any(v is not None and have[x] != v for x, v in props.items()):
                return "a frame was written with properties %s, expected %s" % (have, props)
    return None


def called(fd, cmds):
    """-> what the driver answers, or why it does not"""
    try:
        return fd.run(cmds)
    except Died:
        try:
            return fd.run(cmds)
        except Died as e:
            return e


def judge(ck, p, cmds, out):
    short = [[s["fn"]] + s["args"] for s in p.beh["log"]]
    rep = {"commands": [c for c, _ in cmds], "behaviour": p.beh}
    if isinstance(out, Died):
        ck.fail("crash", "calls %s: %s" % (short, out), rep)
        return
    st = {"bytes": {}}
    for (c, m), o in zip(cmds, out):
        if m is None:
            if o[0]:
                ck.fail("call", "%s returns %s (%s)" % (c, o[0], o[5]), rep)
                return
            continue
        bad = verify(p, m[1], o, st)
        if bad:
            ck.fail(m[1]["fn"], "call %d %s (%s) %s; calls so far: %s" % (m[0] + 1, [m[1]["fn"]] + m[1]["args"], c[:80], bad, short[:m[0]]), rep)
            return
        ck.count("calls")
        if m[1]["rc"] == 2:
            ck.count("failing_calls")
        ck.count(m[1]["fn"])
    bad = written(p, st)
    if bad:
        ck.fail("written", "%s; calls: %s" % (bad, short), rep)


def run(ck):
    todo = behaviours(ck)
    ck.rng.shuffle(todo)
    build.build_fortran()
    fds = [Fdrv() for _ in range(6)]
    try:
        with concurrent.futures.ThreadPoolExecutor(len(fds)) as pool:
            for i in range(0, len(todo), len(fds)):
                if ck.elapsed() > ck.budget:
                    ck.cov["cut_short_at"] = i
                    break
                plans = []
                for slot, beh in enumerate(todo[i:i + len(fds)]):
                    try:
                        p = Plan(ck, beh, i + slot, slot)
                        plans.append((fds[slot], p, p.commands()))
                    except Conflict:
                        ck.count("conflicts")
                outs = [pool.submit(called, fd, [c for c, _ in cmds]) for fd, _, cmds in plans]
                for (_, p, cmds), o in zip(plans, outs):
                    judge(ck, p, cmds, o.result())
                    ck.traces += 1
                    if i == 0 and p is plans[0][1]:
                        ck.sample({"log": p.beh["log"]})
    finally:
        for fd in fds:
            fd.stop()
