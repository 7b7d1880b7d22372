"""C25: files shown as text: odc ls, sql (ascii and wide), xyv, header -ddl (Text.tla)."""
import os
import random
import re

import concrete
import defs
import odbwire as w
import scale
import tables as T

CFG = """CONSTANTS Layouts = {%s}
 MaxFrames = %d
 MaxRows = %d
 Tools = {"ls", "sql", "xyv", "ddl"}
 Sampled = %s
 EmitOn = TRUE
SPECIFICATION Spec
INVARIANTS RowsOnce RowsBefore Titled OneTitle CellsExist Tables Emit
CHECK_DEADLOCK FALSE
"""
SQLNAME = {w.INTEGER: "integer", w.REAL: "real", w.DOUBLE: "double", w.STRING: r"string\d*"}
DDLNAME = {w.INTEGER: "INTEGER", w.REAL: "REAL", w.DOUBLE: "DOUBLE", w.STRING: "STRING"}
NAMES = {1: ["p", "q", "s", "x", "y"], 2: ["q", "y", "p", "s", "x"], 3: ["p", "q", "s", "x", "y", "t"]}
TEXT = b"abcXYZ 0129_-+.,;:'\"|/\\()%$\t\xe9"


class Plan:
    """What the names of the model stand for, and the file."""

    def __init__(self, rng, beh):
        self.rng, self.beh = rng, beh
        self.table = rng.choice(["hdr", "body"])
        at = rng.choice(["", "@" + self.table, "@" + self.table, "@other"])
        at2 = rng.choice([at, at, ""])
        self.name = {"p": "col_p" + at, "q": "obsvalue" + at2, "s": "statid" + at, "x": "lon" + at2, "y": "lat" + at2, "t": "extra" + at}
        num = [w.INTEGER, w.BITFIELD, w.REAL, w.DOUBLE]
        self.type = {"p": rng.choice(num), "q": rng.choice(num), "s": w.STRING, "x": rng.choice([w.REAL, w.DOUBLE]),
                     "y": rng.choice([w.REAL, w.DOUBLE, w.INTEGER]), "t": rng.choice(num)}
        self.bits = {n: [("b1", 3), ("b2", 7)] for n in "pqt"}
        self.frames = []
        self.cells = []          # per frame: rows of {name: value}
        for f in beh["file"]:
            self.add(f["lay"], f["n"])
        self.data = b"".join(f.bytes for f in self.frames)

    def string(self, width):
        rng = self.rng
        return bytes(rng.choice(TEXT) for _ in range(rng.choice([0, 1, 3, 7, 8, width, rng.randint(0, width)])))[:width].rstrip(b"\0")

    def add(self, lay, n):
        rng = self.rng
        order = NAMES.get(lay, NAMES[1])
        cols, rows = [], [dict() for _ in range(n)]
        for name in order:
            ty = self.type[name]
            width = 8
            miss = None
            bits = self.bits[name] if ty == w.BITFIELD else None
            if ty == w.STRING and lay == 4:
                width = 24
            if lay == 5 and ty != w.STRING:
                miss = {w.INTEGER: 12345, w.BITFIELD: 1022}.get(ty, -0.125)
                if bits:
                    bits = [("b1", 3), ("c2", 7)]
            const = rng.random() < 0.2
            vals = {}
            for i in range(n):
                if i and (const or rng.random() < 0.3):
                    v = vals[0] if const else vals[rng.randrange(i)]
                elif ty == w.STRING:
                    v = self.string(width)
                elif rng.random() < 0.2:
                    v = None
                else:
                    v = defs.value(rng, ty, avoid=(12345, 1022, -0.125, w.MISS_INT, w.MISS_REAL))
                vals[i] = v
            if ty == w.STRING and width > 8 and n:
                # the width of the frame's strings is that of the longest
                j = rng.randrange(n)
                vals = {i: (vals[i] if not const else b"") for i in vals}
                for i in vals:
                    if i == j or const:
                        vals[i] = b"wide string of 24 bytes."
            c = defs.column(rng, self.name[name], ty, vals, list(range(n)), miss, bits, const=const and n > 0 and len(set(vals.values())) == 1,
                            width=width)
            cols.append(c)
            for i in range(n):
                rows[i][name] = (ty, vals[i], c.miss)
        self.cells.append(rows)
        self.frames.append(T.TFrame(rng, cols, [[i] * len(cols) for i in range(n)], rng.choice("<<>")))

    def column(self, frame, name):
        f = self.frames[frame - 1]
        return next(c for c in f.cols if c.desc["name"] == self.name[name])


def number(v, full):
    return ("%.17f" if full else "%.6f") % v


def ls_cell(c):
    ty, v, miss = c
    if ty == w.STRING:
        return b"'" + v + b"'"
    if v is None:
        return b"."
    return (str(v) if ty in (w.INTEGER, w.BITFIELD) else number(v, False)).encode()


def sql_cell(c, o):
    ty, v, miss = c
    if ty == w.STRING:
        return b"'" + v + b"'"
    if v is None:
        if not o["-N"]:
            return b"NULL"
        v = o["missing"](ty, miss)
    if ty == w.BITFIELD and o["bin"]:
        return (bin(int(v))[2:] if v else "0").encode()
    return (str(int(v)) if ty in (w.INTEGER, w.BITFIELD) else number(v, o["full"])).encode()


def xyv_cell(c):
    ty, v, miss = c
    if v is None:
        v = w.MISS_INT if ty in (w.INTEGER, w.BITFIELD) else w.MISS_REAL
    return ("%g" % float(v)).encode()


def exact(cells, delim=b"\t"):
    return re.escape(delim.join(cells))


def padded(cells, delim):
    return re.escape(delim).join(b" *" + re.escape(c) + b" *" for c in cells)


def table_text(plan, e, table, path):
    types, lines = b"", b""
    for n in e["cols"]:
        c = plan.column(e["frame"], n)
        name = c.desc["name"]
        if name.endswith("@" + table):
            name = name[:-len(table) - 1]
        ty = DDLNAME.get(c.type)
        if c.type == w.BITFIELD:
            ty = "%s_at_%s_t" % (name, table)
            types += ("CREATE TYPE %s AS (%s);\n" % (ty, ", ".join("%s bit%d" % b for b in c.desc["bits"]))).encode()
        lines += ("  %s %s,\n" % (name, ty)).encode()
    return re.escape(types + b"CREATE TABLE " + table.encode() + b" AS (\n" + lines + b") ON '" + path.encode() + b"';\n")


def title(plan, e, wide):
    out = []
    for n in e["cols"]:
        c = plan.column(e["frame"], n)
        x = re.escape(c.desc["name"].encode())
        if wide:
            if c.type == w.BITFIELD:
                x += re.escape(b":Bitfield[" + b";".join(b"%s:%d" % (a.encode(), b) for a, b in c.desc["bits"]) + b"]")
            else:
                x += b":" + SQLNAME[c.type].encode()
        out.append(x)
    return out


def job(a):
    rng, beh, n, work = a
    plan = Plan(rng, beh)
    base = os.path.join(work, "t%d" % n)
    path, outp, script = base + ".odb", base + ".txt", base + ".sql"
    with open(path, "wb") as o:
        o.write(plan.data)
    try:
        return look(rng, plan, beh, path, outp, script)
    finally:
        for p in (path, outp, script):
            if os.path.exists(p):
                os.unlink(p)


def look(rng, plan, beh, path, outp, script):
    tool, opt = beh["tool"], beh["opt"]
    pattern = b""
    env = {"COLUMNS": "80"}
    if tool == "ls":
        args = ["ls", path]
        if rng.random() < 0.5:
            args[1:1] = ["-o", outp]
        for e in beh["out"]:
            if e["k"] == "names":
                ln = exact([plan.name[c].encode() for c in e["cols"]]) + b"\n"
                pattern += b"(?:" + ln + b")?" if e["may"] else ln
            else:
                pattern += exact([ls_cell(plan.cells[e["f"] - 1][e["r"] - 1][c]) for c in e["cols"]]) + b"\n"
    elif tool == "ddl":
        table = rng.choice(["foo", plan.table, "t"])
        args = ["header", "-ddl"] + (["-table", table] if table != "foo" else []) + [path]
        for e in beh["out"]:
            ln = table_text(plan, e, table, path)
            pattern += b"(?:" + ln + b")?" if e["may"] else ln
    elif tool == "xyv":
        args = ["xyv", path, plan.name["q"].split("@")[0] if rng.random() < 0.5 else plan.name["q"], outp]
        pattern = re.escape(b"#GEO\n\n#FORMAT XYV\n\nPARAMETER = 12004\n\nx/long\ty/lat\tvalue\n#DATA\n\n")
        for e in beh["out"]:
            pattern += exact([xyv_cell(plan.cells[e["f"] - 1][e["r"] - 1][c]) for c in e["cols"]]) + b"\n"
    else:
        o = {"-N": rng.random() < 0.3, "bin": rng.random() < 0.4, "full": rng.random() < 0.4,
             "missing": lambda ty, miss: miss}
        plain = rng.random() < 0.5
        wide = rng.random() < 0.4
        delim = rng.choice(["\t", "\t", "|", ",", "::", " ; "])
        sel = "*" if opt["sel"] == "all" else ", ".join(plan.name[c].split("@")[0] if rng.random() < 0.5 else plan.name[c] for c in ("s", "q"))
        st = rng.choice(["select ", "SELECT ", " Select "]) + sel
        part = not (opt["from"] == 1 and opt["to"] == len(plan.frames)) or rng.random() < 0.3
        named = not part and rng.random() < 0.3
        if named:
            st += ' from "%s"' % path
        opts = [] if named else ["-i", path]
        if part:
            lo = sum(len(f.bytes) for f in plan.frames[:opt["from"] - 1])
            ln = sum(len(f.bytes) for f in plan.frames[opt["from"] - 1:opt["to"]])
            if lo or rng.random() < 0.5:
                opts += ["-offset", str(lo)]
            if opt["to"] < len(plan.frames) or rng.random() < 0.5:
                opts += ["-length", str(ln)]
        opts += [] if opt["title"] else ["-T"]
        opts += ["-N"] if o["-N"] else []
        opts += [rng.choice(["--bin", "--binary"])] if o["bin"] else []
        opts += [rng.choice(["--full_precision", "--full-precision"])] if o["full"] else []
        opts += ["--no_alignment"] if plain else []
        opts += ["-delimiter", delim] if delim != "\t" or rng.random() < 0.3 else []
        to_file = rng.random() < 0.3
        f = "wide" if wide else rng.choice(["ascii", "ascii", "default"]) if not to_file else "ascii"
        opts += ["-f", f] if f != "default" or rng.random() < 0.3 else []
        opts += ["-o", outp] if to_file else []
        how = rng.random()
        if how < 0.2:
            with open(script, "w") as x:
                x.write(st + rng.choice(["", ";", ";\n", "\n"]))
            words = [script]
        elif how < 0.4:
            words = st.split()
        else:
            words = [st]
        groups, i = [], 0
        while i < len(opts):
            k = 2 if opts[i] in ("-i", "-o", "-f", "-delimiter", "-offset", "-length") else 1
            groups.append(opts[i:i + k])
            i += k
        rng.shuffle(groups)
        cut = rng.randint(0, len(groups))
        args = ["sql"] + sum(groups[:cut], []) + words + sum(groups[cut:], [])
        d = delim.encode()
        for e in beh["out"]:
            if e["k"] == "names":
                ts = title(plan, e, wide)
                pattern += re.escape(d).join(ts if plain else [b" *" + t + b" *" for t in ts]) + b"\n"
            else:
                cells = [sql_cell(plan.cells[e["f"] - 1][e["r"] - 1][c], o) for c in e["cols"]]
                pattern += (exact(cells, d) if plain else padded(cells, d)) + b"\n"
    rc, out, err = T.run_tool(args, env=env)
    desc = "odc %s on frames %s" % (" ".join(repr(x) for x in args), [(f["lay"], f["n"]) for f in beh["file"]])
    if beh["failed"]:
        if rc != 1:
            return tool + "-fails", "%s: exit %s although a column is missing in a frame" % (desc, rc)
    elif rc != 0:
        return tool + "-exit", "%s: exit %s: %s" % (desc, rc, (out + err)[-300:].decode("latin1"))
    if outp in args:
        try:
            text = open(outp, "rb").read()
        except OSError as x:
            return tool + "-file", "%s: %s" % (desc, x)
        if tool == "ls":
            n = sum(f["n"] for f in beh["file"])
            if b"Selected %d row(s)." % n not in out + err:
                return "ls-count", "%s: does not report %d rows: %r" % (desc, n, (out + err)[-200:])
    else:
        text = out
    if beh["failed"] and tool == "sql" and outp not in args:
        # (messages about the failure can follow)
        ok = re.match(pattern, text, re.S)
    else:
        ok = re.fullmatch(pattern, text, re.S)
    if not ok:
        # find the first line that differs
        return tool, "%s prints\n%s\nexpected (as a pattern)\n%s" % (desc, text.decode("latin1")[:900], pattern.decode("latin1")[:1200])
    return None


def run(ck):
    out = ck.tlc("Text", CFG % ("1, 2, 3, 4", 2, 2, "FALSE"), workers=2).prints
    ck.cov["exhaustive_behaviours"] = len(out)
    ck.rng.shuffle(out)
    out = out[:ck.pick(900, 20000)]
    seen = set()
    for lays, fr, rows, n in ck.pick([("1, 2, 3, 4, 5", 4, 5, 2500), ("1, 4, 5", 5, 4, 1500)], [("1, 2, 3, 4, 5", 6, 8, 40000), ("1, 4, 5", 6, 12, 20000)]):
        for b in ck.tlc("Text", CFG % (lays, fr, rows, "TRUE"), simulate=n, depth=3 * fr + fr * rows + 6, seed=ck.seed).prints:
            if str(b) not in seen:
                seen.add(str(b))
                out.append(b)
    ck.cov["behaviours"] = len(out)
    ck.rng.shuffle(out)
    tools = {}
    for lo in range(0, len(out), 64):
        if ck.elapsed() > ck.budget:
            ck.cov["cut_short_at"] = lo
            break
        part = out[lo:lo + 64]
        jobs = [(random.Random(ck.rng.random()), b, lo + i, ck.work) for i, b in enumerate(part)]
        for b, bad in zip(part, T.parallel(job, jobs)):
            ck.traces += 1
            k = b["tool"] + ("-failed" if b["failed"] else "")
            tools[k] = tools.get(k, 0) + 1
            if bad:
                ck.fail(bad[0], bad[1], b)
    ck.cov["by_tool"] = tools
    if out:
        ck.sample({"behaviour": out[0]})
    scale.each(ck, ck.pick(3, 30), scale.printed)
