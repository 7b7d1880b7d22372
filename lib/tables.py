"""Tables: what the rows of a stream mean, whatever their encoding."""
import math
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import build
import odbwire as w


def norm(ty, v, missing=None):
    if ty == w.STRING:
        return (v or b"").split(b"\0")[0]
    if v is None:
        return None
    if isinstance(v, float) and math.isnan(v):
        return "nan"
    if v == missing:
        return None
    if ty in (w.INTEGER, w.BITFIELD):
        return int(v)
    return float(v) + 0.0


def of_bytes(data):
    """-> [(columns [(name, type)], row)] in order; raises WireError."""
    out = []
    for h in w.parse_stream(data):
        cols = [(k.name, k.type) for k in h["cols"]]
        for r in w.expand(h, h["rows"]):
            out.append((cols, [norm(k.type, v, k.missing) for k, v in zip(h["cols"], r)]))
    return out


def of_frames(frames):
    out = []
    for f in frames:
        cols = [(c.desc["name"], c.type) for c in f.cols]
        for i in range(f.nrows):
            out.append((cols, [norm(c.type, c.py(f.sym[k][i]), c.miss) for k, c in enumerate(f.cols)]))
    return out


def diff(got, want):
    """First difference between two tables, or None."""
    for i, (g, x) in enumerate(zip(got, want)):
        if g[0] != x[0]:
            return "row %d has columns %s, expected %s" % (i, g[0], x[0])
        for c, a, b in zip(x[0], g[1], x[1]):
            if a != b:
                return "row %d column %s: %r, expected %r" % (i, c[0], a, b)
    if len(got) != len(want):
        return "%d rows, expected %d" % (len(got), len(want))
    return None


def run_tool(args, cwd=None, timeout=60, env=None, stdin=None):
    """-> (exit status, stdout, stderr); a crash is negative, a hang is None."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ODC_", "ODB_")) and k != "LD_LIBRARY_PATH"}
    e.update(env or {})
    try:
        p = subprocess.run([build.odc_tool()] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return None, b"", b"hang"
    return p.returncode, p.stdout, p.stderr


def parallel(fn, jobs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, jobs))


class TFrame:
    """A frame with given rows. cols: concrete.FCols; symrows: a symbol per column for each row."""

    def __init__(self, rng, cols, symrows, bo, props=(), minimal=None):
        self.cols, self.bo, self.props = cols, bo, list(props)
        self.symrows = [list(r) for r in symrows]
        self.nrows = len(symrows)
        rows, prev = [], None
        minimal = rng.random() < 0.5 if minimal is None else minimal
        for r in symrows:
            k = 0
            if prev is not None:
                while k < len(cols) and self.same(cols[k], prev[k], r[k]):
                    k += 1
                if not minimal:   # any marker up to the first change is legal
                    k = rng.randint(0, k)
            rows.append((k, [cols[i].values[r[i]] for i in range(k, len(cols))]))
            prev = r
        self.wire = rows
        self.bytes = w.build_frame([c.desc for c in cols], rows, props=self.props, bo=bo)
        self.sym = [[r[i] for r in symrows] for i in range(len(cols))]

    @staticmethod
    def same(c, a, b):
        return a == b or c.values[a] == c.values[b]

    def names(self):
        return [c.desc["name"] for c in self.cols]

    def header(self):
        return [(c.desc["name"], c.type) for c in self.cols]

    def row(self, i):
        return [norm(c.type, c.py(s), c.miss) for c, s in zip(self.cols, self.symrows[i])]


def fixed_column(name, ty, codec, values, missing=None, bits=None, lo=None):
    """An FCol whose symbols have the given values ({symbol: value or None})."""
    import concrete
    d = {"name": name, "type": ty, "codec": codec}
    isint = ty in (w.INTEGER, w.BITFIELD)
    miss = missing if missing is not None else (w.MISS_INT if isint else 0.0 if ty == w.STRING else w.MISS_REAL)
    d["missing"] = miss
    if ty == w.BITFIELD:
        d["bits"] = bits or []
    known = [v for v in values.values() if v is not None]
    if ty == w.STRING:
        if codec == "constant_string":
            d["value"] = known[0]
        elif codec != "chars":
            d["strings"] = sorted(set(known)) or [b""]
    else:
        d["min"] = min(known) if lo is None and known else (lo or 0)
        d["max"] = max(known) if known else d["min"]
        d["hasMissing"] = 1 if any(v is None for v in values.values()) else 0
    return concrete.FCol(d, dict(values), miss)
