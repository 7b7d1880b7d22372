"""Events for Format.tla: the table given to a writer and the file it wrote."""
import math
import struct

import concrete
import odbwire as w

CFG = """INIT Init
NEXT Next
INVARIANT NeverTooMany
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


class Intern:
    """Numbers the values of one column: 0 missing / empty string, -1 NaN, the others in ascending order."""

    def __init__(self, ty, values):
        self.ty = ty
        vs = set(self.norm(v) for v in values)
        self.map = {}
        if ty == w.STRING:
            vs.discard(b"")
            self.map[b""] = 0
        else:
            vs.discard(None)
            vs.discard("nan")
            self.map[None] = 0
            self.map["nan"] = -1
        for i, v in enumerate(sorted(vs)):
            self.map[v] = i + 1

    def norm(self, v):
        if v is None:
            return None
        if self.ty == w.STRING:
            return v.rstrip(b"\0")
        if isinstance(v, float) and math.isnan(v):
            return "nan"
        return v + 0  # -0.0 is 0.0 as a key

    def id(self, v):
        return self.map.get(self.norm(v), -99)


def events(cols, rows, cuts, props, data):
    """cols: [(name, type, bits)]; rows: lists of values. -> events, or raises WireError."""
    interns = [Intern(c[1], [r[i] for r in rows]) for i, c in enumerate(cols)]
    ev = [{"e": "table", "cols": [{"n": c[0], "t": c[1], "bits": [list(b) for b in c[2]]} for c in cols],
           "rows": [[interns[i].id(v) for i, v in enumerate(r)] for r in rows], "cuts": cuts,
           "props": [list(p) for p in props]}]
    pos = 0
    data = bytes(data)
    while pos < len(data):
        h = w.parse_header(data, pos)
        ints = interns if len(h["cols"]) == len(cols) else [None] * len(h["cols"])
        hc = []
        for k, it in zip(h["cols"], ints):
            mm = [0, 0]
            if k.type != w.STRING and it is not None:
                mm = [0 if x == k.missing else it.id(x) for x in (k.min, k.max)]
            hc.append({"n": k.name, "t": k.type, "bits": [list(b) for b in k.bits], "codec": k.codec,
                       "hm": k.hasMissing, "min": mm[0], "max": mm[1]})
        ev.append({"e": "frame", "magic": True, "md5": h["md5_ok"], "hl": True, "version": [h["major"], h["minor"]],
                   "prev": h["prevFrameOffset"], "nrows": h["nrows"], "ds": h["dataSize"],
                   "props": [list(p) for p in h["props"]], "cols": hc})
        for m, vals in w.parse_rows(data, h):
            ev.append({"e": "row", "k": m, "c": [it.id(v) if it else -98 for it, v in zip(ints[m:], vals)]})
        pos = h["end"]
    ev.append({"e": "eof", "left": len(data) - pos})
    return ev


def validate(ck, items, what):
    """items: [(note, events)]. Checks all in one trace; on rejection finds the offending item and reports it."""
    if not items:
        return True
    evs = [e for _, es in items for e in es]
    ok, n, r = ck.trace("Format", CFG, evs, timeout=500)
    ck.traces += len(items)
    if ok:
        return True
    i = 0
    for note, es in items:
        if n < i + len(es):
            bad = es[n - i]
            ok2, n2, _ = ck.trace("Format", CFG, es, timeout=500)
            if ok2:   # only reached as the predecessor was incomplete: report that one
                bad = "end of the previous file"
            if isinstance(bad, dict):
                bad = {k: v for k, v in bad.items() if k != "rows"}
            ck.fail("format", "%s: the file is not a behaviour of Format.tla: event %d rejected: %s (%s)" %
                    (what, n - i, str(bad)[:400], note), {"events": es[:40]})
            return False
        i += len(es)
    return False
