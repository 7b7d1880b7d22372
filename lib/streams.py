"""Concrete streams for the behaviours of Stream.tla."""
import copy

import odbwire as w
import wires

CFG = """CONSTANTS MaxFrames = %d
 MinFrames = %d
 Sigs = {%s}
 Rows = {%s}
 Keys = {%s}
 PropVals = {%s}
 Limits = {%s}
 Sampled = %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS InOrder AllVisited Homogeneous Limited Maximal Single ErrorOnlyIfTooLarge ReadAhead Properties Emit
CHECK_DEADLOCK FALSE
"""
RD = """CONSTANTS NC = %d
 MaxRows = %d
 Vals = {"a", "b", "m"}
 MinLen = 1
 Sampled = TRUE
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS IteratorAgrees DecoderAgrees SpanAgrees Untouched Emit
CHECK_DEADLOCK FALSE
"""
SYMS = ["a", "b", "c", "m"]


def pool(ck, ncs=(2, 3), rows=4, n=60):
    out = {}
    for nc in ncs:
        for b in ck.tlc("RowDelta", RD % (nc, rows), simulate=n * rows, depth=2 * rows + 6, seed=ck.seed).prints:
            out.setdefault((nc, len(b["wire"])), []).append(b)
    return out


def mutate_signature(rng, cols):
    """Columns that differ from cols in one aspect that decides whether frames can be aggregated."""
    import concrete
    for _ in range(200):
        how = rng.choice(["name", "type", "width", "case"])
        i = rng.randrange(len(cols))
        c = cols[i]
        out = list(cols)
        if how in ("name", "case"):
            k = copy.deepcopy(c)
            k.desc["name"] = c.desc["name"] + "x" if how == "name" else c.desc["name"].upper()
            out[i] = k
        elif how == "type":
            other = {w.INTEGER: w.BITFIELD, w.BITFIELD: w.INTEGER, w.REAL: w.DOUBLE, w.DOUBLE: w.REAL,
                     w.STRING: w.INTEGER}[c.type]
            ch = rng.choice([x for x in concrete.CODECS if x[0] == other])
            out[i] = concrete.foreign_column(rng, c.desc["name"], SYMS, choice=ch)
        else:
            if c.type != w.STRING:
                continue
            ch = rng.choice([x for x in concrete.CODECS if x[0] == w.STRING])
            k = concrete.foreign_column(rng, c.desc["name"], SYMS, choice=ch)
            if k.width == c.width:
                continue
            out[i] = k
        key = lambda cs: sorted((x.desc["name"], x.type, x.width) for x in cs)
        if key(out) != key(cols) and len({x.desc["name"] for x in out}) == len(out):
            return out, how
    return None, None


def concretise(rng, beh, rows_pool, nc=None, bo=None, bigger=None):
    """-> list of wires.Frame with .sig"""
    nc = nc or rng.choice([2, 3])
    sigs = {}
    base = wires.columns(rng, nc, SYMS)
    sigs[1] = (nc, base)
    for s in sorted({f["sig"] for f in beh["file"]} - {1}):
        if rng.random() < 0.25:
            m = 5 - nc   # another number of columns: a prefix or an extension
            sigs[s] = (m, base[:m] if m < nc else base + wires.columns(rng, 1, SYMS))
            if m > nc:
                sigs[s][1][-1].desc["name"] = "extra"
        else:
            cols, how = mutate_signature(rng, base)
            if cols is None:
                cols = copy.deepcopy(base)
                cols[0].desc["name"] += "y"
            sigs[s] = (nc, cols)
        others = [sorted((x.desc["name"], x.type, x.width) for x in sigs[t][1]) for t in sigs if t != s]
        if sorted((x.desc["name"], x.type, x.width) for x in sigs[s][1]) in others:
            cols = copy.deepcopy(sigs[s][1])
            cols[0].desc["name"] = "only%d" % s
            sigs[s] = (sigs[s][0], cols)
    frames = []
    for f in beh["file"]:
        m, cols = sigs[f["sig"]]
        if rng.random() < 0.5:
            cols = wires.variant(rng, cols, SYMS)
        b = rng.choice(rows_pool[(m, f["n"])])
        props = sorted((k, "value of %s %s" % (k, v) if v > 1 else "v%s" % v) for k, v in (f["p"] or {}).items() if v)
        rng.shuffle(props)
        fr = wires.Frame(rng, b, cols, bo or rng.choice("<>"), props)
        fr.sig = f["sig"]
        frames.append(fr)
    return frames


def prop_value(k, v):
    return "value of %s %s" % (k, v) if v > 1 else "v%s" % v
