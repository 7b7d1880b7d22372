"""Concrete ODB-2 streams from the wires TLC generated with RowDelta.tla."""
import concrete
import odbwire as w


class Frame:
    """cols: FCols in wire order; rows: symbolic rows of the wire; sym: expected symbol per column and row."""

    def __init__(self, rng, beh, cols, bo, props=()):
        self.cols, self.bo, self.props = cols, bo, list(props)
        wire = beh["wire"]
        self.wire = wire
        rows = []
        for r in wire:
            k = r["k"]
            rows.append((k, [cols[k + i].values[s] for i, s in enumerate(r["v"])]))
        self.bytes = w.build_frame([c.desc for c in cols], rows, props=self.props, bo=bo)
        self.sym = [beh["cols"][i] for i in range(len(cols))]
        self.nrows = len(wire)

    def names(self):
        return [c.desc["name"] for c in self.cols]

    def col(self, name):
        return self.names().index(name)

    def cells(self, name, ints):
        i = self.col(name)
        return [self.cols[i].cell(s, ints) for s in self.sym[i]]

    def key(self):
        """What decides whether two frames can be aggregated."""
        return sorted((c.desc["name"], c.type, c.width) for c in self.cols)


def columns(rng, n, syms, **kw):
    return [concrete.foreign_column(rng, "c%d@t" % i if rng.random() < 0.5 else "c%d" % i, syms, **kw)
            for i in range(n)]


def variant(rng, cols, syms, permute=True):
    """Same names and types (and widths), other codecs and values, possibly another order."""
    out = []
    for c in cols:
        for _ in range(50):
            ch = rng.choice([x for x in concrete.CODECS if x[0] == c.type])
            k = concrete.foreign_column(rng, c.desc["name"], syms, choice=ch)
            if k.width == c.width:
                break
        else:
            k = c
        out.append(k)
    if permute:
        rng.shuffle(out)
    return out


def stream(rng, behs, syms, bo=None, homogeneous=None):
    frames = []
    for b in behs:
        n = len(b["cols"])
        o = bo or rng.choice("<>")
        props = [("k%d" % i, "v%d" % rng.randint(0, 9)) for i in range(rng.randint(0, 2))]
        r = rng.random()
        if frames and len(frames[-1].cols) == n and (r < 0.3 or homogeneous == "same"):
            cols = frames[-1].cols
        elif frames and len(frames[-1].cols) == n and (r < 0.75 or homogeneous == "agg"):
            cols = variant(rng, frames[-1].cols, syms)
        else:
            cols = columns(rng, n, syms)
        frames.append(Frame(rng, b, cols, o, props))
    return frames


def groups(frames, maxrows=None):
    """Aggregation of consecutive compatible frames."""
    out = []
    for f in frames:
        if out and out[-1][0].key() == f.key() and (maxrows is None or
                                                    sum(x.nrows for x in out[-1]) + f.nrows <= maxrows):
            out[-1].append(f)
        else:
            out.append([f])
    return out


def diff_cells(kind, got_hex, width, exp):
    """Index of the first differing cell, or None. exp entries of None are unspecified."""
    g = bytes.fromhex(got_hex)
    if len(g) != width * len(exp):
        return "length %d, expected %d cells of %d" % (len(g), len(exp), width)
    for i, e in enumerate(exp):
        if e is None:
            continue
        c = g[i * width:(i + 1) * width]
        if not concrete.same_cell(kind, c, e.ljust(width, b"\0")):
            return "row %d: got %s expected %s" % (i, c.hex(), e.hex())
    return None
