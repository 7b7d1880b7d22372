"""Runs TLC on the specifications of /verif/specs, and parses what it reports / prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import build

SPECS = os.path.join(build.VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC could not decide (parse error, timeout, evaluation error): an error of the check, not a violation."""


class Result:
    pass


def run(module, cfg, simulate=None, depth=None, seed=1, workers=1, timeout=600, files=None, mem="6g", opts=(),
        dfs=False):
    """simulate: number of behaviours (None = exhaustive breadth-first search)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=build.BUILD)
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as o:
                o.write(text)
        with open(os.path.join(d, "MC.cfg"), "w") as o:
            o.write(cfg)
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + d]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"),
                "-workers", str(workers)]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(seed)]
        cmd += list(opts) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on " + module)
        out = p.stdout.decode("utf8", "replace")
        r = Result()
        r.out, r.rc = out, p.returncode
        r.prints = []
        for ln in out.splitlines():
            if ln.startswith('"@@'):
                r.prints.append(json.loads(json.loads(ln)[2:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r.states = r.transitions = 0
        if m:
            r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"number of states generated: (\d+)", out)
            if m:
                r.states = r.transitions = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        r.depth = int(m[-1]) if m else None
        r.violated = bool(re.search(r"Error: (Invariant|Action property|Temporal propert|Postcondition|.*violated)", out))
        # 0 = ok, 10..13 = safety/liveness violations
        if p.returncode not in (0, 10, 11, 12, 13) or (p.returncode == 0 and "Error:" in out):
            raise TlcError("TLC failed on %s (exit %d)\n%s" % (module, p.returncode, _head(out)))
        r.ok = p.returncode == 0
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _noprints(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))


def check(module, cfg, **kw):
    """The design itself must satisfy its properties: anything else is an error of the specification."""
    r = run(module, cfg, **kw)
    if not r.ok:
        raise TlcError("specification %s violates its own property:\n%s" % (module, _noprints(r.out)[-3000:]))
    return r


def trace(module, cfg, events, **kw):
    """Validate recorded events (list of dicts) against a trace specification. -> (accepted, longest matched prefix,
    result). The trace module reads trace.ndjson and must report progress with TLCSet(1, l)/POSTCONDITION printing
    "@@<n>"."""
    text = "".join(json.dumps(e) + "\n" for e in events)
    f = dict(kw.pop("files", {}) or {})
    f["trace.ndjson"] = text
    r = run(module, cfg, files=f, **kw)
    got = r.prints[-1] if r.prints else 0
    return r.ok and got == len(events), got, r


def _head(out):
    o = _noprints(out)
    i = max(o.find("Error:"), 0)
    return o[i:i + 1500] + "\n...\n" + o[-1500:]
