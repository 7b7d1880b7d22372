"""Client of the conformance driver: one JSON request per line, one JSON reply per line."""
import json
import os
import select
import signal
import subprocess
import tempfile
import time

import build


class DriverDied(Exception):
    """The process ended or hung while executing a request."""


class Driver:
    def __init__(self, env=None, timeout=60, path=None):
        self.path = path
        self.extra = env or {}
        self.timeout = timeout
        self.p = None
        self.calls = 0
        self.settings = {}

    def start(self):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("ODC_") or k.startswith("ODB_") or k == "LD_LIBRARY_PATH":
                e.pop(k)
        e.update(self.extra)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path or build.driver_path()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, bufsize=0)
        self.buf = b""
        if self.settings:   # a new process has the same settings
            self.call(self.settings)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def stderr_tail(self):
        try:
            self.err.seek(0, 2)
            n = self.err.tell()
            self.err.seek(max(0, n - 2000))
            return self.err.read().decode("latin1")
        except (OSError, ValueError):
            return ""

    def call(self, rq, timeout=None):
        if self.p is None:
            self.start()
        self.calls += 1
        if rq.get("op") == "settings":
            self.settings = dict(self.settings, **rq)
        line = (json.dumps(rq) + "\n").encode()
        why = None
        try:
            self.p.stdin.write(line)
            mv = None
        except (BrokenPipeError, OSError):
            why = "driver closed its input"
        deadline = time.time() + (timeout or self.timeout)
        while why is None and b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                why = "no reply within %ss (hang)" % (timeout or self.timeout)
                break
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    rc = self.p.wait()
                    why = "process ended with %s" % (signal.Signals(-rc).name if rc < 0 else rc)
                    break
                self.buf += d
        if why:
            t = self.stderr_tail()
            self.stop()
            raise DriverDied(why + "\n" + t[-800:])
        i = self.buf.index(b"\n")
        out, self.buf = self.buf[:i], self.buf[i + 1:]
        rep = json.loads(out)
        if "fatal" in rep:
            raise RuntimeError("driver: %s for %s" % (rep["fatal"], str(rq)[:300]))
        return rep

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()
