"""Shared runner: build, driver, evidence, violations, known findings."""
import json
import os
import random
import re
import struct
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import drv  # noqa: E402
import tlc  # noqa: E402

VERIF = build.VERIF


class Stop(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3).strip()
        self.work = os.path.join(build.BUILD, "work-" + pid)
        os.makedirs(self.work, exist_ok=True)
        for f in os.listdir(self.work):
            fp = os.path.join(self.work, f)
            if os.path.isfile(fp):
                os.unlink(fp)
        self.d = drv.Driver()
        self.budget = float(os.environ.get("VERIF_BUDGET", "0") or 0) or (2400 if self.thorough else 150)

    def elapsed(self):
        return time.time() - self.t0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC -----------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, **kw):
        r = tlc.check(module, cfg, **kw)
        self.account(module, kw, r)
        return r

    def account(self, module, kw, r):
        self.states += r.states
        self.transitions += r.transitions
        self.cov.setdefault("tlc_runs", []).append(
            {"module": module, "mode": "simulate" if kw.get("simulate") else "exhaustive", "states": r.states,
             "transitions": r.transitions, "behaviours": len(r.prints)})

    def tlc_many(self, jobs):
        """[(module, cfg, options)], run side by side -> results in that order."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda j: tlc.check(j[0], j[1], **j[2]), jobs))
        for (m, _, kw), r in zip(jobs, rs):
            self.account(m, kw, r)
        return rs

    def trace(self, module, cfg, events, **kw):
        ok, n, r = tlc.trace(module, cfg, events, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.cov.setdefault("trace_runs", []).append({"module": module, "events": len(events), "accepted": n})
        return ok, n, r

    # -- outcome -------------------------------------------------------------------------------------------------
    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def fail(self, key, what, replay=None, maxv=5):
        """A divergence between the implementation and the specification. key identifies the failing input/site."""
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        path = os.path.join(VERIF, "replays")
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "what": what, "seed": self.seed, "replay": replay}, f,
                      indent=1, default=str)
        self.violations.append((key, what, path))
        print("violation key=%s: %s" % (key, what), flush=True)
        if len(self.violations) >= maxv:
            raise Stop()

    def finish(self):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict(self.cov, states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"]),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            for _, _, p in self.violations[:1]:
                print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces,
                                                                 time.time() - self.t0))
        return 0

    # -- driver call with crash handling -------------------------------------------------------------------------
    def call(self, rq, timeout=None):
        """Reply, or {"died": why} when the process crashed or hung twice on this request."""
        try:
            return self.d.call(rq, timeout)
        except drv.DriverDied:
            try:
                return self.d.call(rq, timeout)
            except drv.DriverDied as e:
                return {"died": str(e)}
        except RuntimeError as e:
            return {"died": str(e)}


def main(pid, fn):
    try:
        build.build()
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e, file=sys.stderr)
        sys.exit(2)
    ck = Check(pid)
    try:
        fn(ck)
    except Stop:
        pass
    except (KeyError, IndexError, TypeError, ValueError, struct.error) as e:
        # The implementation returned something that the oracle cannot even interpret
        traceback.print_exc()
        try:
            ck.fail("unexpected-reply", "unexpected output: %r at %s" % (e, traceback.format_exc()[-300:]))
        except Stop:
            pass
    except (tlc.TlcError, RuntimeError, Exception) as e:
        if not ck.violations:
            traceback.print_exc()
            ck.d.stop()
            sys.exit(2)
        print("(after a violation) %s" % e, file=sys.stderr)
    finally:
        ck.d.stop()
    sys.exit(ck.finish())
