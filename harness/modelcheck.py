"""Model checking of the specification itself: each property, stated in
SentinelProps in terms of its own, over the closed models.

Runs in the background of the check that validates the real core's traces
against the same specification.  It does not depend on /repo; a failure here
means the machinery is broken, never that the core is.
"""
import os
import shutil
import threading

from core import MachineryError, SPEC, STATS, Work

# property: (focus depth, depth in the thorough tier)
FOCUS = {"C01": (2, 2), "C02": (1, 1), "C03": (1, 1), "C04": (1, 1), "C05": (1, 1), "C06": (1, 1),
         "C07": (2, 2), "C08": (2, 2), "C09": (1, 1), "C10": (1, 1), "C11": (1, 1), "C12": (1, 1),
         "C13": (1, 1), "C14": (2, 2), "C15": (3, 3), "C16": (2, 2), "C17": (1, 1), "C18": (1, 1),
         "C20": (2, 2), "C21": (2, 2), "C22": (1, 1), "C24": (2, 2), "C25": (2, 2), "C27": (1, 1)}
MORE = {"C15": ["MCTraps"], "C16": ["MCTraps", "MCResume"], "C25": ["MCTraps"]}


class ModelCheck:
    def __init__(self, ctx):
        self.ctx = ctx
        self.err = self.work = None
        self.res = []
        self.jobs = []
        p = ctx.prop
        if p in FOCUS:
            d = FOCUS[p][1 if ctx.deep else 0]
            self.jobs.append(("MCSentinel", dict(FOCUS=p, DEPTH=str(d), BIG="1" if ctx.deep else "0")))
        self.jobs += [(m, dict(TOUR="")) for m in MORE.get(p, [])]
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        try:
            with Work() as work:
                self.work = work
                for m, env in self.jobs:
                    rc, out = work.tlc(f"{m}.tla", SPEC / f"{m}.cfg", env, workers=4 if not self.ctx.deep else 3,
                                       heap="6g", timeout=800, name=m, big=True)
                    st = STATS.findall(out)
                    if rc or not st:
                        self.err = f"{m} {env}: rc={rc} " + out[-1500:]
                        return
                    self.res.append(dict(module=m, **{k.lower(): v for k, v in env.items() if v}, transitions=int(st[-1][0]),
                                         states=int(st[-1][1])))
        except Exception as e:        # reported by join
            self.err = repr(e)

    def stop(self):
        """Give up (the check has failed anyway)."""
        self.jobs = []
        if self.work:
            for p in list(self.work.procs):
                p.kill()
        self.thread.join(10)

    def join(self):
        self.thread.join()
        if self.err:
            raise MachineryError("model checking: " + self.err)
        c = self.ctx.cov
        for r in self.res:
            c["states"] += r["states"]
            c["transitions"] += r["transitions"]
        if self.res:
            c["model_checked"] = self.res
