"""check.py <property> : decide one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import json
import os
import random
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import core
import tour
import workloads
from blame import blame, word, adr, History
from modelcheck import ModelCheck
from core import Work, MachineryError, BrokenCore, validate, explain, NCPU, VERIF

EVID = VERIF / "evidence"
OUTCOMES = ["retired", "trapped", "interrupted", "reset", "data", "probe", "reported"]
CLASSES = ["-", "alu", "shift", "upper", "branch", "jump", "load", "store",
           "fence", "csr", "mret", "system", "other"]


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.deep = self.tier == "thorough"
        self.budget = 520 if self.deep else 60
        self.violations = []      # (title, replay path)
        self.known = []
        self.notes = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        events_validated=0, samples=[])
        self.assumptions = []
        self.level = "model_checking"
        self.actions = {}

    def rng(self, *salt):
        return random.Random(":".join(map(str, (self.seed, self.prop) + salt)))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def replay_path(self, n):
        d = EVID / "replays"
        d.mkdir(parents=True, exist_ok=True)
        return d / f"{self.prop}-{n}.json"

    def violation(self, title, payload):
        n = len(self.violations) + 1
        if n > 5:
            return
        p = self.replay_path(n)
        payload = dict(property=self.prop, what=title, seed=self.seed, tier=self.tier, **payload)
        p.write_text(json.dumps(payload, indent=1))
        self.violations.append((title, p))

    def count(self, v):
        c = self.cov
        c["states"] += v.distinct
        c["transitions"] += v.states
        c["traces_validated_against_impl"] += v.ok
        c["events_validated"] += v.events
        if v.cov:
            for i, n in enumerate(v.cov):
                if n:
                    k = f"{CLASSES[i // 6]}.{OUTCOMES[i % 6]}"
                    self.actions[k] = self.actions.get(k, 0) + n

    def finish(self):
        c = self.cov
        if self.actions:
            c["spec_actions_taken_in_first_shard"] = dict(sorted(self.actions.items()))
        if self.notes:
            c["notes"] = self.notes[:20]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=c, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        EVID.mkdir(exist_ok=True)
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for k in self.known:
            print(k)
        for t, p in self.violations:
            print(f"# {t}")
            print(f"VIOLATION property={self.prop} replay={p}")
        print(f"{self.prop}: {'VIOLATED' if self.violations else 'held'} on {c['traces_validated_against_impl']} traces, "
              f"{c['events_validated']} transfers, {c['states']} states, {ev['wall_s']} s")
        return 1 if self.violations else 0


def describe(e):
    if e[0] == 3:
        h = lambda n: f"{e[n] << 16 | e[n + 1]:08x}"
        return (f"rvfi order={e[1]} insn={h(2)} trap={e[4]} intr={e[5]} pc={h(6)}->{h(8)} rs1=x{e[10]}:{h(11)} "
                f"rs2=x{e[13]}:{h(14)} rd=x{e[16]}:{h(17)} mem={h(19)} r{e[21]:x} w{e[22]:x} {h(23)} {h(25)}")
    k = {0: "read", 1: "write", 2: "reset", 7: "dropped", 8: "silence", 9: "probe"}[e[0]]
    return f"{k} adr={adr(e):08x} sel={e[3]:x} dat={word(e):08x} gap={e[6]} wait={e[7]} irq={e[9]}{e[10]}"


def story(m):
    from blame import w32
    e = m.event
    if isinstance(m.expect, list) and len(m.expect) == 2:
        exp = f"{w32(m.expect):08x}"
    else:
        exp = str(m.expect)
    lo = max(0, m.l - 12)
    lines = []
    for k in range(lo, m.l):
        h = m.hist[k] if k < len(m.hist) else None
        lines.append(f"{k + 1}: {describe(m.events[k])}" + (f"   spec: {h[0]} {OUTCOMES[h[1]]} pc={w32(h[2]):08x}" if h else "   <== not allowed"))
    return dict(clause=m.clause, expected=exp, observed=describe(e), pc=f"{w32(m.pc):08x}", tail=lines,
                csrs=m.c, registers=[f"{w32(v):08x}" for v in m.x],
                stimulus=m.seg.text() if m.seg is not None else None)


def shards(segs, per=None):
    """Balance segments over shards by number of words."""
    n = NCPU if sum(len(s.words) for s in segs) > 8000 else 2
    bins = [[0, []] for _ in range(max(1, min(n, len(segs))))]
    for s in sorted(segs, key=lambda s: -len(s.words)):
        b = min(bins, key=lambda b: b[0])
        b[0] += len(s.words) + 20
        b[1].append(s)
    return [b[1] for b in bins if b[1]]


def run_round(ctx, work, exe, segs, name, cfg="SentinelTrace.cfg", module="SentinelTrace.tla", mine=None, payload=None, alarm=True):
    """Simulate, validate, attribute.  Returns the Verdicts."""
    parts = shards(segs)
    with ThreadPoolExecutor(NCPU) as ex:
        paths = list(ex.map(lambda t: work.sim(exe, t[1], f"{name}_{t[0]}"), enumerate(parts)))
    traces = [(p, len(s)) for p, s in zip(paths, parts)]
    v = validate(work, traces, module, cfg)
    ctx.count(v)
    by = {str(p): s for p, s in zip(paths, parts)}
    v.by = by
    if v.bad:
        explain(work, v, lambda p, s: by[p][s - 1], module, cfg)
        seen = set()
        for m in v.explained:
            props = blame(m)
            own = mine(m, props, by) if mine else ctx.prop in props
            key = (m.clause, own)
            if own and alarm:
                if key not in seen:
                    st = story(m)
                    ctx.violation(f"{m.clause}: expected {st['expected']}, observed {st['observed']}",
                                  dict(st, blamed=sorted(props), **{"build": "top", **(payload or {})}))
                    seen.add(key)
            elif not own:
                note = f"foreign mismatch {m.clause} blamed on {','.join(sorted(props))}"
                if note not in ctx.notes:
                    ctx.notes.append(note)
    if len(ctx.cov["samples"]) < 3 and v.passed:
        p, s = min(v.passed)
        evs = json.load(open(p))[s - 1]
        ctx.cov["samples"].append([describe(e) for e in evs[:12]])
    for p in paths:
        p.unlink()
    return v


def base_check(ctx, gen, cfg="SentinelTrace.cfg", kind="top", deep_quick=3, mine=None, more=None):
    """Validate one property's workload; in the thorough tier, keep drawing
    rounds until the time is used up."""
    with Work() as work:
        try:
            exe = work.build(kind)
        except BrokenCore as e:
            ctx.violation("the core cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return
        rnd = 0
        while True:
            t = time.time()
            deep = deep_quick if not ctx.deep else 8
            segs = list(gen(ctx.rng(rnd), rnd, deep))
            segs += workloads.contexts(segs, ctx.rng("contexts", rnd), 120000 if ctx.deep else 40000)
            for k in range(3):
                segs += workloads.sweeps(ctx.prop, ctx.rng("sweeps", rnd, k))
            segs += workloads.neighbours(ctx.prop, ctx.rng("neighbours", rnd), 150000 if ctx.deep else 50000)
            if ctx.prop in ("C20", "C24", "C27") and rnd == 0:
                segs += workloads.histories(ctx.rng("long"))
            if more:
                segs += more(ctx, work, rnd)
            run_round(ctx, work, exe, segs, f"r{rnd}", cfg, mine=mine)
            rnd += 1
            took = time.time() - t
            if ctx.violations or not ctx.deep or ctx.left() < took * 1.3:
                break
        ctx.cov["rounds"] = rnd


COMMON = ["the core is observed through a cxxrtl simulation of the RTLIL that Amaranth emits for sentinel.top.Top",
          "a Wishbone slave acknowledges one clock or more after STB rises (the documented two-clock handshake)"]


def c_generic(ctx):
    ctx.assumptions += COMMON
    base_check(ctx, getattr(workloads, ctx.prop))


def c_traps(ctx):
    """Also walks every transition of the trap state machine (MCTraps)."""
    ctx.assumptions += COMMON

    def more(ctx, work, rnd):
        segs = tour.for_property(ctx.prop, work, ctx.rng("tour", rnd))
        ctx.cov["tour_transitions_walked"] = ctx.cov.get("tour_transitions_walked", 0) + sum(s.note for s in segs)
        return segs
    base_check(ctx, getattr(workloads, ctx.prop), more=more)


CHECKS = {p: c_generic for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C24 C25 C27".split()}
CHECKS.update({p: c_traps for p in ("C15", "C16", "C25")})


def main(argv):
    prop = argv[1]
    import extra
    CHECKS.update(extra.CHECKS)
    if prop not in CHECKS:
        print(f"no check for {prop}", file=sys.stderr)
        return 2
    ctx = Ctx(prop)
    mc = ModelCheck(ctx)
    try:
        CHECKS[prop](ctx)
        mc.join()
        return ctx.finish()
    except MachineryError as e:
        mc.stop()
        print(f"machinery failure: {e}", file=sys.stderr)
        return 2
    except Exception:
        mc.stop()
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
