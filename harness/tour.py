"""Transition tour: every transition of the trap state machine that TLC found
(spec/MCTraps), walked on the real core.

TLC writes each transition of the unbounded-history model with the word that
causes it.  Here they are chained into walks; after each transition the trap
CSRs are read out and stored, and the whole run is then validated against the
specification like any other trace.
"""
import json
from collections import deque

from core import MachineryError, SPEC, STATS
from stim import *
from workloads import mk, set_csrs


def edges(work):
    out = work.dir / "tour.jsonl"
    rc, txt = work.tlc("MCTraps.tla", SPEC / "MCTraps.cfg", {"TOUR": str(out)}, workers=1, name="tour", big=True)
    st = STATS.findall(txt)
    if rc or not st:
        raise MachineryError("TLC on MCTraps (tour): " + txt[-2000:])
    ids, g = {}, []
    n = 0

    def num(q):
        if q not in ids:
            ids[q] = len(g)
            g.append(dict(pc=q[0], c=dict(q[1]), e={}))
        return ids[q]
    for ln in open(out):
        e = json.loads(ln)
        key = lambda q: (tuple(q[0]), tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in sorted(q[1].items())))
        s, t = num(key(e["s"])), num(key(e["t"]))
        irq = e["s"][2]
        w = e["w"][0] << 16 | e["w"][1]
        g[s]["e"][irq, e["a"]] = (t, w, e["p"])
        n += 1
    return g, n


def segments(g, rng, nseg=16, readout=lambda rng, k, p: True, wanted=None, calm=False,
             csrs=lambda rng: (MSTATUS, MEPC, MCAUSE, MIE), regs=lambda rng: ()):
    """Walks that take every (wanted) transition at least once."""
    init = None
    for n, st in enumerate(g):
        c = st["c"]
        if st["pc"] == (0, 4096) and not c["mie"] and not c["mpie"] and not c["meie"] and c["mepc"] == (0, 4096) and c["mcause"] == (0, 2):
            init = n
    if init is None:
        raise MachineryError("tour: no initial state")
    enabled = [st["c"]["mie"] and st["c"]["meie"] for st in g]
    E = [st["e"] for st in g]
    todo = [[k for k, e in m.items() if wanted is None or wanted(k, e)] for m in E]
    for v in todo:
        rng.shuffle(v)
    left = sum(map(len, todo))
    share = -(-left // nseg)

    def path(src):
        """shortest way to a state with something left to do"""
        if todo[src]:
            return []
        prev = {src: None}
        q = deque([src])
        while q:
            s = q.popleft()
            if todo[s]:
                res = []
                while prev[s] is not None:
                    p, k = prev[s]
                    res.append(k)
                    s = p
                return res[::-1]
            for t, k in near[s]:
                if t not in prev:
                    prev[t] = (s, k)
                    q.append(t)
        return None
    near = []
    for s, m in enumerate(E):
        first = {}
        for k, e in m.items():
            first.setdefault(e[0], k)
        near.append([(t, k) for t, k in first.items() if t != s])
    res = []
    while left:
        s = mk(rng, calm=calm, irq0=0)
        s.li(5, 0x80).li(6, 0x800).li(7, 0x1000).li(8, 0x200)
        set_csrs(s, [(MSTATUS, 0), (MIE, 0), (MTVEC, 0x200), (MSCRATCH, 0), (MEPC, 0x1000), (MCAUSE, 2)], 4)
        s.i(jalr(0, 7, 0))
        at = init
        level = 0
        did = 0

        def take(k, new):
            nonlocal at, level
            irq, _ = k
            t, w, p = E[at][k]
            if irq != level:
                s.irq_next(irq, 1)
                level = irq
            s.i(w)
            if new and readout(rng, k, p):
                if level and (enabled[t] or rng.random() < .5):
                    s.irq(0, 3)
                    level = 0
                n = 0
                for a in csrs(rng):
                    s.i(csrr(4, a)).show(4)
                    n += 2
                for r in regs(rng):
                    s.show(r)
                    n += 1
                s.i(j_(-4 * n, 0))
            at = t
        while left and did < share:
            ks = path(at)
            if ks is None:
                raise MachineryError("tour: transitions out of reach")
            for k in ks:
                take(k, False)
            # the most promising continuation first
            k = max(todo[at], key=lambda k: len(todo[E[at][k][0]]))
            todo[at].remove(k)
            left -= 1
            did += 1
            take(k, True)
        s.irq(0, 3)
        s.i(NOP).dump()
        s.note = did
        res.append(s)
    return res


def for_property(prop, work, rng):
    g, n = edges(work)
    if prop == "C15":
        return segments(g, rng)
    if prop == "C16":              # what an interrupt does, and what must not be one
        return segments(g, rng, wanted=lambda k, e: e[2] or k[0], csrs=lambda rng: (MSTATUS, MEPC, MCAUSE),
                        readout=lambda rng, k, p: p or rng.random() < .2)
    traps = ("ecall", "ebreak", "illegal", "ldmis", "stmis", "jalmis")
    return segments(g, rng, wanted=lambda k, e: e[2] or k[1] in traps, csrs=lambda rng: rng.sample((MSCRATCH, MTVEC, MIE), 2),
                    regs=lambda rng: rng.sample(range(32), 4))
