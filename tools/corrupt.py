#!/usr/bin/env python3
"""corrupt.py [N]: record traces of the real core, spoil one thing in each
and confirm that trace validation rejects exactly the spoiled ones."""
import json
import random
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import core
import workloads

N = int(sys.argv[1]) if len(sys.argv) > 1 else 40
BUS = ["adr bit", "sel bit", "store data bit", "read<->write", "late", "dropped event", "doubled event", "swapped events"]


def spoil(evs, how, rng):
    """One corruption at a random place where it is observable; or None."""
    evs = [list(e) for e in evs]
    idx = [k for k, e in enumerate(evs) if e[0] in (0, 1) and 0 < k < len(evs) - 1]
    rng.shuffle(idx)
    for k in idx:
        e = evs[k]
        if how == "adr bit":
            e[rng.choice((1, 2))] ^= 1 << rng.randrange(2, 16)
        elif how == "sel bit":
            e[3] ^= 1 << rng.randrange(4)
        elif how == "store data bit":
            if e[0] != 1:
                continue
            lane = rng.choice([i for i in range(4) if e[3] >> i & 1])
            e[4 + (lane < 2)] ^= 1 << (8 * (lane % 2) + rng.randrange(8))
        elif how == "read<->write":
            e[0] ^= 1
        elif how == "late":
            if evs[k - 1][0] == 2:
                continue
            e[6] += 70
        elif how == "dropped event":
            n = evs[k + 1]
            if n[0] not in (0, 1, 9) or n[:4] == e[:4]:
                continue
            del evs[k]
        elif how == "doubled event":
            evs.insert(k, list(e))
            if e[0] == 0 and e[3] == 15:      # a fetch seen twice may be a jump to itself
                if e[5] % 128 in (0x6F, 0x67, 0x63, 0x73):
                    continue
        elif how == "swapped events":
            n = evs[k + 1]
            if n[0] not in (0, 1) or n[:4] == e[:4]:
                continue
            evs[k], evs[k + 1] = n, e
        return evs
    return None


def main():
    rng = random.Random(7)
    with core.Work() as w:
        exe = w.build("top")
        segs = []
        for n in ("MIX", "C08", "C16", "C13", "C20", "C15"):
            part = list(getattr(workloads, n)(random.Random(n), 0, 1))
            rng.shuffle(part)
            segs += [s.cut(220) for s in part[:8]]
        evs = json.load(open(w.sim(exe, segs, "good")))
        for s in segs:
            s.h["record"] = 5
        bad = 0
        for how in BUS:
            out = []
            while len(out) < N:
                e = spoil(rng.choice(evs), how, rng)
                if e:
                    out.append(e)
            p = w.dir / "c.json"
            json.dump(out, open(p, "w"))
            v = core.validate(w, [(p, len(out))], "SentinelTrace.tla", "SentinelTiming.cfg")
            print(f"{how}: {len(v.bad)} of {len(out)} rejected", flush=True)
            bad += v.ok
        fexe = w.build("formal")
        evs = json.load(open(w.sim(fexe, segs, "rgood")))
        names = {1: "order", 3: "insn", 4: "trap", 5: "intr", 7: "pc_rdata", 9: "pc_wdata", 21: "mem_rmask", 22: "mem_wmask"}
        for f, n in names.items():
            out = []
            while len(out) < N:
                e = [list(x) for x in rng.choice(evs)]
                idx = [k for k, x in enumerate(e) if x[0] == 3]
                if not idx:
                    continue
                e[rng.choice(idx)][f] ^= 1
                out.append(e)
            p = w.dir / "c.json"
            json.dump(out, open(p, "w"))
            v = core.validate(w, [(p, len(out))], "SentinelRvfi.tla", "SentinelRvfi.cfg")
            print(f"rvfi {n}: {len(v.bad)} of {len(out)} rejected", flush=True)
            bad += v.ok
    sys.exit(bad > 0)


main()
