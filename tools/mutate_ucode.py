#!/usr/bin/env python3
"""mutate_ucode.py [-j N] [-n N] [-s SEED] OUT: change one field of one word of
the shipped microprogram at a time and ask TLC (MCUcode, the quick slices of
C31) whether the machine still refines the hart.  Changes of fields that are
not used in that word are left out."""
import argparse
import json
import random
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import core
import ucode
from core import SPEC, Work

ORDER = ["C14", "C01", "C16", "C13", "C08", "C07", "C15", "C06", "C18", "C02", "C04", "C03", "C05", "C10", "C09", "C11", "C12", "C17", "C27"]


def mutants(words, rng, n):
    N = ucode.NAMES
    pos = {f: i for i, f in enumerate(N)}
    out = []
    while len(out) < n:
        at = rng.choice([a for a, w in enumerate(words) if any(w[i] for i in range(len(w)) if N[i] != "cond_test")])
        f = rng.choice(N)
        w = words[at]
        g = lambda k: w[pos[k]]
        spec = ucode.FIELDS[pos[f]][1]
        vals = len(spec.split()) if isinstance(spec, str) else 1 << spec
        v = rng.choice([x for x in range(vals) if x != w[pos[f]]])
        dead = (f == "a_src" and not g("latch_a") or f == "b_src" and not g("latch_b")
                or f == "target" and g("jmp_type") == 0 and not (g("csr_op") and g("csr_sel"))
                or f in ("cond_test", "invert_test") and g("jmp_type") == 0
                or f == "reg_r_sel" and not g("reg_read") or f == "reg_w_sel" and not g("reg_write")
                or f == "csr_sel" and not g("csr_op")
                or f == "mem_extend" and not (g("latch_b") and g("b_src") == 4)
                or f in ("write_mem", "insn_fetch") and not g("mem_req"))
        if not dead and (at, f, v) not in out:
            out.append((at, f, v))
    return [(at, f, v, [list(w) if i != at else [v if N[k] == f else x for k, x in enumerate(w)] for i, w in enumerate(words)])
            for at, f, v in out]


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=4)
    a.add_argument("-n", type=int, default=100)
    a.add_argument("-s", type=int, default=1)
    a.add_argument("out")
    a = a.parse_args()
    rng = random.Random(a.s)
    with Work() as work, open(a.out, "a") as log:
        lay = ucode.Layout(work)
        words = [lay.decode(x) for x in lay.shipped]

        def one(t):
            k, (at, f, v, mutant) = t
            rom = work.dir / f"rom{k}.json"
            rom.write_text(json.dumps(mutant))
            what = f"{at:#04x} {f}={v} ({ucode.named(words[at])})"
            for focus in ORDER:
                of = ucode.FOCI[focus]
                rc, out = work.tlc("MCUcode.tla", SPEC / "MCUcode.cfg",
                                   dict(ROM=str(rom), FOCUS=focus, DEPTH="1", BIG="0", SLICE=str(7 % of), OF=str(of), SEED="1"),
                                   name=f"m{k}_{focus}", heap="3g", big=True, timeout=850)
                if core.read_tuples(out, ("BAD",)):
                    return f"caught by {focus}: {what}"
                if rc:
                    return f"ERROR {focus}: {what} {out[-400:]}"
            return f"SURVIVED: {what}"
        with ThreadPoolExecutor(a.j) as ex:
            for r in ex.map(one, enumerate(mutants(words, rng, a.n))):
                print(r, file=log, flush=True)


main()
