"""Checks that are more than one workload against SentinelTrace."""
import json
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import copy

import core
import workloads
from core import (BrokenCore, MachineryError, NCPU, SPEC, VENV_PY, VERIF, Work,
                  repo_env, validate)
from stim import *

COMMON = ["the core is observed through a cxxrtl simulation of the RTLIL that Amaranth emits for sentinel.top.Top",
          "a Wishbone slave acknowledges one clock or more after STB rises (the documented two-clock handshake)"]


def known(prop):
    """{key: text} of the recorded findings of one property."""
    res = {}
    for ln in open(VERIF / "known-findings.txt"):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3)
    return res


def rounds(ctx, body):
    """Run body(round) once, or (thorough tier) until the time is used up."""
    import time
    rnd = 0
    while True:
        t = time.time()
        body(rnd)
        rnd += 1
        took = time.time() - t
        if ctx.violations or not ctx.deep or ctx.left() < took * 1.3:
            break
    ctx.cov["rounds"] = rnd


def mixed(ctx, rnd, plan):
    """Segments from several workloads: [(generator, depth)]."""
    segs = []
    for name, deep in plan:
        segs += list(getattr(workloads, name)(ctx.rng(name, rnd), rnd, deep))
    return segs


# ---- C19 bus handshake -----------------------------------------------------
ZERO_WAIT = {
    "alu-imm": [addi(1, 0, 5)] * 6, "alu-reg": [r_(0, 1, 2, 0, 3, 0x33)] * 6,
    "shift": [i_(3, 1, 1, 2, 0x13)] * 6, "shift-by-0": [i_(0, 1, 1, 2, 0x13)] * 6,
    "lui": [u_(5, 1, 0x37)] * 6, "auipc": [u_(5, 1, 0x17)] * 6,
    "branch-not-taken": [b_(16, 0, 0, 1)] * 6, "branch-taken": [b_(16, 0, 0, 0)] * 6,
    "jal": [j_(16, 1)] * 6, "jalr": [jalr(1, 0, 16)] * 6,
    "lw": [lw(1), 7] * 4, "lb": [i_(1, 0, 0, 1, 3), 7] * 4, "sw": [sw(0)] * 4,
    "sb": [s_(1, 0, 0, 0)] * 4, "fence": [0xF] * 6, "wfi": [WFI] * 6,
    "csrrw": [csrrw(1, MSCRATCH, 2)] * 6, "csrrs": [csrr(1, MSTATUS)] * 6,
    "csr-zero": [csrr(1, 0xF11)] * 6, "csrrwi": [csrrwi(0, MIE, 3)] * 6,
    "ecall": [ECALL] * 6, "illegal": [0xFFFFFFFF] * 6, "mret": [MRET] * 6,
    "misaligned-lw": [lw(1, 1)] * 6, "misaligned-sw": [sw(1, 1)] * 6,
    "misaligned-jal": [j_(2, 1)] * 6, "misaligned-branch": [b_(2, 0, 0, 0)] * 6,
    "illegal-csr": [csrr(1, 0x7C0)] * 6,
}
BUS = ("WishboneTrace.tla", "WishboneTrace.cfg")
CYC = ["reset during a request", "request in the first clock of a reset", "reset, idle",
       "ack while idle", "idle", "waiting", "write acknowledged", "read acknowledged"]


def clocks(evs, upto, n=14):
    return ["%d: rst=%d cyc=%d stb=%d we=%d adr=%08x sel=%x dat_w=%08x ack=%d" % (
        k + 1, e[0], e[1], e[2], e[3], e[4] << 16 | e[5], e[6], e[7] << 16 | e[8], e[9])
        for k, e in list(enumerate(evs))[max(0, upto - n):upto]]


def bus_run(ctx, work, exe, segs, name):
    """Simulate clock by clock, validate; yields (seg, clock, clause, trace)."""
    from check import shards
    for s in segs:
        s.h["record"] = 2
    parts = shards(segs)
    with ThreadPoolExecutor(NCPU) as ex:
        paths = list(ex.map(lambda t: work.sim(exe, t[1], f"{name}_{t[0]}"), enumerate(parts)))
    v = validate(work, [(p, len(q)) for p, q in zip(paths, parts)], *BUS)
    ctx.cov["states"] += v.distinct
    ctx.cov["transitions"] += v.states
    ctx.cov["traces_validated_against_impl"] += v.ok
    ctx.cov["events_validated"] += v.events
    for i, n in enumerate(v.cov):
        ctx.actions[CYC[i]] = ctx.actions.get(CYC[i], 0) + n
    by = {str(p): q for p, q in zip(paths, parts)}
    bad = []
    for path, s, l, clause in v.bad[:40]:
        evs = json.load(open(path))[s - 1]
        bad.append((by[path][s - 1], l + 0, clause, evs))
    if not ctx.cov["samples"]:
        ctx.cov["samples"].append(clocks(json.load(open(paths[0]))[0], 24, 24))
    for p in paths:
        p.unlink()
    return bad


def c19(ctx):
    ctx.assumptions += [COMMON[0]]
    with Work() as work:
        try:
            exe = work.build("top")
        except BrokenCore as e:
            ctx.violation("the core cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return
        # the contract itself, against every slave
        rc, txt = work.tlc("MCWishbone.tla", SPEC / "MCWishbone.cfg")
        m = core.STATS.search(txt)
        if rc or not m:
            raise MachineryError("TLC on MCWishbone: " + txt[-2500:])
        ctx.cov["states"] += int(m.group(2))
        ctx.cov["transitions"] += int(m.group(1))

        def body(rnd):
            d = 3 if ctx.deep else 1
            segs = mixed(ctx, rnd, [("MIX", d), ("C01", d), ("C20", d)])
            segs += workloads.neighbours("C19", ctx.rng("c19 neighbours", rnd), 40000 if ctx.deep else 10000)
            if not ctx.deep:
                rng = ctx.rng("cut", rnd)
                rng.shuffle(segs)
                segs = segs[:230]
            rng = ctx.rng("irq", rnd)
            for k, s in enumerate(segs):
                s.h["ackidle"] = k % 3
                if k % 2 == 0 and not s.irqs:        # the interrupt line moves at any time
                    s.irqs = sorted((t, rng.randrange(2), rng.randrange(1, 5), rng.randrange(2)) for t in range(s.txn) for _ in range(2) if rng.random() < .6)
                if k % 4 == 0:
                    s.h["waitmode"], s.h["waitmax"] = [(0, 3), (1, 9), (2, 40), (0, 1)][k // 4 % 4]
            rng = ctx.rng("long", rnd)
            for k in range(12 if ctx.deep else 4):       # very long waits, short streams
                s = next(iter(mixed(ctx, (rnd, k), [("MIX", 1)]))).cut(130)
                s.h.update(waitmode=3, waitmax=rng.choice([300, 1100]), ackidle=k % 3)
                segs.append(s)
            for seg, l, clause, evs in bus_run(ctx, work, exe, segs, f"r{rnd}"):
                ctx.violation(f"{clause} at clock {l}", dict(clause=clause, tail=clocks(evs, l), stimulus=seg.text()))
        rounds(ctx, body)
        # a slave that acknowledges in the very first clock of a request
        segs = []
        for name, ws in ZERO_WAIT.items():
            s = Seg(wait=(0, 0)).i(*ws)
            s.note = name
            segs.append(s)
        kn = known("C19")
        bad = bus_run(ctx, work, exe, segs, "zero")
        for seg, l, clause, evs in bad:
            key = f"zero-wait:{seg.note}"
            if key in kn and clause == "request not dropped after ack":
                ctx.known.append(f"KNOWN-FINDING: property=C19 {key} {kn[key]}")
            else:
                ctx.violation(f"{clause} at clock {l} (first-clock ACK, {seg.note})",
                              dict(clause=clause, tail=clocks(evs, l), stimulus=seg.text()))


# ---- C21 bus timing and garbage --------------------------------------------
def c21(ctx):
    from check import run_round
    ctx.assumptions += COMMON
    with Work() as work:
        try:
            exe = work.build("top")
        except BrokenCore as e:
            ctx.violation("the core cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return

        def body(rnd):
            rng = ctx.rng("c21", rnd)
            d = 3 if ctx.deep else 1
            # the same number of words from each
            segs, room = [], 60000 if ctx.deep else 12000
            for n in ("MIX", "C24", "C07", "C08", "C16", "C15", "C11", "C12", "C13", "C20", "C05", "C06"):
                part = mixed(ctx, rnd, [(n, d if n == "MIX" else 1)])
                rng.shuffle(part)
                left = room * (4 if n == "MIX" else 1)
                for s in part:
                    if left <= 0:
                        break
                    left -= len(s.words)
                    segs.append(s.cut(3000) if len(s.words) > 3000 else s)
            segs += workloads.neighbours("C21", rng, 60000 if ctx.deep else 20000)
            for s in segs:
                # one wait state, DAT_R keeps its last value, no stray ACK
                s.h.update(waitmode=0, waitmax=1, ackidle=0, record=9)
                # interrupt changes keyed to the start of a transfer would
                # move relative to its ACK
                s.irqs = [r for r in s.irqs if r[1] == 0]
            v = run_round(ctx, work, exe, segs, f"base{rnd}", alarm=False)
            good = {id(v.by[p][k - 1]) for p, k in v.passed}
            ctx.cov["baseline_segments"] = ctx.cov.get("baseline_segments", 0) + len(segs)
            var = []
            for s in segs:
                if id(s) not in good:
                    continue
                for j in range(2):
                    t = copy.copy(s)
                    t.h = dict(s.h, record=1, seed=rng.getrandbits(30) + 1, ackidle=rng.choice([1, 2, 2]))
                    t.h["waitmode"], t.h["waitmax"] = rng.choice([(0, 1), (0, 2), (0, 3), (1, 4), (1, 12), (2, 60), (0, 9), (3, 40), (3, 300), (3, 3000)])
                    var.append(t)
            run_round(ctx, work, exe, var, f"var{rnd}", mine=lambda m, props, by: True)
        rounds(ctx, body)


# ---- C22 timing ------------------------------------------------------------
def c22(ctx):
    from check import run_round
    ctx.assumptions += COMMON
    with Work() as work:
        try:
            exe = work.build("top")
        except BrokenCore as e:
            ctx.violation("the core cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return

        def body(rnd):
            rng = ctx.rng("c22", rnd)
            names = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
                     "C14", "C15", "C16", "C17", "C18", "C20", "C25", "C27"]
            segs = []
            for n in names:
                part = mixed(ctx, rnd, [(n, 1)])
                rng.shuffle(part)
                room = 30000 if ctx.deep else 4500
                for s in part:
                    if room <= 0:
                        break
                    room -= len(s.words)
                    segs.append(s)
            segs += mixed(ctx, rnd, [("MIX", 3 if ctx.deep else 1)])
            segs += swept(rng, 100 if ctx.deep else 25)
            segs += workloads.contexts(segs, rng, 80000 if ctx.deep else 30000)
            segs += workloads.histories(rng, 1 if not ctx.deep else 3)
            segs += workloads.neighbours("C22", rng, 100000 if ctx.deep else 40000)
            for s in segs:
                s.h["maxgap"] = 200
            run_round(ctx, work, exe, segs, f"r{rnd}", cfg="SentinelTiming.cfg",
                      mine=lambda m, props, by: m.clause.endswith(".late") or m.clause == "silence")
        rounds(ctx, body)


# ---- C23 RVFI --------------------------------------------------------------
RVFI = ("SentinelRvfi.cfg", "SentinelRvfi.tla")


def rvfi_rounds(ctx, work, exe, other, what):
    """Validate RVFI traces; a bus mismatch counts if `other` (a build without
    what is under test) does not have it."""
    from check import run_round

    def body(rnd):
        d = 2 if ctx.deep else 1
        segs = mixed(ctx, rnd, [("MIX", d), ("C16", 1), ("C15", 1), ("C20", 1), ("C25", 1)])
        rng = ctx.rng("rvfi", rnd)
        rng.shuffle(segs)
        segs = segs[:700 if ctx.deep else 170]
        segs += mixed(ctx, rnd, [("C01", 1)])[:30]
        segs += swept(rng, 100 if ctx.deep else 50)
        segs += workloads.contexts(segs, rng, 60000 if ctx.deep else 20000)
        segs += workloads.neighbours("C23", rng, 80000 if ctx.deep else 25000)
        if what == "formal":
            segs += workloads.histories(rng, 1 if not ctx.deep else 3)
        for s in segs:
            s.h["record"] = 5
        bus = []

        def mine(m, props, by):
            if m.clause.startswith("rvfi"):
                return True
            bus.append(m)
            return False
        run_round(ctx, work, exe, segs, f"r{rnd}", cfg=RVFI[0], module=RVFI[1], mine=mine, payload=dict(build=what))
        if bus and other:
            cmp_builds(ctx, work, other(), [m for m in bus], what)
    rounds(ctx, body)


def c32(ctx):
    from check import run_round
    ctx.assumptions += ["the wrapper is observed through a cxxrtl simulation of the RTLIL Amaranth emits for sentinel.formal.FormalTop",
                        COMMON[1],
                        "values are held for instructions that change no CSR on their own (not traps or MRET), write data on implemented bits"]
    with Work() as work:
        try:
            exe = work.build("formal")
        except BrokenCore as e:
            ctx.violation("the RVFI wrapper cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return

        def body(rnd):
            d = 4 if ctx.deep else 1
            segs = mixed(ctx, rnd, [("C32", d), ("C15", 1), ("C25", 1)])
            rng = ctx.rng("csr reports", rnd)
            rng.shuffle(segs)
            segs = segs[:600 if ctx.deep else 150]
            segs += mixed(ctx, rnd, [("C32", 1), ("C01", 1)])[:40]
            segs += workloads.contexts(segs, rng, 40000 if ctx.deep else 12000)
            for p in ("C13", "C12", "C32"):
                segs += workloads.neighbours(p, rng, 40000 if ctx.deep else 10000)
            for s in segs:
                s.h["record"] = 5
            run_round(ctx, work, exe, segs, f"r{rnd}", cfg=RVFI[0], module=RVFI[1],
                      mine=lambda m, props, by: m.clause.startswith("rvfi.csr"))
        rounds(ctx, body)


def swept(rng, n):
    """n streams out of the byte sweeps and long runs of all properties."""
    segs = [s for p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C15", "C16", "C18", "C20")
            for s in workloads.sweeps(p, rng)]
    return rng.sample(segs, n)


def cmp_builds(ctx, work, ref, ms, what):
    """Bus mismatches of one build that the reference build does not show."""
    from check import story
    segs = []
    for m in ms[:24]:
        t = copy.copy(m.seg)
        t.h = dict(t.h, record=1)
        segs.append(t)
    p = work.sim(ref, segs, "cmp")
    v = validate(work, [(p, len(segs))])
    okset = {k for _, k in v.passed}
    for k, m in enumerate(ms[:24], 1):
        if k in okset:
            ctx.violation(f"{what} differs from the Python design: {m.clause}", dict(story(m), build=what))
            return


def c23(ctx):
    ctx.assumptions += ["the wrapper is observed through a cxxrtl simulation of the RTLIL Amaranth emits for sentinel.formal.FormalTop",
                        COMMON[1],
                        "CSR read data is held for instructions that change no CSR on their own (not traps or MRET); "
                        "registers an instruction does not read may be reported as any register"]
    with Work() as work:
        try:
            exe = work.build("formal")
        except BrokenCore as e:
            ctx.violation("the RVFI wrapper cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return
        rvfi_rounds(ctx, work, exe, lambda: work.build("top"), "formal")


# ---- C26 generated Verilog -------------------------------------------------
PORTS = {"clk": ("input", 1), "rst": ("input", 1), "irq": ("input", 1),
         "bus__adr": ("output", 30), "bus__dat_w": ("output", 32), "bus__dat_r": ("input", 32),
         "bus__sel": ("output", 4), "bus__cyc": ("output", 1), "bus__stb": ("output", 1),
         "bus__we": ("output", 1), "bus__ack": ("input", 1)}
RVFI_PORTS = {"valid": 1, "order": 64, "insn": 32, "trap": 1, "halt": 1, "intr": 1, "mode": 2, "ixl": 2,
              "rs1_addr": 5, "rs2_addr": 5, "rs1_rdata": 32, "rs2_rdata": 32, "rd_addr": 5, "rd_wdata": 32,
              "pc_rdata": 32, "pc_wdata": 32, "mem_addr": 32, "mem_rmask": 4, "mem_wmask": 4,
              "mem_rdata": 32, "mem_wdata": 32}
RVFI_CSRS = ["mscratch", "mcause", "mip", "mie", "mstatus", "mtvec", "mepc", "misa", "mvendorid", "marchid",
             "mimpid", "mhartid", "mconfigptr", "mstatush", "mcountinhibit", "mtval", "mcycle", "minstret",
             "mhpmcounter3", "mhpmevent3"]


def want_ports(rvfi):
    w = dict(PORTS)
    if rvfi:
        w.update({f"rvfi__{n}": ("output", k) for n, k in RVFI_PORTS.items()})
        for c in RVFI_CSRS:
            k = 64 if c in ("mcycle", "minstret", "mhpmcounter3") else 32
            w.update({f"rvfi__csr__{c}__{f}": ("output", k) for f in ("rmask", "wmask", "rdata", "wdata")})
    return w


def c26(ctx):
    from check import run_round
    ctx.assumptions += ["the Verilog is read by Amaranth's bundled Yosys and simulated with cxxrtl", COMMON[1]]
    rng = ctx.rng("c26")
    with Work() as work:
        try:
            names = ["sentinel", "top", rng.choice(["my_cpu", "A", "Sentinel_0", "x9"])]
            texts = {}
            for n in names:
                for f in (False, True) if n != "top" else (False,):
                    fn = f"p_{n}_{int(f)}.v"
                    a = ["-o", str(work.dir / fn)] + (["-f"] if f else [])
                    if n != "sentinel":
                        a += ["-n", n]          # "sentinel" is the default name
                    work.generate(a)
                    if not (work.dir / fn).exists():
                        ctx.violation(f"gen {' '.join(a)} writes no file", {})
                        return
                    texts[n, f] = (work.dir / fn).read_text()
                    got = work.ports(fn, n)
                    want = want_ports(f)
                    ctx.cov["traces_validated_against_impl"] += 1
                    if got is None:
                        ctx.violation(f"the generated file has no module {n}", dict(args=a))
                        return
                    if got != want:
                        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
                        ctx.violation(f"module {n} has the wrong ports", dict(args=a, ports_got_and_expected=diff))
                        return
            out = work.generate(["-o", "-", "-n", names[2]])
            if _strip(out) != _strip(texts[names[2], False]):
                ctx.violation("writing to standard output gives different Verilog than writing to a file", {})
            out = work.generate([])
            (work.dir / "noargs.v").write_text(out)
            if work.ports("noargs.v", "top") != want_ports(False):
                ctx.violation("the generator without arguments does not write the CPU as module top", {})
            exe = work.build("top", verilog=names[2], tag="v")
        except BrokenCore as e:
            ctx.violation("the generator fails: " + str(e)[-300:], dict(error=str(e)))
            return
        ref = []

        def reference():
            if not ref:
                ref.append(work.build("top", tag="r"))
            return ref[0]
        budget = ctx.budget
        if ctx.deep:
            ctx.budget = budget * .6

        def body(rnd):
            d = 2 if ctx.deep else 1
            segs = mixed(ctx, rnd, [("MIX", d), ("C16", 1), ("C01", 1), ("C20", 1), ("C13", 1), ("C11", 1)])
            rng = ctx.rng("c26", rnd)
            rng.shuffle(segs)
            segs = segs[:700 if ctx.deep else 180]
            segs += workloads.neighbours("C26", rng, 60000 if ctx.deep else 20000)
            ms = []
            run_round(ctx, work, exe, segs, f"v{rnd}", mine=lambda m, p, by: ms.append(m) and False)
            if ms:
                cmp_builds(ctx, work, reference(), ms, "the generated Verilog")
        rounds(ctx, body)
        ctx.budget = budget
        if not ctx.violations:
            try:
                fexe = work.build("formal", verilog=names[0], tag="v")
            except BrokenCore as e:
                ctx.violation("the generator fails: " + str(e)[-300:], dict(error=str(e)))
                return
            fref = []

            def freference():
                if not fref:
                    fref.append(work.build("formal", tag="r"))
                return fref[0]
            verilog_rvfi(ctx, work, fexe, freference)


def verilog_rvfi(ctx, work, exe, reference):
    """The Verilog's RVFI reports against the specification; what the Python
    wrapper gets wrong in the same way is C23's business."""
    from check import run_round, story
    segs = mixed(ctx, 0, [("MIX", 1), ("C15", 1)])[:60]
    segs += workloads.neighbours("C23", ctx.rng("vf neighbours"), 6000)
    for s in segs:
        s.h["record"] = 5
    ms = []
    run_round(ctx, work, exe, segs, "vf", cfg=RVFI[0], module=RVFI[1], mine=lambda m, p, by: ms.append(m) and False)
    if ms:
        t = [m.seg for m in ms[:24]]
        p = work.sim(reference(), t, "cmpf")
        v = validate(work, [(p, len(t))], RVFI[1], RVFI[0])
        ok = {k for _, k in v.passed}
        for k, m in enumerate(ms[:24], 1):
            if k in ok:
                ctx.violation(f"the generated RVFI Verilog differs from the Python design: {m.clause}", story(m))
                return


def _strip(v):
    """Verilog without comments and attributes (they carry source paths)."""
    return re.sub(r"\s+", " ", re.sub(r"\(\*.*?\*\)|/\*.*?\*/|//[^\n]*", "", v, flags=re.S)).strip()

# ---- C28 microcode assembly ------------------------------------------------
WORKER = VERIF / "harness" / "ucode_worker.py"


def enumf(name, members, width, canon=None):
    mem = [dict(n=n, v=v) for n, v in members]
    seen, can = set(), []
    for n, v in members:
        if v not in seen:
            seen.add(v)
            can.append(n)
    return (dict(name=name, kind="enum", width=width, members=mem, canon=can),
            dict(name=name, kind="enum", width=-1, members=mem, origin=-1))


def plainf(name, width):
    return (dict(name=name, kind="plain", width=width, members=[], canon=[]),
            dict(name=name, kind="plain", width=width, members=[], origin=-1))


def boolf(name):
    return (dict(name=name, kind="plain", width=1, members=[], canon=[]),
            dict(name=name, kind="bool", width=-1, members=[], origin=-1))


def small_configs(edits):
    sets = [
        [plainf("foo", 8), enumf("bar", [("a", 0), ("b", 0), ("c", 1)], 1), boolf("baz")],
        [enumf("op", [("add", 0), ("sub", 1), ("shl", 2), ("cmp", 4)], 3), boolf("we"), plainf("imm", 3)],
        [boolf("p"), enumf("sel", [("x", 1), ("y", 0), ("z", 3)], 2), enumf("act", [("hold", 0), ("inc", 1)], 1), boolf("q")],
    ]
    res = []
    for s in sets:
        w = sum(h["width"] for h, _ in s)
        res.append(dict(hw=[h for h, _ in s], decl=[d for _, d in s], width=w + 5, depth=8, real=False, edits=edits))
    return res


def c28(ctx):
    ctx.assumptions += ["values given to a field fit the field",
                        "the third-party assembler m5meta evaluates expressions and enum values as written"]
    with Work() as work:
        out = work.dir / "real.json"
        r = subprocess.run([VENV_PY, str(WORKER), "--real", str(out)], env=repo_env(), capture_output=True, text=True)
        if r.returncode:
            ctx.violation("the microcode cannot be assembled", dict(error=r.stderr[-1500:]))
            return
        real = json.load(open(out))
        rng = ctx.rng("c28")
        confs = small_configs(2) + [dict(real, edits=1)]
        if ctx.deep:
            confs[0]["edits"] = 3
        cf = work.dir / "configs.json"
        json.dump(confs, open(cf, "w"))

        def explore(i):
            one, out = work.dir / f"conf{i}.json", work.dir / f"cases{i}.ndjson"
            json.dump([confs[i]], open(one, "w"))
            rc, txt = work.tlc("UcodeLayout.tla", SPEC / "UcodeLayout.cfg",
                               dict(CONFIGS=str(one), CASES=str(out)), heap="4g",
                               name=f"ul{i}", big=True)
            m = core.STATS.search(txt)
            if rc or not m:
                raise MachineryError("TLC on UcodeLayout: " + txt[-2500:])
            return m, [dict(json.loads(ln), cfg=i + 1) for ln in open(out)]
        cases = []
        with ThreadPoolExecutor(len(confs)) as ex:
            for m, cs in ex.map(explore, range(len(confs))):
                cases += cs
                ctx.cov["states"] += int(m.group(2))
                ctx.cov["transitions"] += int(m.group(1))
        ctx.cov["cases_generated_by_tlc"] = len(cases)
        nreal = len(confs)
        pick = []
        two = [c for c in cases if c["edits"] >= 2]
        cap = 25000 if ctx.deep else 1500
        by = {}
        for c in two:
            by.setdefault((c["last"], c["accept"]), []).append(c)
        for g in by.values():
            rng.shuffle(g)
        # round robin over (kind of edit, verdict)
        k = 0
        while len(pick) < min(cap, len(two)):
            for g in by.values():
                if k < len(g) and len(pick) < cap:
                    pick.append(g[k])
            k += 1
        for c in cases:
            if c["edits"] < 2:
                pick.append(c)
                if c["cfg"] == nreal and c["accept"] and not c["missing"] and c["last"] not in ("to plain", "to enum"):
                    if ctx.deep or rng.random() < .04 or c["edits"] == 0:
                        pick.append(dict(c, how="whole"))
                if c["cfg"] == nreal and c["accept"] and (c["missing"] or c["edits"] == 0):
                    pick.append(dict(c, how="cpu"))
        rng.shuffle(pick)
        pick.sort(key=lambda c: c.get("how", "") == "")    # slow ones first
        parts = [pick[i::NCPU] for i in range(NCPU)]

        def go(i):
            a, b = work.dir / f"c{i}", work.dir / f"o{i}"
            a.write_text("".join(json.dumps(c) + "\n" for c in parts[i]))
            r = subprocess.run([VENV_PY, str(WORKER), str(cf), str(a), str(b), str(ctx.seed)],
                               env=repo_env(), capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("microcode worker: " + r.stderr[-2000:])
            return [json.loads(ln) for ln in open(b)]
        kinds = {}
        seen = set()
        with ThreadPoolExecutor(NCPU) as ex:
            for part, res in zip(parts, ex.map(go, range(NCPU))):
                for c, r in zip(part, res):
                    how = c.get("how", "small")
                    want = c["accept"] and not (how == "cpu" and c["missing"])
                    k = f"{c['last']}: {'accept' if want else 'reject'}"
                    kinds[k] = kinds.get(k, 0) + 1
                    ctx.cov["traces_validated_against_impl"] += 1
                    ctx.cov["events_validated"] += 4 if how == "small" and want else 1
                    bad = None
                    if want and not r["accepted"]:
                        bad = f"a matching declaration is refused: {r['error']}"
                    elif not want and r["accepted"]:
                        bad = "a declaration that does not match is accepted: " + \
                            (c["reason"] or "a hardware field is missing")
                    elif want and r.get("wrong"):
                        bad = r["wrong"]
                    if bad:
                        key = (c["last"], bad[:40])
                        if key not in seen:
                            seen.add(key)
                            ctx.violation(f"{bad} (edit: {c['last']})", dict(case=c, result=r))
        ctx.cov["replayed_by_edit_and_verdict"] = dict(sorted(kinds.items()))
        ctx.cov["samples"] = [dict(edit=c["last"], accept=c["accept"], reason=c["reason"], decl=c["decl"][:4]) for c in pick[:3]]



# ---- C29 microcode programs ------------------------------------------------
ROM_WORKER = VERIF / "harness" / "rom_worker.py"


def rom_configs(deep):
    none, lab = dict(k="none", n=0, l=""), lambda l: dict(k="label", n=0, l=l)
    num = lambda n: dict(k="num", n=n, l="")
    sym = lambda v: dict(k="sym", v=v)
    no, mac = dict(k="none", v=0), dict(k="macro", v=0)
    base = dict(twidth=4, tdef=0, odef=0, fdef=0, macro=2, spaces=True, prune=False)
    wide = dict(labels=[[], ["p"], ["q"], ["p", "q"]], targets=[none, num(15), lab("p"), lab("q")],
                ops=[no, sym(3), mac], flags=[-1, 0, 1])
    thin = dict(labels=[[], ["p"]], targets=[none, lab("p")], ops=[no, sym(1)], flags=[-1])
    mid = dict(labels=[[], ["p"], ["q"]], targets=[num(9), lab("p"), lab("q")], ops=[mac], flags=[1])
    lean = dict(wide, ops=[no, mac] if not deep else wide["ops"], labels=wide["labels"][:3])
    res = [
        # every statement, two of them
        dict(base, size=5, width=12, toff=0, ooff=4, foff=6, steps=2, origins=[0, 1, 3, 4, 5], **wide),
        dict(base, size=1, width=8, toff=1, ooff=5, foff=0, steps=2, origins=[0, 1], **lean),
        dict(base, size=8, width=9, toff=3, ooff=0, foff=8, tdef=5, odef=1, fdef=1, steps=2, origins=[0, 6, 7, 8], **lean),
        # fewer of them, longer sources
        dict(base, size=4, width=7, toff=0, ooff=4, foff=6, tdef=3, steps=6 if deep else 4, origins=[0, 2, 3], **thin),
        dict(base, size=16, width=20, toff=12, ooff=9, foff=2, odef=3, fdef=1, steps=5 if deep else 3, origins=[7, 14, 15], **mid),
    ]
    res[3]["prune"] = res[4]["prune"] = True
    if deep:
        res.append(dict(dict(base, prune=True), size=6, width=8, toff=2, ooff=0, foff=7, tdef=9, fdef=1, steps=3, origins=[0, 2, 5, 6], **lean))
    return res


def c29(ctx):
    ctx.assumptions += ["values given to a field fit the field", "every label mentioned is defined",
                        "the third-party assembler m5meta parses the source as its grammar says"]
    with Work() as work:
        confs = rom_configs(ctx.deep)
        cf = work.dir / "configs.json"
        json.dump(confs, open(cf, "w"))

        def explore(i):
            one, out = work.dir / f"conf{i}.json", work.dir / f"cases{i}.ndjson"
            json.dump([confs[i]], open(one, "w"))
            rc, txt = work.tlc("UcodeProgram.tla", SPEC / "UcodeProgram.cfg",
                               dict(CONFIGS=str(one), CASES=str(out)), heap="4g", name=f"up{i}", big=True)
            m = core.STATS.search(txt)
            if rc or not m:
                raise MachineryError("TLC on UcodeProgram: " + txt[-2500:])
            return m, [dict(json.loads(ln), cfg=i + 1) for ln in open(out)]
        cases = []
        with ThreadPoolExecutor(len(confs)) as ex:
            for m, cs in ex.map(explore, range(len(confs))):
                cases += cs
                ctx.cov["states"] += int(m.group(2))
                ctx.cov["transitions"] += int(m.group(1))
        ctx.cov["cases_generated_by_tlc"] = len(cases)
        rng = ctx.rng("c29")
        by = {}
        for c in cases:
            kinds = (c["cfg"], len(c["prog"]), c["reason"], rng.randrange(1 if c["reason"] else 3), any(s["s"] == "org" for s in c["prog"]),
                     any(s["t"]["k"] == "label" for s in c["prog"]))
            by.setdefault(kinds, []).append(c)
        for g in by.values():
            rng.shuffle(g)
        cap = 40000 if ctx.deep else 4000
        pick, k = [], 0
        while len(pick) < min(cap, len(cases)):
            for g in by.values():
                if k < len(g) and len(pick) < cap:
                    pick.append(g[k])
            k += 1
        rng.shuffle(pick)
        parts = [pick[i::NCPU] for i in range(NCPU)]

        def go(i):
            a, b = work.dir / f"c{i}", work.dir / f"o{i}"
            a.write_text("".join(json.dumps(c) + "\n" for c in parts[i]))
            r = subprocess.run([VENV_PY, str(ROM_WORKER), str(cf), str(a), str(b), str(ctx.seed)],
                               env=repo_env(), capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("microcode worker: " + r.stderr[-2000:])
            return [json.loads(ln) for ln in open(b)]
        kinds, seen = {}, set()
        after = dict(accept=True, reason="", prog=[], fields=[])
        with ThreadPoolExecutor(NCPU) as ex:
            for part, res in zip(parts, ex.map(go, range(NCPU))):
                for c, r in zip(part + [after], res):
                    key = f"{len(c['prog'])} statements: {c['reason'] or 'accept'}"
                    kinds[key] = kinds.get(key, 0) + 1
                    ctx.cov["traces_validated_against_impl"] += 1
                    ctx.cov["events_validated"] += max(1, len(c["fields"]))
                    bad = None
                    if c["accept"] and not r["accepted"]:
                        bad = f"a correct source is refused: {r['error']}"
                    elif not c["accept"] and r["accepted"]:
                        bad = "accepted: " + c["reason"]
                    elif r.get("wrong"):
                        bad = r["wrong"]
                    if bad and (bad[:30], c["reason"]) not in seen:
                        seen.add((bad[:30], c["reason"]))
                        ctx.violation(bad, dict(case=c, result=r))
        ctx.cov["replayed_by_length_and_verdict"] = dict(sorted(kinds.items()))
        ctx.cov["samples"] = [dict(prog=[s for s in c["prog"]], accept=c["accept"], reason=c["reason"], memory=c["memory"])
                              for c in pick[:3]]


# ---- C33 the example SoC's peripherals ---------------------------------------
SOC_WORKER = VERIF / "harness" / "soc_worker.py"
SOC = ["reset", "memory read", "memory write", "leds read", "leds write", "timer read 0", "timer read 1",
       "interrupt causes read", "byte read", "byte written", "tick lost (finding)"]


def soc_program(rng):
    """A main loop of random arithmetic on random data, interrupted by a
    handler that serves timer and serial port."""
    img = [0] * 0x100
    code = [u_(0x2000, 8, 0x37), u_(0x40000, 9, 0x37), u_(0x80000, 10, 0x37), addi(24, 0, rng.randrange(256)),
            addi(20, 0, 0x200), csrrw(0, MTVEC, 20), u_(1, 20, 0x37), addi(20, 20, -2048), csrrw(0, MIE, 20),
            addi(20, 0, rng.randrange(256)), sw(20, 8, 8), addi(21, 0, 0), addi(25, 0, 0), csrrsi(0, MSTATUS, 8)]
    top = len(code)
    regs = [1, 2, 3, 4, 5, 6, 7, 11, 12, 13]
    code += [addi(r, 0, simm12(rng)) for r in regs]
    for _ in range(60):
        k = rng.randrange(8)
        rd, a, b = rng.choice(regs), rng.choice(regs), rng.choice(regs)
        off = 0x400 + 4 * rng.randrange(64)
        if k < 2:
            code.append(r_(rng.choice([0, 0, 0x20]) if (f3 := rng.randrange(8)) in (0, 5) else 0, b, a, f3, rd, 0x33))
        elif k == 2:
            code.append(i_(simm12(rng), a, rng.choice([0, 2, 3, 4, 6, 7]), rd, 0x13))
        elif k == 3:
            f3 = rng.randrange(3)
            code.append(s_(off + rng.randrange(0, 4, 1 << f3), a, 0, f3))
        elif k < 6:
            f3 = rng.choice([0, 1, 2, 4, 5])
            code.append(i_(off + rng.randrange(0, 4, 1 << (f3 & 3)), 0, f3, rd, 0x03))
        elif k == 6:
            code.append(rng.choice([i_(4, 8, 4, rd, 0x03), s_(0, a, 8, 0), s_(4, a, 8, 2), s_(8, a, 8, 0), i_(0, 9, 4, rd, 0x03)]))
        else:
            code.append(b_(8, a, b, rng.choice([0, 1, 4, 5, 6, 7])))
    code += [NOP, NOP, j_(-4 * (len(code) + 2 - top), 0)]
    assert len(code) <= 0x80
    img[:len(code)] = code
    # the timer is served late: both sources are pending then
    hnd = [lw(20, 4, 10), addi(25, 25, 1), i_(15, 25, 7, 22, 0x13), b_(8, 0, 22, 1), lw(21, 0, 9),
           i_(1, 20, 7, 22, 0x13), b_(12, 0, 22, 0), i_(0, 10, 4, 23, 0x03), s_(0, 23, 8, 0),
           i_(2, 20, 7, 22, 0x13), b_(12, 0, 22, 0), s_(0, 24, 10, 0), addi(24, 24, rng.randrange(1, 255)),
           s_(4, 21, 8, 0), MRET]
    img[0x80:0x80 + len(hnd)] = hnd
    return img


def soc_jobs(ctx, rnd):
    rng = ctx.rng("soc", rnd)
    k = 3 if ctx.deep else 1
    jobs = []
    add = lambda times, **kw: jobs.extend(dict(kw, seed=rng.randrange(1 << 30)) for _ in range(times))
    for words, hot in [(4, 2), (16, 3), (256, 4), (1024, 6)]:
        add(k, kind="mem", n=6000, words=words, hot=hot, gap=rng.choice([0, 1, 3]), resets=4)
    for gap in (0, 1, 4):
        add(k, kind="leds", n=3500, gap=gap, resets=5)
    add(k, kind="leds", n=3600, gap=0, sweep=1)
    add(k, kind="serial", n=16000, div=4, driver=1, loop=1, sweep=1)
    for near in ([-2, -1, 0, 1], [-3, -2, -1, 0], [-1], [0, 1, 2, 5]):
        add(k, kind="timer", n=82000, near=near, resets=0)
    add(k, kind="timer", n=50000, gap=40, resets=1)
    for div in (4, 5, 7, 8, 16, 17):
        add(k, kind="serial", n=9000, div=div, gap=rng.choice([2, div * 4, div * 12]), noise=1, resets=2)
        add(k, kind="serial", n=9000, div=div, driver=rng.choice([.02, .3, 1]), loop=rng.randrange(2))
    add(k, kind="serial", n=32000, driver=.05)          # the rate the example is built for
    for form, loop, div in [("list", 0, 64), ("bytes", 1, 16)] + [("list", 1, 40)] * (k - 1):
        add(1, kind="soc", n=36000, div=div, words=1024, form=form, loop=loop, image=soc_program(rng))
    add(1, kind="soc", n=6000, div=16, words=256, form="text", loop=1,
        image=[addi(1, 0, 1234), u_(0x2000, 8, 0x37), sw(1, 0, 8), u_(0xABCDE, 2, 0x37), sw(2, 512), lw(3, 512), s_(4, 3, 8, 0), j_(0, 0)],
        text="addi x1 x0 1234\nlui x8 0x2000\nsw x1 0(x8)\nlui x2 0xabcde\nsw x2 512(x0)\nlw x3 512(x0)\nsb x3 4(x8)\nloop:\nj loop\n")
    return jobs


def c33(ctx):
    ctx.assumptions += ["the peripherals run in Amaranth's simulator", "a master holds its request until the ACK and drops it for at least one clock",
                        "amaranth_soc is not installed: its Wishbone decoder is a stand-in, its CSR bus and the CSR variants of the peripherals are not run",
                        "software that does not overrun the receiver"]
    with Work() as work:
        # the promises themselves, for every schedule of requests, on small instances
        def explore(name):
            rc, txt = work.tlc("MCSoc.tla", SPEC / f"MCSoc_{name}.cfg", workers=2, name=name, big=True)
            m = core.STATS.search(txt)
            if rc or not m:
                raise MachineryError(f"TLC on MCSoc {name}: " + txt[-2500:])
            return m
        with ThreadPoolExecutor(4) as ex:
            for m in ex.map(explore, ["mem", "timer", "loop", "far", "slow"]):
                ctx.cov["states"] += int(m.group(2))
                ctx.cov["transitions"] += int(m.group(1))

        def body(rnd):
            jobs = soc_jobs(ctx, rnd)
            jobs.sort(key=lambda j: -j["n"] * (12 if j["kind"] == "soc" else 1))
            env = repo_env()
            env["PYTHONPATH"] = f"{core.REPO}/src:{VERIF}/stubsoc"

            def go(i):
                a, b = work.dir / f"j{i}.json", work.dir / f"s{rnd}_{i}.json"
                json.dump([jobs[i]], open(a, "w"))
                r = subprocess.run([VENV_PY, str(SOC_WORKER), str(a), str(b), f"{core.REPO}/examples"],
                                   env=env, cwd=work.dir, capture_output=True, text=True)
                if r.returncode == 3:
                    return r.stderr[-1500:]
                if r.returncode:
                    raise MachineryError("SoC worker: " + r.stderr[-2000:])
                return b
            devs, cpus = [], []
            with ThreadPoolExecutor(NCPU) as ex:
                for i, p in enumerate(ex.map(go, range(len(jobs)))):
                    if isinstance(p, str):
                        ctx.violation("a peripheral cannot be built: " + p[-300:], dict(job=jobs[i], error=p))
                        continue
                    devs += [(i, d) for d in json.load(open(p))]
                    cpus += [(i, c) for c in json.load(open(str(p) + ".cpu"))]
            devs.sort(key=lambda d: -len(d[1]["ev"]))
            parts = [devs[i::NCPU] for i in range(NCPU)]
            paths = []
            for i, q in enumerate(parts):
                p = work.dir / f"dev{rnd}_{i}.json"
                json.dump([d for _, d in q], open(p, "w"))
                paths.append((p, len(q)))
            paths = [x for x in paths if x[1]]
            v = validate(work, paths, "SocTrace.tla", "SocTrace.cfg")
            tally(v)
            for i, n in enumerate(v.cov):
                ctx.actions[SOC[i]] = ctx.actions.get(SOC[i], 0) + n
            by = {str(p): q for (p, _), q in zip(paths, parts)}
            if v.cov[10:] and v.cov[10]:
                key, kn = "timer:tick-in-ack-of-zero-read", known("C33")
                if key not in kn:
                    ctx.violation("timer: a tick in the ACK clock of a read that returned 0 is never reported", dict(key=key))
                elif not any(key in k for k in ctx.known):
                    ctx.known.append(f"KNOWN-FINDING: property=C33 {key} {kn[key]}")
            for path, s, l, clause in v.bad[:10]:
                i, d = by[path][s - 1]
                t = sum(e[0] for e in d["ev"][:l - 1])
                ctx.violation(f"{d['kind']}: {clause} from clock {t} on ({jobs[i]['kind']} run, divisor {d['div']})",
                              dict(clause=clause, job={k: x for k, x in jobs[i].items() if k != "image"}, tail=d["ev"][max(0, l - 12):l]))
            if cpus:
                p = work.dir / f"cpu{rnd}.json"
                json.dump([c for _, c in cpus], open(p, "w"))
                v = validate(work, [(p, len(cpus))])
                tally(v)
                for path, s, l, clause in v.bad:
                    c = cpus[s - 1][1]
                    ctx.violation(f"the CPU in the SoC: {clause} at transfer {l}", dict(clause=clause, tail=c[max(0, l - 12):l]))
            ctx.cov["clocks_simulated"] = ctx.cov.get("clocks_simulated", 0) + sum(j["n"] for j in jobs)
            if not ctx.cov["samples"]:
                ctx.cov["samples"] = [dict(job={k: x for k, x in jobs[i].items() if k != "image"}, events=d["ev"][:12]) for i, d in devs[-3:]]

        def tally(v):
            ctx.cov["states"] += v.distinct
            ctx.cov["transitions"] += v.states
            ctx.cov["traces_validated_against_impl"] += v.ok
            ctx.cov["events_validated"] += v.events
        rounds(ctx, body)


import ucode
CHECKS = {"C19": c19, "C21": c21, "C22": c22, "C23": c23, "C32": c32, "C33": c33, "C26": c26, "C28": c28, "C29": c29, "C30": ucode.c30, "C31": ucode.c31}
