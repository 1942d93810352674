"""One stimulus generator per property.

Every generator takes (rng, rnd, deep) and yields Seg objects.  Round 0 holds
the systematic part; later rounds (thorough tier) only draw new random cases.
deep scales the random part.
"""
from stim import *

ALU_R = [(0, 0), (0x20, 0), (0, 2), (0, 3), (0, 4), (0, 6), (0, 7)]   # f7, f3
ALU_I = [0, 2, 3, 4, 6, 7]
SH_R = [(0, 1), (0, 5), (0x20, 5)]
LOADS = [0, 1, 2, 4, 5]
STORES = [0, 1, 2]
BRANCHES = [0, 1, 4, 5, 6, 7]
TVEC = 0x5A5A5A58          # a trap vector nothing else leads to


def mk(rng, calm=False, raw=False, **kw):
    """A segment that starts by writing every register and CSR: nothing is
    known about them at power-on."""
    if calm or rng.random() < .6:
        kw.setdefault("wait", (0, 1))
    else:
        kw.setdefault("wait", rng.choice([(0, 2), (0, 2), (1, 3), (1, 3), (2, 6), (2, 20), (3, 140)]))
        kw.setdefault("ackidle", rng.choice([0, 0, 1, 2]))
    s = Seg(seed=rng.getrandbits(30) + 1, **kw)
    if not raw:
        init(s, rng)
    return s


def contexts(segs, rng, room=60000):
    """The same streams in unusual circumstances: with very long waits, with
    the interrupt line moving, after a reset in the middle of another one,
    with interrupts enabled from the start."""
    pool = [s for s in segs if not s.rsts and len(s.words) > 20]
    if not pool:
        return
    while room > 0:
        s = rng.choice(pool)
        k = rng.randrange(4)
        t = s.cut(s.txn)
        t.h["seed"] = rng.getrandbits(30) + 1
        if k == 0:
            t = s.cut(min(s.txn, rng.randrange(60, 300)))
            t.h["waitmode"], t.h["waitmax"] = rng.choice([(3, 300), (3, 2000), (0, 5), (0, 17), (0, 33), (0, 70), (1, 300), (3, 9000), (3, 70000)])
            if t.h["waitmax"] > 5000:
                t = t.cut(80)
            t.h["ackidle"] = rng.randrange(3)
        elif k == 1:
            at = rng.randrange(60)
            while at < t.txn:
                for _ in range(rng.randrange(1, 3)):
                    t.irq(rng.randrange(2), rng.randrange(1, 14), txn=at)
                at += rng.randrange(1, 30)
        elif k == 2:
            t = s.cut(rng.randrange(2, min(s.txn, 400)))
            u = rng.choice(pool)
            t.rst(rng.randrange(30), rng.choice([1, 1, 2, 3, 5, 17, 260]), txn=t.txn - rng.randrange(min(t.txn, 30)))
            t.then(Seg().i(*[NOP] * 8)).resume().then(u)
        else:
            pre = Seg()
            pre.li(5, 0x800).i(csrrw(0, MIE, 5)).i(csrrsi(0, MSTATUS, 8))
            t = Seg()
            t.h = dict(s.h, seed=rng.getrandbits(30) + 1, irq0=0)
            t.then(pre).then(s)
        room -= len(t.words)
        yield t


def histories(rng, n=1, size=66500):
    """Very long streams: more instructions than sixteen bits can count."""
    for _ in range(n):
        s = mk(rng, calm=True)
        r = [reg(rng, True) for _ in range(4)]
        k = 0
        while s.txn < size:
            k += 1
            if k % 64 == 0:
                rnd_any(s, rng, traps=False)
            elif k % 1000 == 1:
                s.show(rng.choice(r))
            else:
                a, b, d = rng.choice(r), rng.choice(r), rng.choice(r)
                s.i(addi(d, a, 1) if k % 3 else r_(0, b, a, rng.choice([0, 4, 7]), d, 0x33))
        s.dump().show_csrs()
        yield s


def reg(rng, nz=False):
    return rng.randrange(1 if nz else 0, 32)


def goto(s, a, t=31):
    """Continue at address a (through register t)."""
    s.li(t, a & M32)
    s.i(jalr(0, t, 0))


def set_tvec(s, v=TVEC, t=31):
    s.li(t, v)
    s.i(csrrw(0, MTVEC, t))


def set_csrs(s, vals, t=31):
    for a, v in vals:
        s.li(t, v)
        s.i(csrrw(0, a, t))


def init(s, rng):
    """Known registers and CSRs (interrupts off)."""
    s.regs(rng)
    set_csrs(s, [(MTVEC, pick(rng)), (MEPC, pick(rng)), (MSCRATCH, pick(rng)),
                 (MCAUSE, pick(rng))], t=reg(rng, True))


def rnd_pc(rng):
    return rng.choice([rng.getrandbits(32), 0xFFFFFFF0, 0, 0x7FFFFFF8, 0x1000, 0xFFFC, 0xFFFFFFFC, 0x80000000]) & ~3


# ---- random instructions ---------------------------------------------------
def rnd_alu(s, rng):
    if rng.random() < .5:
        f7, f3 = rng.choice(ALU_R)
        s.i(r_(f7, reg(rng), reg(rng), f3, reg(rng), 0x33))
    else:
        s.i(i_(simm12(rng), reg(rng), rng.choice(ALU_I), reg(rng), 0x13))


def rnd_shift(s, rng):
    f7, f3 = rng.choice(SH_R)
    if rng.random() < .5:
        s.i(r_(f7, reg(rng), reg(rng), f3, reg(rng), 0x33))
    else:
        s.i(r_(f7, rng.randrange(32), reg(rng), f3, reg(rng), 0x13))


def rnd_upper(s, rng):
    s.i(u_(rng.choice([rng.getrandbits(20), 1 << rng.randrange(20), 0, 0xFFFFF, 0x80000]), reg(rng), rng.choice([0x37, 0x17])))


def rnd_branch(s, rng, aligned=False):
    off = rng.getrandbits(13) & (~3 if aligned else ~1)
    s.i(b_(off, reg(rng), reg(rng), rng.choice(BRANCHES)))


def rnd_jump(s, rng, aligned=False):
    if rng.random() < .5:
        s.i(j_(rng.getrandbits(21) & (~3 if aligned else ~1), reg(rng)))
    else:
        r = reg(rng, True)
        if aligned:
            s.li(r, pick(rng) & ~3)
            s.i(jalr(reg(rng), r, rng.randrange(-2048, 2048) & ~2))
        else:
            s.i(jalr(reg(rng), r, simm12(rng)))


def rnd_load(s, rng, aligned=False):
    f3 = rng.choice(LOADS)
    if aligned:
        r = reg(rng, True)
        imm = simm12(rng)
        sz = f3 & 3
        a = pick(rng) >> sz << sz
        s.li(r, (a - imm) & M32)
        s.ld(i_(imm, r, f3, reg(rng), 3), pick(rng))
    else:
        s.ld(i_(simm12(rng), reg(rng), f3, reg(rng), 3), pick(rng))


def rnd_store(s, rng, aligned=False):
    f3 = rng.choice(STORES)
    if aligned:
        r = reg(rng, True)
        imm = simm12(rng)
        a = pick(rng) >> f3 << f3
        s.li(r, (a - imm) & M32)
        s.st(s_(imm, reg(rng), r, f3))
    else:
        s.st(s_(simm12(rng), reg(rng), reg(rng), f3))


def rnd_csr(s, rng, csrs=RW_CSRS):
    f3 = rng.choice([1, 2, 3, 5, 6, 7])
    s.i(csr(f3, reg(rng), rng.choice(csrs), rng.choice([0, reg(rng), reg(rng)])))


SAFE_CSRS = [MSCRATCH, MEPC, MCAUSE, MTVEC, MIP, 0xF11, 0xB00, 0x301]


def rnd_any(s, rng, traps=True, irq=False):
    k = rng.randrange(16)
    if k < 3:
        rnd_alu(s, rng)
    elif k < 5:
        rnd_shift(s, rng)
    elif k == 5:
        rnd_upper(s, rng)
    elif k == 6:
        rnd_branch(s, rng, not traps)
    elif k == 7:
        rnd_jump(s, rng, not traps)
    elif k in (8, 9):
        rnd_load(s, rng, not traps)
    elif k in (10, 11):
        rnd_store(s, rng, not traps)
    elif k in (12, 13):
        rnd_csr(s, rng, RW_CSRS + [0xF11, 0xB00, 0x301] if traps else SAFE_CSRS)
    elif k == 14:
        s.i(rng.choice([WFI, 0x0FF0000F, MRET]) if not traps
            else rng.choice([ECALL, EBREAK, MRET, WFI, 0x0FF0000F]))
    elif traps:
        s.i(rng.choice([rng.getrandbits(32), 0, M32, csrrw(1, 0xC00, 2), csrrw(0, 0xF11, 1)]))
    else:
        s.show(reg(rng))
    if irq and rng.random() < .1:
        s.irq(rng.randrange(2), 1 + rng.randrange(14))


# ---- C02 integer ALU -------------------------------------------------------
def alu_block(s, rng, ra, rb, ops):
    """Operands seen right, then each op into another register, each seen."""
    s.show(ra).show(rb)
    for w in ops:
        s.i(w).show(w >> 7 & 31)


def C02(rng, rnd, deep):
    if rnd == 0:
        for a in EDGE:                                   # edge x edge
            s = mk(rng)
            ra, rb, rd = rng.sample(range(1, 32), 3)
            s.li(ra, a)
            for b in EDGE:
                s.li(rb, b)
                alu_block(s, rng, ra, rb, [r_(f7, rb, ra, f3, rd, 0x33) for f7, f3 in ALU_R])
            yield s
        for f3 in ALU_I:                                 # every immediate
            for lo in range(-2048, 2048, 512):
                s = mk(rng)
                ra, rd = rng.sample(range(1, 32), 2)
                s.li(ra, pick(rng)).show(ra)
                for imm in range(lo, lo + 512):
                    s.i(i_(imm, ra, f3, rd, 0x13)).show(rd)
                yield s
        for rd in range(32):                             # register triples
            s = mk(rng)
            s.regs(rng)
            for ra in range(32):
                for rb in range(32):
                    if (ra + rb + rd) % 2 and deep < 4:
                        continue
                    f7, f3 = rng.choice(ALU_R)
                    s.i(r_(f7, rb, ra, f3, rd, 0x33)).show(rd)
                    if rd:
                        s.li(rd, pick(rng))
            s.dump()
            yield s
    for _ in range(40 * deep):                           # random, dependent
        s = mk(rng)
        s.regs(rng)
        for _ in range(150):
            rnd_alu(s, rng)
            if rng.random() < .4:
                s.show(s.words[-1] >> 7 & 31)
            if rng.random() < .1:
                s.li(reg(rng, True), pick(rng))
        s.dump()
        yield s


# ---- C03 shifts ------------------------------------------------------------
def C03(rng, rnd, deep):
    if rnd == 0:
        for v in EDGE:
            s = mk(rng, calm=True)
            ra, rb, rd = rng.sample(range(1, 32), 3)
            s.li(ra, v).show(ra)
            for n in range(32):
                s.li(rb, (rng.getrandbits(32) & ~31) | n).show(rb)
                for f7, f3 in SH_R:
                    s.i(r_(f7, n, ra, f3, rd, 0x13)).show(rd)
                    s.i(r_(f7, rb, ra, f3, rd, 0x33)).show(rd)
            s.show(ra).show(rb)
            yield s
        for n in range(32):                              # aliasing
            s = mk(rng)
            for f7, f3 in SH_R:
                for v in rng.sample(EDGE, 6):
                    ra, rb = rng.sample(range(1, 32), 2)
                    s.li(ra, v).i(r_(f7, n, ra, f3, ra, 0x13)).show(ra)
                    s.li(ra, v).li(rb, n | rng.getrandbits(32) & ~31).i(r_(f7, rb, ra, f3, ra, 0x33)).show(ra).show(rb)
                    s.li(ra, v).li(rb, n | rng.getrandbits(32) & ~31).i(r_(f7, rb, ra, f3, rb, 0x33)).show(ra).show(rb)
                    s.li(ra, v & ~31 | n).i(r_(f7, ra, ra, f3, rb, 0x33)).show(rb)
                    s.li(ra, v & ~31 | n).i(r_(f7, ra, ra, f3, ra, 0x33)).show(ra)
                    s.i(r_(f7, n, 0, f3, ra, 0x13)).show(ra)
                    s.li(ra, v).i(r_(f7, 0, ra, f3, rb, 0x33)).show(rb)
            yield s
    for _ in range(40 * deep):
        s = mk(rng)
        s.regs(rng)
        for _ in range(120):
            rnd_shift(s, rng)
            if rng.random() < .5:
                s.show(s.words[-1] >> 7 & 31)
            if rng.random() < .3:
                s.li(reg(rng, True), pick(rng))
            if rng.random() < .2:
                rnd_alu(s, rng)
        s.dump()
        yield s


# ---- C04 LUI / AUIPC -------------------------------------------------------
def C04(rng, rnd, deep):
    imms = [0, 1, 0xFFFFF, 0x80000, 0x7FFFF, 0x55555, 0xAAAAA] + [1 << k for k in range(20)] + [0xFFFFF ^ (1 << k) for k in range(20)]
    if rnd == 0:
        for op in (0x37, 0x17):
            for pc in [None, 0xFFFFFF00, 0x7FFFFFF0, 0x12345678, 0xFFFFF000, 0x80000000]:
                s = mk(rng)
                if pc is not None:
                    goto(s, pc)
                for imm in imms:
                    rd = reg(rng, True)
                    s.i(u_(imm, rd, op)).show(rd)
                yield s
            for rd in range(32):
                s = mk(rng)
                goto(s, rnd_pc(rng))
                for _ in range(12):
                    s.i(u_(rng.getrandbits(20), rd, op)).show(rd)
                s.show(0)
                yield s
    for _ in range(60 * deep):
        s = mk(rng)
        s.regs(rng)
        for _ in range(120):
            if rng.random() < .2:
                goto(s, rnd_pc(rng), reg(rng, True))
            rd = reg(rng)
            s.i(u_(rng.getrandbits(20), rd, rng.choice([0x37, 0x17, 0x17]))).show(rd)
            if rng.random() < .2:
                rnd_alu(s, rng)
            if rng.random() < .2:
                rnd_shift(s, rng)
        s.dump()
        yield s


# ---- C05 branches ----------------------------------------------------------
def C05(rng, rnd, deep):
    if rnd == 0:
        for a in EDGE:
            s = mk(rng)
            ra, rb = rng.sample(range(1, 32), 2)
            s.li(ra, a).show(ra)
            for b in EDGE + [(a + 1) & M32, (a - 1) & M32, a ^ 0x80000000, a ^ 1 << rng.randrange(32)]:
                s.li(rb, b).show(rb)
                for f3 in BRANCHES:
                    s.i(b_(rng.getrandbits(13) & ~3, rb, ra, f3))
            s.show(ra).show(rb)
            yield s
        for f3 in BRANCHES:                              # every offset, taken
            for lo in range(0, 8192, 2048):
                s = mk(rng)
                ra, rb = rng.sample(range(1, 32), 2)
                a, b = {0: (5, 5), 1: (5, 6), 4: (-1, 1), 5: (1, -1), 6: (1, M32), 7: (M32, 1)}[f3]
                s.li(ra, a & M32).li(rb, b & M32)
                goto(s, rnd_pc(rng), rng.choice([r for r in range(1, 32) if r not in (ra, rb)]))
                for off in range(lo, lo + 2048, 4):
                    s.i(b_(off, rb, ra, f3))
                    s.i(b_(off ^ 2, ra, ra, 1))          # never taken, any offset
                s.show(ra).show(rb)
                yield s
        s = mk(rng)
        s.regs(rng)
        for ra in range(32):
            for rb in range(32):
                s.i(b_(rng.getrandbits(13) & ~3, rb, ra, rng.choice(BRANCHES)))
        s.dump()
        yield s
    for _ in range(60 * deep):
        s = mk(rng)
        s.regs(rng)
        for _ in range(120):
            a, b = reg(rng, True), reg(rng)
            if rng.random() < .3:
                s.li(a, pick(rng))
            if rng.random() < .2:
                goto(s, rnd_pc(rng), reg(rng, True))
            s.i(b_(rng.getrandbits(13) & ~3, b, a, rng.choice(BRANCHES)))
            if rng.random() < .1:
                rnd_alu(s, rng)
        s.dump()
        yield s


# ---- C06 jumps -------------------------------------------------------------
def C06(rng, rnd, deep):
    if rnd == 0:
        offs = [1 << k for k in range(2, 21)] + [(1 << 21) - (1 << k) for k in range(2, 21)] + [0, 0x1FFFFC, 0x0FFFFC, 0x155554, 0x0AAAA8]
        for _ in range(4):
            s = mk(rng)
            goto(s, rnd_pc(rng))
            for off in offs:
                rd = reg(rng)
                s.i(j_(off, rd)).show(rd)
            yield s
        for lo in range(-2048, 2048, 512):               # every jalr immediate
            s = mk(rng)
            for imm in range(lo, lo + 512):
                rd, ra = reg(rng), reg(rng, True)
                t = rng.getrandbits(32) & ~2
                s.li(ra, (t - imm) & M32)
                s.i(jalr(rd, ra, imm)).show(rd)
            yield s
        for rd in range(32):
            s = mk(rng)
            s.regs(rng)
            for ra in range(32):
                imm = rng.randrange(-2048, 2048) & ~2
                s.li(ra or 1, pick(rng) & ~3)
                if ra == 0:
                    imm &= ~3
                s.i(jalr(rd, ra, imm)).show(rd).i(j_(rng.getrandbits(21) & ~3, rd)).show(rd)
            s.dump()
            yield s
    if deep >= 4 and rnd == 0:                           # every jal offset
        for lo in range(0, 1 << 21, 1 << 14):
            s = mk(rng)
            for off in range(lo, lo + (1 << 14), 4):
                s.i(j_(off, 0))
            yield s
    for _ in range(60 * deep):
        s = mk(rng)
        s.regs(rng)
        for _ in range(100):
            rd = reg(rng)
            if rng.random() < .5:
                s.i(j_(rng.getrandbits(21) & ~3, rd))
            else:
                ra = reg(rng, True)
                imm = simm12(rng)
                s.li(ra, (rng.choice([rnd_pc(rng), pick(rng) & ~2]) - imm) & M32)
                s.i(jalr(rd, ra, imm))
            if rng.random() < .7:
                s.show(rd)
        s.dump()
        yield s


# ---- C07 loads -------------------------------------------------------------
def C07(rng, rnd, deep):
    if rnd == 0:
        for f3 in LOADS:
            sz = f3 & 3
            for off in range(0, 4, 1 << sz):             # every byte/half on every lane
                s = mk(rng)
                ra, rd = rng.sample(range(1, 32), 2)
                base = pick(rng) & ~3
                s.li(ra, base + off)
                vals = range(256) if sz == 0 else [v & 0xFFFF for v in EDGE] + [rng.getrandbits(16) for _ in range(60)]
                if sz == 2:
                    vals = EDGE
                for v in vals:
                    junk = rng.getrandbits(32)
                    if sz == 0:
                        d = junk & ~(0xFF << 8 * off) | v << 8 * off
                    elif sz == 1:
                        d = junk & ~(0xFFFF << 8 * off) | v << 8 * off
                    else:
                        d = v
                    s.ld(i_(0, ra, f3, rd, 3), d & M32).show(rd)
                s.show(ra)
                yield s
            for lo in range(-2048, 2048, 512):           # every immediate
                s = mk(rng)
                ra, rd = rng.sample(range(1, 32), 2)
                for b in range(2):
                    s.li(ra, pick(rng) & ~3 | b)
                    for imm in range(lo, lo + 512):
                        if (b + imm) & ((1 << sz) - 1) == 0 and (imm & 3 or rng.random() < .5):
                            s.ld(i_(imm, ra, f3, rd, 3), pick(rng)).show(rd)
                yield s
            s = mk(rng)
            s.regs(rng)
            for rd in range(32):                         # registers
                for ra in range(32):
                    if rng.random() < .5 or deep >= 4:
                        if ra:
                            s.li(ra, pick(rng) >> sz << sz)
                        s.ld(i_(rng.randrange(-2048, 2048) >> sz << sz, ra, f3, rd, 3), pick(rng)).show(rd)
            s.dump()
            yield s
    for _ in range(40 * deep):
        s = mk(rng)
        s.regs(rng)
        for _ in range(100):
            rnd_load(s, rng, True)
            s.show(s.words[-2] >> 7 & 31)
            if rng.random() < .2:
                rnd_alu(s, rng)
            if rng.random() < .1:
                rnd_store(s, rng, True)
        s.dump()
        yield s


# ---- C08 stores ------------------------------------------------------------
def C08(rng, rnd, deep):
    if rnd == 0:
        for f3 in STORES:
            for off in range(0, 4, 1 << f3):
                s = mk(rng)
                ra, rb = rng.sample(range(1, 32), 2)
                s.li(ra, (pick(rng) & ~3) + off)
                for v in EDGE + [rng.getrandbits(32) for _ in range(40)]:
                    s.li(rb, v).st(s_(0, rb, ra, f3))
                s.show(ra)
                yield s
            for lo in range(-2048, 2048, 512):
                s = mk(rng)
                ra, rb = rng.sample(range(1, 32), 2)
                for b in range(4):
                    s.li(ra, pick(rng) & ~3 | b)
                    for imm in range(lo, lo + 512):
                        if (b + imm) & ((1 << f3) - 1) == 0 and (f3 == 2 or rng.random() < .4):
                            if rng.random() < .2:
                                s.li(rb, pick(rng))
                            s.st(s_(imm, rb, ra, f3))
                yield s
            s = mk(rng)
            s.regs(rng)
            for rb in range(32):
                for ra in range(32):
                    if ra:
                        s.li(ra, pick(rng) >> f3 << f3)
                    s.st(s_(rng.randrange(-2048, 2048) >> f3 << f3, rb, ra, f3))
            s.dump()
            yield s
    for _ in range(40 * deep):
        s = mk(rng)
        s.regs(rng)
        for _ in range(120):
            rnd_store(s, rng, True)
            if rng.random() < .3:
                rnd_alu(s, rng)
            if rng.random() < .2:
                rnd_load(s, rng, True)
            if rng.random() < .2:
                s.li(reg(rng, True), pick(rng))
        s.dump()
        yield s


# ---- traps: what a handler sees ---------------------------------------------
def handler(s, t, which=(MEPC, MCAUSE)):
    for a in which:
        s.i(csrr(t, a)).show(t)


# ---- C09 misaligned accesses -----------------------------------------------
def C09(rng, rnd, deep):
    ops = [("l", 1), ("l", 2), ("l", 5), ("s", 1), ("s", 2), ("l", 0), ("l", 4), ("s", 0)]

    def one(s, k, f3, a, imm, ra, rb):
        s.li(ra, (a - imm) & M32)
        if k == "l":
            s.ld(i_(imm, ra, f3, rb, 3), rng.getrandbits(32))
        else:
            s.st(s_(imm, rb, ra, f3))

    def bad(f3, a):
        return a & ((1 << (f3 & 3)) - 1)
    if rnd == 0:
        for k, f3 in ops:
            for immlo in range(4):
                s = mk(rng)
                ra, rb, t = rng.sample(range(1, 32), 3)
                set_tvec(s, rng.getrandbits(32))
                for a in [pick(rng) & ~3 | o for o in range(4) for _ in range(5)]:
                    imm = rng.randrange(-2048, 2048) & ~3 | immlo
                    s.li(rb, pick(rng))
                    s.li(ra, (a - imm) & M32)
                    if bad(f3, a):
                        s.i(i_(imm, ra, f3, rb, 3) if k == "l" else s_(imm, rb, ra, f3))
                        handler(s, t)
                        s.show(rb).show(ra)
                    elif k == "l":
                        s.ld(i_(imm, ra, f3, rb, 3), pick(rng))
                        s.show(rb)
                    else:
                        s.st(s_(imm, rb, ra, f3))
                yield s
    for _ in range(80 * deep):
        s = mk(rng)
        s.regs(rng)
        set_tvec(s, rng.getrandbits(32))
        t = reg(rng, True)
        for _ in range(60):
            k, f3 = rng.choice(ops)
            ra, rb = reg(rng, True), reg(rng)
            imm = simm12(rng)
            a = pick(rng)
            s.li(ra, (a - imm) & M32)
            if bad(f3, a):
                s.i(i_(imm, ra, f3, rb, 3) if k == "l" else s_(imm, rb, ra, f3))
                if rng.random() < .7:
                    handler(s, t)
                s.show(rb)
                if rng.random() < .3:
                    s.i(MRET)
                    goto(s, rnd_pc(rng), t)
            elif k == "l":
                s.ld(i_(imm, ra, f3, rb, 3), pick(rng)).show(rb)
            else:
                s.st(s_(imm, rb, ra, f3))
        s.dump()
        yield s


# ---- C10 misaligned targets ------------------------------------------------
def C10(rng, rnd, deep):
    if rnd == 0:
        for f3 in BRANCHES:
            a, b = {0: (5, 5), 1: (5, 6), 4: (-1, 1), 5: (1, -1), 6: (1, M32), 7: (M32, 1)}[f3]
            s = mk(rng)
            set_tvec(s, rng.getrandbits(32))
            ra, rb, t = rng.sample(range(1, 31), 3)
            s.li(ra, a & M32).li(rb, b & M32)
            for off in [1 << k for k in range(1, 13)] + [rng.getrandbits(13) | 2 for _ in range(40)]:
                off |= 2
                s.i(b_(off, rb, ra, f3))
                handler(s, t)
                s.i(b_(off, rb, ra, f3 ^ 1))             # not taken: no trap
                if rng.random() < .2:
                    goto(s, rnd_pc(rng))
            s.show(ra).show(rb)
            yield s
        for rd in range(32):
            s = mk(rng)
            set_tvec(s, rng.getrandbits(32))
            t = rng.choice([r for r in range(1, 32) if r != rd])
            for k in range(12):
                s.li(rd or 1, pick(rng))
                s.i(j_(rng.getrandbits(21) & ~3 | 2, rd))
                handler(s, t)
                s.show(rd)
                imm = rng.randrange(-2048, 2048)
                a = pick(rng) & ~3 | 2 | k & 1
                s.li(t, (a - imm) & M32).li(rd or 1, pick(rng))
                if rd == 1 and t == 1:
                    continue
                s.i(jalr(rd, t, imm)).show(rd)
                handler(s, t)
                # rd = rs1
                if rd:
                    s.li(rd, (a - imm) & M32).i(jalr(rd, rd, imm)).show(rd)
                    handler(s, t)
                # misaligned by the immediate only, aligned by bit 0 clearing
                s.li(t, (pick(rng) & ~3)).i(jalr(rd, t, rng.choice([1, -3, 5, 2045]))).show(rd)
            yield s
    for _ in range(80 * deep):
        s = mk(rng)
        s.regs(rng)
        set_tvec(s, rng.getrandbits(32))
        t = reg(rng, True)
        for _ in range(60):
            k = rng.randrange(3)
            if k == 0:
                s.i(b_(rng.getrandbits(13), reg(rng), reg(rng), rng.choice(BRANCHES)))
            elif k == 1:
                rd = reg(rng)
                s.i(j_(rng.getrandbits(21), rd)).show(rd)
            else:
                rd, ra = reg(rng), reg(rng, True)
                s.li(ra, pick(rng))
                s.i(jalr(rd, ra, simm12(rng))).show(rd)
            if rng.random() < .5:
                handler(s, t)
            if rng.random() < .1:
                goto(s, rnd_pc(rng), t)
        s.dump()
        yield s


# ---- C11 legality ----------------------------------------------------------
def C11(rng, rnd, deep):
    """Every opcode x funct3 x funct7 (other fields random), every SYSTEM
    word shape, compressed-looking words."""
    def probe(s, w, t):
        s.i(w)
        s.i(csrr(t, MCAUSE)).show(t)
        s.i(csrrwi(0, MCAUSE, 0))

    def seg():
        s = mk(rng)
        s.regs(rng)
        set_tvec(s, rng.getrandbits(32) & ~3 | 0x20000)
        s.i(csrrwi(0, MCAUSE, 0), csrrwi(0, MEPC, 0))
        return s
    if rnd == 0 or deep >= 4:
        combos = [(op, f3, f7) for op in range(128) for f3 in range(8) for f7 in range(128)]
        n = 400
        for lo in range(0, len(combos), n):
            s = seg()
            for op, f3, f7 in combos[lo:lo + n]:
                w = r_(f7, reg(rng), reg(rng), f3, reg(rng), op)
                if rng.random() < .15:
                    probe(s, w, reg(rng, True))
                else:
                    s.i(w)
                    if rng.random() < .02:
                        set_tvec(s, rng.getrandbits(32) & ~3 | 0x20000, reg(rng, True))
            yield s
        for lo in range(0, 4096, 256):                   # SYSTEM, funct3 = 0
            s = seg()
            for f12 in range(lo, lo + 256):
                s.i(i_(f12, 0, 0, 0, 0x73))
                if rng.random() < .3:
                    s.i(i_(f12, reg(rng), 0, reg(rng), 0x73))
            yield s
        for base in (ECALL, EBREAK, MRET, WFI):          # one bit wrong / extra
            s = seg()
            for b in range(32):
                probe(s, base ^ 1 << b, reg(rng, True))
            for r in range(1, 32):
                probe(s, base | r << 7, reg(rng, True))
                probe(s, base | r << 15, reg(rng, True))
            yield s
        s = seg()
        for r in range(32):                              # shift-immediate funct7
            for f7 in [1 << b for b in range(7)] + [0, 0x20, 0x21, 0x60]:
                s.i(r_(f7, r, reg(rng), rng.choice([1, 5]), reg(rng), 0x13))
        yield s
    for _ in range(60 * deep):
        s = seg()
        for _ in range(120):
            k = rng.randrange(4)
            if k == 0:
                w = rng.getrandbits(32)
            elif k == 1:
                w = r_(rng.choice([0, 0x20, 1, 0x40]), reg(rng), reg(rng), rng.randrange(8), reg(rng),
                       rng.choice([0x03, 0x0F, 0x13, 0x17, 0x23, 0x33, 0x37, 0x63, 0x67, 0x6F, 0x73]))
            elif k == 2:
                w = rng.choice([0x33, 0x13, 0x73, 0x63, 0x67, 0x03, 0x23]) | rng.getrandbits(32) & ~0x7F
            else:
                w = rng.choice([ECALL, EBREAK, MRET, WFI, 0x33, 0x13, 0x0F]) ^ 1 << rng.randrange(32)
            if rng.random() < .3:
                probe(s, w, reg(rng, True))
            else:
                s.i(w)
        s.dump()
        yield s


# ---- C12 CSR map -----------------------------------------------------------
def C12(rng, rnd, deep):
    def seg():
        s = mk(rng)
        s.regs([rng][0])
        set_tvec(s, rng.getrandbits(32) & ~3 | 0x20000, 1)
        return s

    def access(s, a, f3, z, rd, t):
        """z: x0 / zero immediate or not"""
        r = 0 if z else reg(rng, True)
        s.i(csr(f3, rd, a, r))
        if rd and a not in (MTVEC,):
            s.show(rd)
    if rnd == 0 or deep >= 4:
        for lo in range(0, 4096, 32):
            s = seg()
            for a in range(lo, lo + 32):
                for f3 in (1, 2, 3, 5, 6, 7):
                    for z in (0, 1):
                        access(s, a, f3, z, reg(rng) if rng.random() < .8 else 0, 0)
                if rng.random() < .3:
                    set_tvec(s, rng.getrandbits(32) & ~3 | 0x20000, reg(rng, True))
                t = reg(rng, True)
                s.i(csrr(t, MCAUSE)).show(t)
            yield s
    near = RW_CSRS + [0x301, 0x310, 0x343, 0x320, 0x323, 0x33F, 0xB00, 0xB02, 0xB03, 0xB1F, 0xB80, 0xB82, 0xB83, 0xB9F,
                      0xF11, 0xF12, 0xF13, 0xF14, 0xF15]
    for _ in range(60 * deep):
        s = seg()
        for _ in range(100):
            a = rng.choice(near)
            if rng.random() < .4:
                a ^= 1 << rng.randrange(12)
            access(s, a, rng.choice([1, 2, 3, 5, 6, 7]), rng.random() < .4, reg(rng), 0)
            if rng.random() < .2:
                s.show_csrs(reg(rng, True), [rng.choice(RW_CSRS)])
            if rng.random() < .1:
                set_tvec(s, rng.getrandbits(32) & ~3, reg(rng, True))
            if rng.random() < .1:
                s.li(reg(rng, True), pick(rng))
        s.dump()
        yield s


# ---- C13 CSR read-modify-write ---------------------------------------------
def C13(rng, rnd, deep):
    if rnd == 0:
        for a in RW_CSRS:
            for f3 in (1, 2, 3):
                s = mk(rng)
                ra, rd, t = rng.sample(range(1, 32), 3)
                for v in EDGE:
                    s.li(t, pick(rng)).i(csrrw(0, a, t))
                    s.li(ra, v).i(csr(f3, rd, a, ra)).show(rd).i(csrr(t, a)).show(t)
                    if rng.random() < .3:                # rd = rs1
                        s.li(ra, pick(rng)).i(csr(f3, ra, a, ra)).show(ra).i(csrr(t, a)).show(t)
                    if rng.random() < .3:                # rd = x0
                        s.li(ra, pick(rng)).i(csr(f3, 0, a, ra)).i(csrr(t, a)).show(t)
                    if rng.random() < .3:                # rs1 = x0
                        s.i(csr(f3, rd, a, 0)).show(rd).i(csrr(t, a)).show(t)
                yield s
            for f3 in (5, 6, 7):
                s = mk(rng)
                rd, t = rng.sample(range(1, 32), 2)
                for z in range(32):
                    s.li(t, pick(rng)).i(csrrw(0, a, t))
                    s.i(csr(f3, rd, a, z)).show(rd).i(csrr(t, a)).show(t)
                    s.i(csr(f3, 0, a, z)).i(csrr(t, a)).show(t)
                s.show_csrs(t)
                yield s
        for rd in range(32):
            s = mk(rng)
            s.regs(rng)
            set_csrs(s, [(a, pick(rng)) for a in RW_CSRS], 1)
            for ra in range(32):
                a = rng.choice(RW_CSRS)
                s.i(csr(rng.choice([1, 2, 3]), rd, a, ra)).show(rd)
                s.i(csrr(rd or 1, a)).show(rd or 1)
            s.dump().show_csrs()
            yield s
    for _ in range(80 * deep):
        s = mk(rng)
        s.regs(rng)
        set_csrs(s, [(a, pick(rng)) for a in RW_CSRS], reg(rng, True))
        for _ in range(100):
            rnd_csr(s, rng)
            if rng.random() < .4:
                s.show(s.words[-1] >> 7 & 31)
            if rng.random() < .3:
                s.li(reg(rng, True), pick(rng))
            if rng.random() < .1:
                rnd_alu(s, rng)
        s.show_csrs(reg(rng, True)).dump()
        yield s


# ---- C14 ecall / ebreak / fence / wfi --------------------------------------
def C14(rng, rnd, deep):
    def state(s):
        s.regs(rng)
        set_csrs(s, [(MTVEC, rng.getrandbits(32)), (MEPC, pick(rng)), (MSCRATCH, pick(rng)), (MCAUSE, pick(rng)),
                     (MIE, pick(rng)), (MSTATUS, pick(rng))], 1)
    n = 3 if rnd == 0 else 1
    for w in (ECALL, EBREAK, WFI, 0x0FF0000F, 0x8330000F, 0x0100000F, 0x0000000F):
        for _ in range(n * deep):
            s = mk(rng)
            state(s)
            goto(s, rnd_pc(rng), 1)
            s.i(w)
            s.show_csrs(1)
            s.dump()
            yield s
    for _ in range(30 * deep):
        s = mk(rng)
        state(s)
        t = reg(rng, True)
        for _ in range(60):
            k = rng.randrange(6)
            if k == 0:
                s.i(ECALL)
            elif k == 1:
                s.i(EBREAK)
            elif k == 2:
                s.i(WFI)
            elif k == 3:
                s.i(rng.getrandbits(32) & ~0x707F | 0x0F)     # any fence
            elif k == 4:
                s.i(MRET)
            else:
                goto(s, rnd_pc(rng), t)
            if rng.random() < .5:
                handler(s, t)
            if rng.random() < .2:
                s.show_csrs(t)
        s.dump()
        yield s


# ---- C15 trap histories ----------------------------------------------------
def misaligned_load(s, rng):
    r = reg(rng, True)
    s.li(r, pick(rng) | 1)
    s.i(i_(0, r, 2, reg(rng), 3))


BAD = [lambda g: 0, lambda g: 0xFFFFFFFF, lambda g: i_(0xC00, 1, g.choice([1, 2, 5, 7]), 7, 0x73),
       lambda g: i_(g.choice([0xF11, 0xF14]), g.choice([1, 31]), g.choice([1, 3, 6]), 7, 0x73), lambda g: i_(0x302, 0, 0, 1, 0x73),
       lambda g: r_(1, 2, 1, 0, 7, 0x33), lambda g: i_(g.getrandbits(12), 1, 4, 7, 0x73), lambda g: i_(0, 1, 3, 7, 3),
       lambda g: s_(0, 1, 2, 3), lambda g: b_(8, 1, 2, 2), lambda g: r_(0x40, 1, 2, 1, 7, 0x13), lambda g: g.getrandbits(25) << 7 | 0x2F]
TRAP_OPS = {
    "ecall": lambda s, g: s.i(ECALL),
    "ebreak": lambda s, g: s.i(EBREAK),
    "illegal": lambda s, g: s.i(g.choice(BAD)(g)),
    "ldmis": lambda s, g: s.i(g.choice([i_(1, 0, 2, 7, 3), i_(2, 0, 2, 7, 3), i_(3, 0, 1, 7, 3), i_(1, 0, 5, 7, 3)])),
    "stmis": lambda s, g: s.i(g.choice([s_(2, 7, 0, 2), s_(1, 7, 0, 2), s_(3, 7, 0, 1)])),
    "jalmis": lambda s, g: s.i(g.choice([j_(2, 7), jalr(7, 0, 2), jalr(7, 0, 3), b_(6, 0, 0, 0), b_(2, 0, 0, 5)])),
    "mret": lambda s, g: s.i(MRET),
    "mie1": lambda s, g: s.i(csrrsi(0, MSTATUS, 8)),
    "mie0": lambda s, g: s.i(csrrci(0, MSTATUS, 8)),
    "mpie1": lambda s, g: s.li(6, 0x80).i(csrrs(0, MSTATUS, 6)),
    "mpie0": lambda s, g: s.li(6, 0x80).i(csrrc(0, MSTATUS, 6)),
    "int": lambda s, g: s.irq(1, 1).i(NOP).irq(0, 3),
    "nop": lambda s, g: s.i(NOP),
}
TRAP_SEES = (MSTATUS, MEPC, MCAUSE)


def C15(rng, rnd, deep):
    names = list(TRAP_OPS)
    seqs = []
    if rnd == 0:
        depth = 3 if deep < 4 else 4
        import itertools
        core = ["ecall", "illegal", "ldmis", "mret", "mie1", "mie0", "mpie1", "mpie0", "int"]
        seqs = [list(q) for q in itertools.product(core, repeat=depth)]
    for _ in range(150 * deep):
        seqs.append([rng.choice(names) for _ in range(rng.randrange(5, 30))])
    rng.shuffle(seqs)
    k = 0
    while k < len(seqs):
        # several histories per segment, MEIE on, distinct mtvec/mepc
        s = mk(rng)
        set_csrs(s, [(MTVEC, rng.getrandbits(32)), (MEPC, pick(rng)), (MSCRATCH, 0), (MCAUSE, pick(rng))], 5)
        s.li(5, 0x800 if rng.random() < .85 else 0).i(csrrw(0, MIE, 5))
        n = 0
        while k < len(seqs) and n < 60:
            if rng.random() < .5:
                s.li(5, pick(rng)).i(csrrw(0, MTVEC, 5))
            s.li(5, rng.choice([0, 8, 0x80, 0x88])).i(csrrw(0, MSTATUS, 5))
            for o in seqs[k]:
                TRAP_OPS[o](s, rng)
                n += 1
                if rng.random() < .8:
                    for a in TRAP_SEES:
                        s.i(csrr(5, a)).show(5)
            for a in TRAP_SEES:
                s.i(csrr(5, a)).show(5)
            k += 1
        yield s


# ---- C16 interrupts --------------------------------------------------------
def victims(rng):
    """One instruction of every kind, as (name, emit)."""
    def w(x):
        return lambda s: s.i(x)
    v = [("add", w(r_(0, 2, 3, 0, 4, 0x33))), ("sub", w(r_(0x20, 2, 3, 0, 4, 0x33))), ("xori", w(i_(0x123, 3, 4, 4, 0x13))),
         ("slli0", w(r_(0, 0, 3, 1, 4, 0x13))), ("slli3", w(r_(0, 3, 3, 1, 4, 0x13))), ("sra", w(r_(0x20, 2, 3, 5, 4, 0x33))),
         ("lui", w(u_(0x12345, 4, 0x37))), ("auipc", w(u_(0x12345, 4, 0x17))),
         ("beq", w(b_(0x100, 3, 3, 0))), ("bne", w(b_(0x100, 3, 3, 1))), ("blt", w(b_(0x20, 2, 3, 4))),
         ("jal", w(j_(0x1000, 4))), ("jalr", w(jalr(4, 8, 4))),
         ("lw", lambda s: s.ld(i_(4, 8, 2, 4, 3), 0xCAFEF00D)), ("lb", lambda s: s.ld(i_(1, 8, 0, 4, 3), 0x80FF7F01)),
         ("sw", lambda s: s.st(s_(8, 3, 8, 2))), ("sb", lambda s: s.st(s_(3, 3, 8, 0))),
         ("fence", w(0x0FF0000F)), ("wfi", w(WFI)),
         ("csrrw", w(csrrw(4, MSCRATCH, 3))), ("csrrs", w(csrrs(4, MSCRATCH, 3))), ("csrrci", w(csrrci(4, MSCRATCH, 5))),
         ("csrr0", w(csrr(4, 0xF11))), ("csrrmip", w(csrr(4, MIP))), ("mie_on", w(csrrsi(4, MSTATUS, 8))),
         ("mie_off", w(csrrci(4, MSTATUS, 8))), ("mret", w(MRET)), ("ecall", w(ECALL)), ("ebreak", w(EBREAK)),
         ("ill", w(0)), ("illcsr", w(csrrw(4, 0xC00, 3))), ("lwmis", w(i_(1, 8, 2, 4, 3))), ("swmis", w(s_(2, 3, 8, 2))),
         ("jalmis", w(j_(2, 4))), ("brmis", w(b_(2, 3, 3, 0)))]
    return v


def C16(rng, rnd, deep):
    def setup(s, mie=1, meie=1):
        s.li(2, pick(rng)).li(3, pick(rng)).li(4, pick(rng)).li(8, pick(rng) & ~3)
        set_csrs(s, [(MTVEC, rng.getrandbits(32)), (MEPC, pick(rng) & ~3), (MSCRATCH, pick(rng)), (MCAUSE, pick(rng)),
                     (MIE, 0x800 * meie), (MSTATUS, 8 * mie | rng.choice([0, 0x80]))], 5)

    def look(s, full=False):
        for a in (MEPC, MCAUSE, MSTATUS):
            s.i(csrr(5, a)).show(5)
        s.show(4)
    vs = victims(rng)
    if rnd == 0:
        for name, emit in vs:
            for dur in (1, 2, 3, 40):
                s = mk(rng, calm=True) if dur < 3 else mk(rng)
                # rise at every clock of the instruction before the victim
                # and of the victim itself
                for off in range(1, 16):
                    s.irq(0, 1)
                    setup(s)
                    for n in range(rng.randrange(2)):
                        s.i(NOP)
                    s.irq(1, off)
                    s.irq(0, off + dur)
                    emit(s)
                    look(s)
                    if rng.random() < .5:
                        s.i(MRET)
                        s.show(4)
                yield s
            # disabled in all the ways
            s = mk(rng)
            for mie, meie in ((0, 1), (1, 0), (0, 0), (1, 1)):
                s.irq(0, 1)
                setup(s, mie, meie)
                s.irq(1, 1)
                emit(s)
                look(s)
                s.irq(0, 1)
                s.i(NOP)
            yield s
    for _ in range(80 * deep):
        s = mk(rng, irq0=rng.randrange(2))
        init(s, rng)
        for _ in range(80):
            k = rng.randrange(10)
            if k < 4:
                s.irq(rng.randrange(2), 1 + rng.randrange(12))
            if k == 4:
                s.i(csrrsi(0, MSTATUS, 8))
            if k == 5:
                s.li(5, 0x800).i(csrrs(0, MIE, 5))
            if k == 6:
                s.i(MRET)
            if k == 7:
                look(s)
            if k == 8:
                s.irq_next(rng.randrange(2), 1)
            rnd_any(s, rng, traps=rng.random() < .3)
        s.irq(0, 1)
        s.dump()
        s.show_csrs()
        yield s


# ---- C17 mip ---------------------------------------------------------------
def C17(rng, rnd, deep):
    for k in range(40 * deep):
        s = mk(rng, irq0=rng.randrange(2))
        set_csrs(s, [(MTVEC, rng.getrandbits(32)), (MEPC, 0), (MSCRATCH, 0), (MCAUSE, 0),
                     (MIE, rng.choice([0, 0x800, M32])), (MSTATUS, rng.choice([0, 0, 0x80, 8]))], 5)
        for _ in range(60):
            if rng.random() < .5:
                s.irq(rng.randrange(2), 1 + rng.randrange(9))
            rd, ra = reg(rng, True), reg(rng, True)
            f3 = rng.choice([1, 2, 2, 3, 5, 6, 7])
            if rng.random() < .4:
                s.li(ra, pick(rng))
            s.i(csr(f3, rd, MIP, rng.choice([0, ra]))).show(rd)
            if rng.random() < .3:
                s.i(csrr(rd, MIP)).show(rd)
            if rng.random() < .1:
                s.i(csrr(rd, MIE)).show(rd)
            if rng.random() < .1:
                rnd_alu(s, rng)
        yield s


# ---- C18 x0 ----------------------------------------------------------------
def C18(rng, rnd, deep):
    def look(s):
        s.show(0)
        rd = reg(rng, True)
        k = rng.randrange(6)
        if k == 0:
            s.i(r_(0, 0, 0, 0, rd, 0x33)).show(rd)
        elif k == 1:
            s.i(r_(0, 0, 0, 6, rd, 0x33)).show(rd)
        elif k == 2:
            s.i(b_(0x40, 0, 0, 0))
        elif k == 3:
            s.i(addi(rd, 0, simm12(rng))).show(rd)
        elif k == 4:
            s.i(csrrw(0, MSCRATCH, 0)).i(csrr(rd, MSCRATCH)).show(rd)
        else:
            s.i(r_(0x20, 0, rd, 5, rd, 0x33)).show(rd)

    def write0(s, k=None):
        k = rng.randrange(10) if k is None else k
        if k == 0:
            f7, f3 = rng.choice(ALU_R)
            s.i(r_(f7, reg(rng), reg(rng), f3, 0, 0x33))
        elif k == 1:
            s.i(i_(simm12(rng), reg(rng), rng.choice(ALU_I), 0, 0x13))
        elif k == 2:
            f7, f3 = rng.choice(SH_R)
            s.i(r_(f7, reg(rng), reg(rng), f3, 0, rng.choice([0x13, 0x33])))
        elif k == 3:
            s.i(u_(rng.getrandbits(20) | 1, 0, rng.choice([0x37, 0x17])))
        elif k == 4:
            s.i(j_(rng.getrandbits(21) & ~3, 0))
        elif k == 5:
            s.i(jalr(0, reg(rng), simm12(rng)))
        elif k == 6:
            f3 = rng.choice(LOADS)
            r = reg(rng, True)
            s.li(r, pick(rng) >> (f3 & 3) << (f3 & 3))
            s.ld(i_(0, r, f3, 0, 3), rng.getrandbits(32) | 0x81818181)
        elif k == 7:
            a = rng.choice([MSCRATCH, MEPC, MCAUSE, MTVEC, MIP, MSTATUS, MIE])
            s.i(csr(rng.choice([1, 2, 3, 5, 6, 7]), 0, a, reg(rng)))
            s.i(csrr(1, a)).show(1)
        elif k == 8:
            s.i(rng.choice([ECALL, EBREAK, 0, MRET, 0xF, WFI]))
        else:
            s.i(csr(rng.choice([2, 3, 6, 7]), 0, 0xF11, 0))
    if rnd == 0:                                         # reset in every clock of it
        for k in range(10):
            for wait in ((0, 1), (0, 2)):
                s = mk(rng, calm=True, wait=wait)
                for off in range(26):
                    for r in (2, 8):
                        s.li(r, pick(rng) | 0x10101)
                    s.rst(off, rng.choice([1, 1, 2, 3]))
                    write0(s, k)
                    s.i(NOP, NOP, NOP, NOP, NOP, NOP, NOP).resume()
                    s.show(0).i(r_(0, 0, 0, rng.choice((0, 4, 6, 7)), 7, 0x33)).show(7)
                    init(s, rng)
                    look(s)
                yield s
    for _ in range(100 * deep):
        s = mk(rng)
        init(s, rng)
        if rng.random() < .5:
            s.li(5, 0x800).i(csrrw(0, MIE, 5))
            s.i(csrrsi(0, MSTATUS, 8))
        for _ in range(60):
            write0(s)
            look(s)
            if rng.random() < .1:
                s.irq(rng.randrange(2), 1 + rng.randrange(12))
            if rng.random() < .03:
                s.rst(rng.randrange(12), rng.choice([1, 2, 4]))
                write0(s)
                s.i(NOP, NOP).resume()
                s.show(0)
                init(s, rng)
        yield s


# ---- C20 traffic -----------------------------------------------------------
def C20(rng, rnd, deep):
    for _ in range(120 * deep):
        s = mk(rng, irq0=0)
        init(s, rng)
        if rng.random() < .5:
            s.li(5, 0x800).i(csrrw(0, MIE, 5))
        for _ in range(130):
            rnd_any(s, rng, traps=rng.random() < .5, irq=True)
            if rng.random() < .05:
                s.i(csrrsi(0, MSTATUS, 8))
        yield s
    if rnd == 0:
        # every ordered pair of instruction kinds, back to back
        vs = victims(rng)
        for n1, e1 in vs:
            s = mk(rng)
            init(s, rng)
            for n2, e2 in vs:
                s.li(8, pick(rng) & ~3).li(2, pick(rng)).li(3, pick(rng))
                e1(s)
                e2(s)
                if rng.random() < .2:
                    s.i(csrrci(0, MSTATUS, 8))
            yield s


# ---- C24 order and isolation -----------------------------------------------
def C24(rng, rnd, deep):
    kinds = {
        "r": lambda s, d, a, b: s.i(r_(*(lambda t: (t[0], b, a, t[1], d, 0x33))(rng.choice(ALU_R)))),
        "i": lambda s, d, a, b: s.i(i_(simm12(rng), a, rng.choice(ALU_I), d, 0x13)),
        "sh": lambda s, d, a, b: s.i(r_(*(lambda t: (t[0], b, a, t[1], d, 0x33))(rng.choice(SH_R)))),
        "shi": lambda s, d, a, b: s.i(r_(*(lambda t: (t[0], rng.randrange(32), a, t[1], d, 0x13))(rng.choice(SH_R)))),
        "lui": lambda s, d, a, b: s.i(u_(rng.getrandbits(20), d, 0x37)),
        "auipc": lambda s, d, a, b: s.i(u_(rng.getrandbits(20), d, 0x17)),
        "jal": lambda s, d, a, b: s.i(j_(rng.getrandbits(21) & ~3, d)),
        "jalr": lambda s, d, a, b: s.i(i_(-4 & rng.getrandbits(12), a, 0, d, 0x67)),
        "br": lambda s, d, a, b: s.i(b_(rng.getrandbits(13) & ~3, b, a, rng.choice(BRANCHES))),
        "lb": lambda s, d, a, b: s.ld(i_(rng.getrandbits(12), a, rng.choice([0, 4]), d, 3), pick(rng)),
        "lw": lambda s, d, a, b: s.ld(lw(d, 4 * rng.randrange(256)), pick(rng)),
        "sb": lambda s, d, a, b: s.st(s_(rng.getrandbits(12), b, a, 0)),
        "sw": lambda s, d, a, b: s.show(b),
        "csrw": lambda s, d, a, b: s.i(csr(rng.choice([1, 2, 3]), d, rng.choice(SAFE_CSRS), a)),
        "csrwi": lambda s, d, a, b: s.i(csr(rng.choice([5, 6, 7]), d, rng.choice(SAFE_CSRS), rng.randrange(32))),
        "csrst": lambda s, d, a, b: s.i(csr(rng.choice([1, 2, 3]), d, rng.choice([MSTATUS, MIE]), a)),
        "fence": lambda s, d, a, b: s.i(0x0FF0000F),
        "wfi": lambda s, d, a, b: s.i(WFI),
        "mret": lambda s, d, a, b: s.i(MRET),
        "ecall": lambda s, d, a, b: s.i(ECALL),
        "ill": lambda s, d, a, b: s.i(0),
        "lwmis": lambda s, d, a, b: s.i(i_(1, 0, 2, d, 3)),
    }
    if rnd == 0:
        for k1 in kinds:
            s = mk(rng)
            init(s, rng)
            for k2 in kinds:
                for dep in range(4):
                    d1 = reg(rng, True)
                    o = reg(rng, True)
                    a, b = [(d1, o), (o, d1), (d1, d1), (o, o)][dep]
                    d2 = rng.choice([d1, o, reg(rng, True), 0])
                    kinds[k1](s, d1, reg(rng), reg(rng))
                    kinds[k2](s, d2, a, b)
                    s.show(d2)
                    if rng.random() < .2:
                        s.show(d1).show(o)
                    if rng.random() < .2:
                        s.li(reg(rng, True), pick(rng))
                    if rng.random() < .1:
                        s.show_csrs(reg(rng, True), [rng.choice(RW_CSRS)])
            s.dump().show_csrs()
            yield s
    names = list(kinds)
    for _ in range(80 * deep):
        s = mk(rng)
        init(s, rng)
        pool = rng.sample(range(1, 32), 4)
        for _ in range(120):
            kinds[rng.choice(names)](s, rng.choice(pool), rng.choice(pool), rng.choice(pool))
            if rng.random() < .1:
                s.li(rng.choice(pool), pick(rng))
        s.dump().show_csrs()
        yield s


# ---- C25 no side effects of traps ------------------------------------------
def C25(rng, rnd, deep):
    """All state seen before and after every way of trapping."""
    other = [MSCRATCH, MTVEC, MIE]
    vs = [v for v in victims(rng)]
    faults = ("ecall", "ebreak", "ill", "illcsr", "lwmis", "swmis", "jalmis", "brmis")

    def faulty(s):
        k = rng.randrange(8)
        r, d = reg(rng, True), reg(rng)
        if k == 0:
            s.i(rng.choice([ECALL, EBREAK]))
        elif k == 1:
            s.i(r_(rng.randrange(1, 32), reg(rng), r, rng.randrange(8), d, 0x33))      # bad funct7
        elif k == 2:
            s.i(csr(rng.choice([1, 2, 3, 5, 6, 7]), d, rng.choice([0xC00, 0x302, 0x306, 0x7B0, 0x3A0]), r))
        elif k == 3:
            s.i(csr(rng.choice([1, 5]), d, rng.choice([0xF11, 0xF12, 0xF13, 0xF14]), r))
        elif k == 4:
            f3 = rng.choice([1, 2, 5])
            s.i(i_(1 | rng.getrandbits(10) & ~3, 0, f3, d, 3))
        elif k == 5:
            s.i(s_(1 | rng.getrandbits(10) & ~3, r, 0, rng.choice([1, 2])))
        elif k == 6:
            s.i(j_(rng.getrandbits(21) & ~3 | 2, d))
        else:
            s.i(b_(rng.getrandbits(13) & ~3 | 2, r, r, rng.choice([0, 5, 7])))
    for k in range((4 if rnd == 0 else 1) * deep):
        for name, emit in vs:
            s = mk(rng)
            init(s, rng)
            s.li(8, pick(rng) & ~3)
            s.dump()
            if name not in faults:
                s.li(5, 0x800).i(csrrw(0, MIE, 5)).show(5)
                s.irq(1, 5)
                s.i(csrrsi(0, MSTATUS, 8))
                s.irq(1, 1)
            emit(s)
            s.irq(0, 1)
            for a in RW_CSRS[2:]:                        # handler code reads through x1
                s.i(csrr(1, a)).show(1)
            for n in range(2, 32):
                s.show(n)
            yield s
    for _ in range(40 * deep):
        s = mk(rng)
        init(s, rng)
        for _ in range(12):
            faulty(s)
            if rng.random() < .3:
                faulty(s)
            t = reg(rng, True)
            for a in other:
                s.i(csrr(t, a)).show(t)
            for n in rng.sample(range(32), 6):
                s.show(n)
        s.dump()
        yield s


# ---- C27 straight line -----------------------------------------------------
def C27(rng, rnd, deep):
    def straight(s):
        k = rng.randrange(9)
        if k == 0:
            rnd_alu(s, rng)
        elif k == 1:
            rnd_shift(s, rng)
        elif k == 2:
            rnd_upper(s, rng)
        elif k == 3:
            rnd_load(s, rng, True)
        elif k == 4:
            rnd_store(s, rng, True)
        elif k == 5:
            rnd_csr(s, rng, SAFE_CSRS[:1] + [0xF11, 0xB00])
        elif k == 6:
            s.i(rng.choice([0x0FF0000F, WFI]))
        elif k == 7:
            r = reg(rng)
            s.i(b_(rng.getrandbits(13), r, r, rng.choice([1, 4, 6])))
        else:
            s.i(NOP)
    if rnd == 0:
        for bit in range(2, 33):                         # carry into every bit
            s = mk(rng)
            s.regs(rng)
            for e in range(9):
                goto(s, ((1 << bit) - 8) & M32, reg(rng, True))
                for _ in range(5):
                    straight(s)
            yield s
        for kind in range(12):                           # long run over the wrap
            s = mk(rng)
            s.regs(rng)
            goto(s, 0xFFFFFF80, 1)
            for _ in range(60):
                straight(s)
            yield s
    for _ in range(60 * deep):
        s = mk(rng)
        init(s, rng)
        for _ in range(60):
            if rng.random() < .1:
                goto(s, rnd_pc(rng), reg(rng, True))
            straight(s)
        s.dump()
        yield s


# ---- C32 CSR reports of the verification wrapper ---------------------------
ZERO_CSRS = [0xF11, 0xF12, 0xF13, 0xF14, 0xF15, 0x301, 0x310, 0x343, 0x320, 0x323,
             0xB00, 0xB02, 0xB03, 0xB80, 0xB82, 0xB83]


def C32(rng, rnd, deep):
    names = RW_CSRS + ZERO_CSRS
    todo = []
    if rnd == 0:
        todo = [(a, f3, z) for a in names for f3 in (1, 2, 3, 5, 6, 7) for z in (0, 1)]
        rng.shuffle(todo)
    todo += [None] * (1500 * deep)
    k = 0
    while k < len(todo):
        s = mk(rng)
        t = reg(rng, True)
        s.li(t, rng.choice([0, 0, 0x800])).i(csrrw(0, MIE, t))
        for c in todo[k:k + 70]:
            if c:
                a, f3, z = c
                if not z:
                    t = reg(rng, True)
                    s.li(t, pick(rng))
                s.i(csr(f3, reg(rng), a, 0 if z else t if f3 < 4 else rng.randrange(1, 32)))
                continue
            j = rng.random()
            if j < .55:
                # the shadow registers of several CSRs in a row
                for _ in range(rng.randrange(1, 4)):
                    rnd_csr(s, rng, names)
            elif j < .7:
                rnd_csr(s, rng, [rng.choice(ZERO_CSRS)] * 3 + [0xC00, 0xF16, 0x7C0])
            elif j < .8:
                s.li(reg(rng, True), pick(rng))
            else:
                rnd_any(s, rng)
            if rng.random() < .03:
                s.irq(rng.randrange(2), 1 + rng.randrange(14))
        k += 70
        yield s


# ---- C01 reset -------------------------------------------------------------
def C01(rng, rnd, deep):
    def after(s, full=False):
        """what software can see after reset"""
        s.show(0)
        for a in (MCAUSE, MSTATUS) if rng.random() < .7 else (MSTATUS, MCAUSE):
            s.i(csrr(5, a)).show(5)
        if rng.random() < .5:
            s.i(csrr(5, MIE)).show(5)
        s.i(r_(0, 0, 0, 0, 6, 0x33)).show(6)

    vs = victims(rng)
    lens = (1, 2, 3) if rnd == 0 else (1, 2, 3, 4, 7)
    for name, emit in vs:
        for ln in (rng.choice(lens),) if deep < 2 else lens:
            s = mk(rng, calm=rng.random() < .8)
            span = 24 if not name.startswith(("sl", "sr")) else 30
            for off in range(0, span):
                s.li(2, pick(rng)).li(3, pick(rng)).li(4, pick(rng)).li(8, pick(rng) & ~3)
                set_csrs(s, [(MTVEC, rng.getrandbits(32)), (MEPC, pick(rng) & ~3), (MSCRATCH, pick(rng)),
                             (MCAUSE, pick(rng) | 0x80000000)], 5)
                goto(s, rnd_pc(rng), 5)
                irq = rng.random() < .4
                if rng.random() < .5:
                    s.li(5, 0x800).i(csrrw(0, MIE, 5))
                    if irq:
                        s.irq(1, 1 + rng.randrange(4))
                    s.li(5, 0x88).i(csrrs(0, MSTATUS, 5))
                elif irq:
                    s.irq(1, 1)
                s.rst(off, ln)
                emit(s)
                s.i(NOP, NOP, NOP, NOP, NOP, NOP)
                s.resume()
                after(s)
                if irq:
                    s.irq(0, 1)
            yield s
    for _ in range(40 * deep):
        s = mk(rng, irq0=rng.randrange(2))
        for _ in range(12):
            init(s, rng)
            if rng.random() < .6:
                s.li(5, 0x800).i(csrrw(0, MIE, 5))
                s.i(csrrsi(0, MSTATUS, 8))
            s.irq(rng.randrange(2), 1 + rng.randrange(9))
            for _ in range(rng.randrange(6)):
                rnd_any(s, rng, traps=True, irq=True)
            s.rst(rng.randrange(40), rng.choice(lens))
            for _ in range(12):
                rnd_any(s, rng, traps=True)
            s.resume()
            after(s)
        yield s
    # reset again while restarting
    for _ in range(30 * deep):
        s = mk(rng)
        init(s, rng)
        for k in range(10):
            s.rst(rng.randrange(4), rng.choice(lens))
            rnd_any(s, rng)
            s.resume()
        after(s)
        yield s


# ---- mixed (C26, C21) ------------------------------------------------------
def MIX(rng, rnd, deep):
    for _ in range(40 * deep):
        s = mk(rng, irq0=0)
        init(s, rng)
        if rng.random() < .6:
            s.li(5, 0x800).i(csrrw(0, MIE, 5))
        for _ in range(130):
            rnd_any(s, rng, traps=rng.random() < .4, irq=True)
            if rng.random() < .3:
                s.show(reg(rng))
            if rng.random() < .04:
                s.i(csrrsi(0, MSTATUS, 8))
            if rng.random() < .02:
                s.irq(0, 1)
                s.rst(rng.randrange(20), rng.choice([1, 2, 3]))
                for _ in range(4):
                    rnd_any(s, rng)
                s.resume()
                init(s, rng)
        s.irq(0, 1)
        s.dump().show_csrs()
        yield s


# ---- every byte value on every lane ----------------------------------------
def lanes(rng, step=1):
    """Random words among which every byte lane takes every value."""
    v = [rng.getrandbits(32) & ~(0xFF << 8 * k) | b << 8 * k for k in range(4) for b in range(rng.randrange(step), 256, step)]
    rng.shuffle(v)
    return v


def related(rng, a):
    return rng.choice([a, ~a, -a, a + 1, a - 1, a ^ 0x80000000, a ^ 1 << rng.randrange(32), a >> rng.randrange(32),
                       a << rng.randrange(32), rng.getrandbits(32), pick(rng)]) & M32


def sweeps(prop, rng):
    """Streams in which the words that matter for the property (operands,
    addresses, data, targets, CSR values) go through lanes()."""
    R = lambda *no: rng.choice([r for r in range(1, 32) if r not in no])

    def parts(n, step=1, prep=None):
        todo = lanes(rng, step)
        for k in range(0, len(todo), n):
            s = mk(rng)
            if prep:
                prep(s)
            yield s, todo[k:k + n]

    if prop == "C02":
        for s, vs in parts(128):
            for a in vs:
                ra = R()
                rb, rd = R(ra), R(ra)
                s.li(ra, a)
                for f7, f3 in [(0, 3), (0, 2), rng.choice(ALU_R)]:
                    s.i(r_(f7, ra, ra, f3, rd, 0x33)).show(rd)
                s.li(rb, related(rng, a))
                rd = R(ra, rb)
                for f7, f3 in rng.sample(ALU_R, 2):
                    s.i(r_(f7, *rng.choice([(ra, rb), (rb, ra)]), f3, rd, 0x33)).show(rd)
                imm = rng.choice([a & 0xFFF, simm12(rng)])
                s.i(i_(imm, ra, rng.choice(ALU_I), rd, 0x13)).show(rd)
            yield s
    elif prop == "C03":
        for s, vs in parts(128):
            for a in vs:
                ra = R()
                rb, rd = R(ra), R()
                s.li(ra, a)
                f7, f3 = rng.choice(SH_R)
                s.i(r_(f7, rng.randrange(32), ra, f3, rd, 0x13)).show(rd)
                if rd != ra:
                    s.li(rb, a & ~31 | rng.choice([0, 1, 2, rng.randrange(32)]))
                    s.i(r_(f7, rb, ra, f3, rd, 0x33)).show(rd)
            yield s
    elif prop == "C04":
        for s, vs in parts(128):
            for a in vs:
                if rng.random() < .5:
                    goto(s, a & ~3, R())
                rd = R()
                s.i(u_(rng.choice(vs) >> 12, rd, 0x17)).show(rd)
                s.i(u_(a >> 12, rd, 0x37)).show(rd)
            yield s
    elif prop == "C05":
        for s, vs in parts(128):
            for a in vs:
                ra = R()
                rb = R(ra)
                s.li(ra, a)
                for f3 in rng.sample(BRANCHES, 3):
                    s.i(b_(rng.getrandbits(13) & ~3, ra, ra, f3))
                for b in (a, related(rng, a)):
                    s.li(rb, b)
                    for f3 in rng.sample(BRANCHES, 3):
                        s.i(b_(rng.getrandbits(13) & ~3, *rng.choice([(ra, rb), (rb, ra)]), f3))
                if rng.random() < .5:
                    goto(s, a & ~3, rb)
                    s.i(b_(rng.getrandbits(13) & ~3, ra, ra, 0))
            yield s
    elif prop == "C06":
        for s, vs in parts(128):
            for a in vs:
                ra, rd, imm = R(), R(), simm12(rng)
                s.li(ra, ((a & ~2) - imm) & M32).i(jalr(rd, ra, imm)).show(rd)
                s.i(j_(rng.getrandbits(21) & ~3, rd)).show(rd)
                ra = R()
                s.li(ra, a)
                imm = -a & 2
                s.i(jalr(rd, ra, imm)).show(rd)
            yield s
    elif prop in ("C07", "C08"):
        ld = prop == "C07"
        for s, vs in parts(128):
            for a in vs:
                f3 = rng.choice(LOADS if ld else STORES)
                sz = f3 & 3
                ra, imm = R(), simm12(rng)
                rd = R(ra)
                s.li(ra, ((a >> sz << sz) - imm) & M32)
                if ld:
                    s.ld(i_(imm, ra, f3, rd, 3), rng.choice(vs)).show(rd)
                    s.ld(i_(imm, ra, f3, rd, 3), related(rng, a)).show(rd)
                else:
                    s.li(rd, rng.choice([rng.choice(vs), related(rng, a)])).st(s_(imm, rd, ra, f3))
                    s.st(s_(imm, ra, ra, f3))
            yield s
    elif prop in ("C09", "C10"):
        for s, vs in parts(64):
            set_tvec(s, rng.getrandbits(32))
            t = R()
            for a in vs:
                ra, imm = R(t), simm12(rng)
                if prop == "C10":
                    rd = R(t)
                    s.li(ra, ((a | 2) - imm) & M32).i(jalr(rd, ra, imm)).show(rd)
                else:
                    rd, (k, f3) = R(), rng.choice([(3, 1), (3, 2), (3, 5), (0x23, 1), (0x23, 2)])
                    b = a | 1 if f3 & 1 else a & ~3 | rng.randrange(1, 4)
                    s.li(ra, (b - imm) & M32).i(i_(imm, ra, f3, rd, 3) if k == 3 else s_(imm, rd, ra, f3)).show(rd)
                handler(s, t)
                if rng.random() < .3:
                    goto(s, rng.choice(vs) & ~3, t)
            yield s
    elif prop == "C11":
        s = mk(rng)
        set_tvec(s, rng.getrandbits(32) & ~3 | 0x20000)
        for w in [0x8330000F, 0x0100000F, 0x0FF0000F, 0x0000000F, 0x00000013, 0x0330000F, 0xFFF0000F, 0xFFFF8F8F, 0x8000000F] * 3:
            s.i(w).i(csrr(1, MCAUSE)).show(1)
        yield s
    elif prop == "C13":
        for s, vs in parts(100):
            for a in vs:
                ra = R()
                rd, t = R(ra), R(ra)
                c = rng.choice([MSCRATCH, MCAUSE, MTVEC, MEPC, MSCRATCH, MCAUSE, MTVEC, MEPC, MSTATUS, MIE])
                s.li(ra, a).i(csr(1, rd, c, ra)).show(rd).i(csrr(t, c)).show(t)
                s.li(ra, related(rng, a)).i(csr(rng.choice([2, 3]), rd, c, ra)).show(rd).i(csrr(t, c)).show(t)
            yield s
    elif prop == "C14":
        for s, vs in parts(256, prep=lambda s: set_tvec(s, rng.getrandbits(32))):
            t = R()
            for a in vs:
                s.i(a & ~0x707F | 0x0F)
                if rng.random() < .3:
                    goto(s, rng.choice(vs) & ~3, t)
                    s.i(rng.choice([ECALL, EBREAK]))
                    handler(s, t)
            yield s
    elif prop in ("C15", "C16"):
        for s, vs in parts(64, 2):
            t = R(31)
            s.li(t, 0x800).i(csrrw(0, MIE, t))
            for a in vs:
                if rng.random() < .6:
                    set_tvec(s, rng.choice(vs), t)
                goto(s, a & ~3, t)
                if prop == "C15" and rng.random() < .6:
                    s.i(rng.choice([ECALL, EBREAK, 0]))
                else:
                    s.irq(0, 1)
                    s.i(csrrsi(0, MSTATUS, 8))
                    s.irq(1, 1)
                    s.i(NOP)
                    s.irq(0, 1)
                handler(s, t)
                if rng.random() < .5:
                    s.li(t, rng.choice(vs)).i(csrrw(0, MEPC, t))
                s.i(MRET)
            yield s
    elif prop == "C18":
        for s, vs in parts(256):
            for a in vs:
                ra = R()
                s.li(ra, a)
                s.i(rng.choice([addi(0, ra, 0), r_(0, 0, ra, 0, 0, 0x33), csrrw(0, MSCRATCH, ra), r_(0, 1, ra, 1, 0, 0x13)]))
                s.show(0)
            yield s
    elif prop == "C27":
        for s, vs in parts(128):
            for a in vs:
                goto(s, a & ~3, R())
                for _ in range(2):
                    rnd_alu(s, rng)
            yield s
    elif prop in ("C20", "C24"):                         # long runs of one kind
        for name, emit in victims(rng):
            s = mk(rng, calm=True)
            s.li(2, pick(rng)).li(3, pick(rng)).li(8, pick(rng) & ~3)
            for _ in range(70):
                emit(s)
            s.dump()
            yield s


# ---- every instruction after every other, registers related ------------------
def before(s, rng, p):
    """Something that ran just before, writing (if anything) register p."""
    a, b = reg(rng), rng.choice([p, reg(rng)])
    k = rng.randrange(20)
    if k < 2:
        f7, f3 = rng.choice(ALU_R + SH_R)
        s.i(r_(f7, b, a, f3, p, 0x33))
    elif k < 4:
        s.i(i_(simm12(rng), rng.choice([0, a]), rng.choice(ALU_I), p, 0x13))
    elif k == 4:
        f7, f3 = rng.choice(SH_R)
        s.i(r_(f7, rng.randrange(32), a, f3, p, 0x13))
    elif k < 7:
        s.i(u_(rng.getrandbits(20), p, rng.choice([0x37, 0x37, 0x17])))
    elif k == 7:
        s.i(b_(rng.getrandbits(13) & ~3, a, b, rng.choice(BRANCHES)))
    elif k == 8:
        s.i(j_(rng.getrandbits(21) & ~3, p))
    elif k == 9:
        s.li(p, pick(rng) & ~3).i(jalr(rng.choice([p, reg(rng)]), p, simm12(rng) & ~3))
    elif k < 12:
        f3 = rng.choice(LOADS)
        s.ld(i_(rng.randrange(-2048, 2048) >> (f3 & 3) << (f3 & 3), 0, f3, p, 3), pick(rng))
    elif k == 12:
        f3 = rng.choice(STORES)
        s.st(s_(rng.randrange(-2048, 2048) >> f3 << f3, p, 0, f3))
    elif k < 15:
        s.i(csr(rng.choice([1, 2, 3, 5, 6, 7]), p, rng.choice([MSCRATCH, MEPC, MCAUSE, MIP, MIE, 0xF11, 0xB00]), rng.choice([0, a, p])))
    elif k == 15:
        s.i(rng.choice([0x0FF0000F, WFI, MRET, ECALL, EBREAK]))
    elif k == 16:                                        # reserved neighbours of legal words
        op = rng.choice([0x67, 0x63, 0x03, 0x23, 0x0F, 0x13, 0x33, 0x73])
        s.i(rng.getrandbits(32) & ~0x707F | rng.randrange(8) << 12 | op)
    elif k == 17:
        s.i(rng.choice([i_(simm12(rng) | 1, 0, rng.choice([1, 2, 5]), p, 3), s_(simm12(rng) | 1, p, 0, rng.choice([1, 2]))]))
    elif k == 18:
        s.i(rng.choice([b_(rng.getrandbits(13) & ~3 | 2, a, a, 0), j_(rng.getrandbits(21) & ~3 | 2, p), csrrw(p, rng.choice([0xC00, 0x100, 0x3A0]), a)]))
    else:
        s.i(rng.getrandbits(32))
    return a


def own(prop, rng):
    """Emitters of the property's own instructions: (s, rd, rs1, rs2)."""
    def r(fs):
        return lambda s, d, a, b: s.i((lambda f: r_(f[0], b, a, f[1], d, 0x33))(rng.choice(fs)))
    alu = [r(ALU_R), lambda s, d, a, b: s.i(i_(simm12(rng), a, rng.choice(ALU_I), d, 0x13))]
    shift = [r(SH_R), lambda s, d, a, b: s.i((lambda f: r_(f[0], rng.randrange(32), a, f[1], d, 0x13))(rng.choice(SH_R)))]
    upper = [lambda s, d, a, b: s.i(u_(rng.getrandbits(20), d, rng.choice([0x37, 0x17])))]
    branch = [lambda s, d, a, b: s.i(b_(rng.getrandbits(13) & ~3, b, a, rng.choice(BRANCHES)))]
    jump = [lambda s, d, a, b: s.i(j_(rng.getrandbits(21) & ~3, d)), lambda s, d, a, b: s.i(jalr(d, a, simm12(rng)))]
    load = [lambda s, d, a, b: s.ld(i_(rng.choice([simm12(rng), simm12(rng) & ~3, 0]), a, rng.choice([0, 0, 1, 2, 2, 4, 5]), d, 3), pick(rng))]
    store = [lambda s, d, a, b: s.st(s_(rng.choice([simm12(rng), simm12(rng) & ~3, 0]), b, a, rng.choice([0, 0, 1, 2, 2])))]
    mis = [lambda s, d, a, b: s.i(i_(simm12(rng) | 1, a, rng.choice([1, 2, 5]), d, 3)), lambda s, d, a, b: s.i(s_(simm12(rng) | 1, b, a, rng.choice([1, 2])))]
    mjump = [lambda s, d, a, b: s.i(b_(rng.getrandbits(13) & ~3 | 2, b, a, rng.choice(BRANCHES))), lambda s, d, a, b: s.i(j_(rng.getrandbits(21) & ~3 | 2, d)),
             lambda s, d, a, b: s.i(jalr(d, a, simm12(rng) | 2))]
    ill = [lambda s, d, a, b: s.i(rng.getrandbits(32) & ~0x01FFFFFF | b << 20 | a << 15 | rng.randrange(8) << 12 | d << 7 | rng.choice([0x13, 0x33, 0x63, 0x67, 0x03, 0x23, 0x73, 0x0F, 0x2F, 0x0B, rng.randrange(128)]))]
    cs = [lambda s, d, a, b: s.i(csr(rng.choice([1, 2, 3, 5, 6, 7]), d, rng.choice(RW_CSRS), rng.choice([0, a, a])))]
    anycsr = [lambda s, d, a, b: s.i(csr(rng.choice([1, 2, 3, 5, 6, 7]), d, rng.choice([rng.randrange(4096), 0xF11, 0xB00 + b, 0x323 + b, 0x300 + b, 0x340 + b]), rng.choice([0, a, a])))]
    misc = [lambda s, d, a, b: s.i(rng.choice([0x0FF0000F, WFI, ECALL, EBREAK, 0x8330000F, d << 7 | a << 15 | rng.getrandbits(12) << 20 | 0x0F]))]
    trap = misc + mis + mjump + ill + [lambda s, d, a, b: s.i(MRET)]
    mip = [lambda s, d, a, b: s.i(csr(rng.choice([1, 2, 3, 5, 6, 7]), d, rng.choice([MIP, MIP, MIE]), rng.choice([0, a, a])))]
    every = alu + shift + upper + branch + jump + load + store + mis + mjump + ill + cs + anycsr + misc + [lambda s, d, a, b: s.i(MRET)]
    return dict(C02=alu, C03=shift, C04=upper, C05=branch, C06=jump, C07=load, C08=store, C09=mis, C10=mjump, C11=ill, C12=anycsr, C13=cs,
                C14=misc, C15=trap, C17=mip, C20=load + store).get(prop, every)


def neighbours(prop, rng, room=50000):
    """The property's instructions right after every other kind of instruction
    (legal or not), with related registers and a moving interrupt line."""
    emit = own(prop, rng)
    while room > 0:
        s = mk(rng)
        t = reg(rng, True)
        if rng.random() < .5:
            set_tvec(s, pick(rng) & ~3, t)
        if rng.random() < .3:
            s.li(t, 0x800).i(csrrw(0, MIE, t))
        moving = rng.random() < .6
        on = rng.random() < .3
        for _ in range(rng.randrange(40, 160)):
            p = reg(rng, True)
            if moving and rng.random() < .5:
                s.irq(rng.randrange(2), rng.randrange(1, 12))
            if on and rng.random() < .2:
                s.i(csrrsi(0, MSTATUS, 8))
            q = before(s, rng, p)
            if moving and rng.random() < .6:
                s.irq(rng.randrange(2), rng.randrange(1, 9))
            a = rng.choice([p, p, p, q, reg(rng), reg(rng)])
            b = rng.choice([p, a, reg(rng)])
            d = 0 if prop == "C18" else rng.choice([a, p, b, q, reg(rng), reg(rng)])
            rng.choice(emit)(s, d, a, b)
            if rng.random() < .4:
                rng.choice(emit)(s, reg(rng), d, rng.choice([d, p]))
            s.show(d)
            if rng.random() < .15:
                s.i(csrr(t, rng.choice(RW_CSRS))).show(t)
        s.irq(0, 1)
        s.dump().show_csrs()
        room -= len(s.words)
        yield s
