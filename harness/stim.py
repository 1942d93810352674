"""Stimulus generation: instruction-word streams, irq/reset/wait schedules.

A stimulus is *stream based*: the slave answers the n-th read with the n-th
word, whether that read is a fetch or a load and whatever its address is.
Nothing here predicts what the core does; TLC decides that from the trace.
"""
import random

M32 = 0xFFFFFFFF
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = \
    0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344
RW_CSRS = [MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP]
ECALL, EBREAK, MRET, WFI = 0x73, 0x00100073, 0x30200073, 0x10500073

EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 0x10, 0x1F, 0x20, 0x21, 0x7F, 0x80, 0xFF,
        0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFFF, 0x10000,
        0x8001, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE,
        0xFFFFFFFC, 0xFFFF0000, 0xFFFF8000, 0xFFFFF800, 0xFFFFF7FF,
        0x55555555, 0xAAAAAAAA, 0x0F0F0F0F, 0x12345678, 0xDEADBEEF,
        0x00FF00FF, 0xFF00FF00, 0x7FFFFFFE, 0x3FFFFFFF, 0xC0000000]


# ---- encoders ----
def r_(f7, rs2, rs1, f3, rd, op):
    return (f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op) & M32


def i_(imm, rs1, f3, rd, op):
    return ((imm & 0xFFF) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op) & M32


def s_(imm, rs2, rs1, f3, op=0x23):
    imm &= 0xFFF
    return ((imm >> 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12
            | (imm & 31) << 7 | op)


def b_(imm, rs2, rs1, f3):
    return ((imm >> 12 & 1) << 31 | (imm >> 5 & 63) << 25 | rs2 << 20
            | rs1 << 15 | f3 << 12 | (imm >> 1 & 15) << 8
            | (imm >> 11 & 1) << 7 | 0x63)


def u_(imm20, rd, op):
    return ((imm20 & 0xFFFFF) << 12 | rd << 7 | op)


def j_(imm, rd):
    return ((imm >> 20 & 1) << 31 | (imm >> 1 & 0x3FF) << 21
            | (imm >> 11 & 1) << 20 | (imm >> 12 & 0xFF) << 12 | rd << 7 | 0x6F)


def lw(rd, imm=0, rs1=0): return i_(imm, rs1, 2, rd, 0x03)
def sw(rs2, imm=0, rs1=0): return s_(imm, rs2, rs1, 2)
def addi(rd, rs1, imm): return i_(imm, rs1, 0, rd, 0x13)
def csr(f3, rd, a, rs1): return i_(a, rs1, f3, rd, 0x73)
def csrrw(rd, a, rs1): return csr(1, rd, a, rs1)
def csrrs(rd, a, rs1): return csr(2, rd, a, rs1)
def csrrc(rd, a, rs1): return csr(3, rd, a, rs1)
def csrrwi(rd, a, z): return csr(5, rd, a, z)
def csrrsi(rd, a, z): return csr(6, rd, a, z)
def csrrci(rd, a, z): return csr(7, rd, a, z)
def csrr(rd, a): return csrrs(rd, a, 0)
def jalr(rd, rs1, imm): return i_(imm, rs1, 0, rd, 0x67)


NOP = addi(0, 0, 0)


class Seg:
    """One segment: from power-on to the end of its word stream."""

    def __init__(self, seed=1, maxgap=400, record=1, wait=(0, 0), ackidle=0,
                 irq0=0, mode=0, memwords=0, maxtxn=10**7):
        self.h = dict(seed=seed, maxgap=maxgap, maxtxn=maxtxn, record=record,
                      waitmode=wait[0], waitmax=wait[1], ackidle=ackidle,
                      irq0=irq0, mode=mode, memwords=memwords)
        self.words, self.irqs, self.rsts = [], [], []
        self.txn = 0          # predicted number of the next transfer
        self.note = ""

    # raw instruction (one transfer predicted)
    def i(self, *ws):
        for w in ws:
            self.words.append(w & M32)
            self.txn += 1
        return self

    # a load and its data
    def ld(self, w, d):
        self.words += [w & M32, d & M32]
        self.txn += 2
        return self

    # a store
    def st(self, w):
        self.words.append(w & M32)
        self.txn += 2
        return self

    def li(self, rd, v):
        return self.ld(lw(rd), v)

    def show(self, r):
        return self.st(sw(r))

    def irq(self, lvl, off=1, txn=None):
        """Drive irq to lvl `off` >= 1 cycles after the ack of transfer txn
        (default: the most recently predicted one)."""
        self.irqs.append((self.txn - 1 if txn is None else txn, 0, off, lvl))
        return self

    def irq_next(self, lvl, off=1):
        """Drive irq to lvl `off` >= 1 cycles after the *start* of the next
        transfer: with one wait state, off=1 is its ack cycle."""
        self.irqs.append((self.txn, 1, off, lvl))
        return self

    def rst(self, off=0, ln=1, txn=None):
        """Assert reset `off` cycles after the start of transfer txn (default:
        the next predicted one); the stream resumes at the word given by a
        later call of resume()."""
        self.rsts.append([self.txn if txn is None else txn, off, ln, None, None])
        return self

    def resume(self):
        for r in self.rsts:
            if r[3] is None:
                r[3], r[4] = len(self.words), self.txn
        return self

    def regs(self, rng=None, vals=None):
        for n in range(1, 32):
            v = vals[n] if vals else pick(rng)
            self.li(n, v)
        return self

    def dump(self):
        for n in range(1, 32):
            self.show(n)
        return self

    def show_csrs(self, via=1, which=RW_CSRS):
        for a in which:
            self.i(csrr(via, a)).show(via)
        return self

    def cut(self, n):
        """The first n transfers of a stream without resets (a copy)."""
        t = Seg()
        t.h = dict(self.h)
        t.note = self.note
        t.words = self.words[:n]
        t.irqs = [r for r in self.irqs if r[0] < n]
        t.txn = n
        return t

    def then(self, other):
        """Continue with another stream (which resets nothing)."""
        self.irqs += [(r[0] + self.txn, *r[1:]) for r in other.irqs]
        self.words += other.words
        self.txn += other.txn
        return self

    def text(self):
        h = self.h
        out = ["SEG %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
            h["seed"], h["maxgap"], h["maxtxn"], h["record"], h["waitmode"],
            h["waitmax"], h["ackidle"], h["irq0"], h["mode"], h["memwords"],
            len(self.words), len(self.irqs), len(self.rsts))]
        out.append(" ".join("%x" % w for w in self.words))
        out += ["%d %d %d %d" % t for t in self.irqs]
        out += ["%d %d %d %d %d" % tuple(t) for t in self.rsts]
        return "\n".join(out) + "\n"


def pick(rng):
    """A 32-bit value: edges, small values, one-hot-ish and uniform."""
    k = rng.randrange(10)
    if k < 4:
        return rng.choice(EDGE)
    if k == 4:
        return rng.randrange(64)
    if k == 5:
        return (1 << rng.randrange(32)) & M32
    if k == 6:
        return (-(1 << rng.randrange(32))) & M32
    return rng.getrandbits(32)


def simm12(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice([0, 1, 2, 3, 4, -1, -2, -4, 2047, -2048, 1024, 31, 32, -2047, 0x555, -0x556])
    return rng.randrange(-2048, 2048)
