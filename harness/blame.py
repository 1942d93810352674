"""Which properties does a rejected trace speak about?

TLC reports the first transfer that the specification does not allow, and the
history of what the specification says each earlier transfer meant.  The
instructions that can be responsible are those since the value in question was
last seen to be right; each instruction, together with what it was supposed to
do (retire, trap, be pre-empted), belongs to some properties.
"""
from stim import (MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP, ECALL,
                  EBREAK, MRET, WFI, RW_CSRS)

RET, TRAP, INT, RST, DATA, PROBE = range(6)


def word(e):
    return e[4] << 16 | e[5]


def adr(e):
    return e[1] << 16 | e[2]


def w32(p):
    return p[0] << 16 | p[1]


class Insn:
    def __init__(self, w):
        self.w = w
        self.op = w & 0x7F
        self.rd = w >> 7 & 31
        self.f3 = w >> 12 & 7
        self.rs1 = w >> 15 & 31
        self.rs2 = w >> 20 & 31
        self.f12 = w >> 20

    @property
    def csr(self):
        return self.op == 0x73 and self.f3 not in (0, 4)

    def reads_csr(self, a):
        return self.csr and self.f12 == a

    def writes_csr(self, a):
        return self.csr and self.f12 == a and (self.f3 in (1, 5) or self.rs1)

    def base(self):
        """The property about what this instruction computes."""
        op, f3 = self.op, self.f3
        if op in (0x13, 0x33):
            return {"C03"} if f3 in (1, 5) else {"C02"}
        if op in (0x37, 0x17):
            return {"C04"}
        if op == 0x63:
            return {"C05"}
        if op in (0x6F, 0x67):
            return {"C06"}
        if op == 0x03:
            return {"C07"}
        if op == 0x23:
            return {"C08"}
        if op == 0x0F:
            return {"C14"}
        if op == 0x73:
            if self.csr:
                return {"C13", "C12"}
            if self.w == MRET:
                return {"C15"}
            return {"C14"}
        return set()

    def writes_rd(self):
        return self.op in (0x13, 0x33, 0x37, 0x17, 0x6F, 0x67, 0x03) or self.csr

    def straight(self):
        return self.op not in (0x6F, 0x67) and self.w not in (ECALL, EBREAK, MRET)


def of_step(i, outcome):
    """Properties about one executed instruction."""
    if outcome == RST:
        return {"C01"}
    if outcome == INT:
        return {"C16", "C15", "C25"}
    b = set(i.base())
    if i.rd == 0 and i.writes_rd():
        b.add("C18")
    if outcome == TRAP:
        t = {"C15", "C25"}
        if i.w in (ECALL, EBREAK):
            t |= {"C14"}
        elif i.op in (0x03, 0x23) and legal_mem(i):
            t |= {"C09"} | b
        elif i.op in (0x63, 0x6F, 0x67) and legal_jump(i):
            t |= {"C10"} | b
        else:
            t |= {"C11"}
            if i.csr:
                t |= {"C12"}
        return t
    if i.straight():
        b.add("C27")
    return b


def legal_mem(i):
    return i.f3 in ((0, 1, 2, 4, 5) if i.op == 3 else (0, 1, 2))


def legal_jump(i):
    return i.op == 0x6F or (i.op == 0x67 and i.f3 == 0) or (i.op == 0x63 and i.f3 not in (2, 3))


def spurious(i):
    """The core trapped where the specification says it should not."""
    s = {"C11", "C16", "C20"}
    if i.op in (0x03, 0x23):
        s |= {"C09"}
    if i.op in (0x63, 0x6F, 0x67):
        s |= {"C10"}
    if i.op == 0x73:
        s |= {"C12", "C14"}
    return s


class History:
    """The accepted prefix of a segment."""

    def __init__(self, m):
        self.m = m
        self.steps = []      # (index, Insn|None, outcome, pc)
        for k, (ph, o, pc) in enumerate(m.hist):
            e = m.events[k]
            if ph == "F" and o in (RET, TRAP, INT):
                self.steps.append((k, Insn(word(e)), o, w32(pc)))
            elif o == RST:
                self.steps.append((k, None, o, 0))

    def last(self):
        return self.steps[-1] if self.steps else None


def blame_reg(h, r, upto):
    """Steps that could have put a wrong value in register r."""
    props = set()
    steps = [s for s in h.steps if s[0] < upto]
    for n, (k, i, o, pc) in enumerate(reversed(steps)):
        if o == RST:
            props |= {"C01"}
            break
        shown = (i.op == 0x23 and i.f3 == 2 and i.rs2 == r and o == RET)
        if shown:
            break
        props |= of_step(i, o)
        if o == RET and i.writes_rd() and i.rd == r:
            if i.csr:
                props |= blame_csr(h, i.f12, k)
            break
        if n > 400:
            break
    if r == 0:
        props.add("C18")
    return props


def blame_csr(h, a, upto):
    props = set()
    if a == MIP:
        props.add("C17")
    if a not in RW_CSRS:
        props.add("C12")
        return props
    steps = [s for s in h.steps if s[0] < upto]
    for n, (k, i, o, pc) in enumerate(reversed(steps)):
        if o == RST:
            props.add("C01")
            break
        if i.reads_csr(a) and o == RET and not i.writes_csr(a) and n:
            break
        if o in (TRAP, INT):
            props |= of_step(i, o)
            if a in (MEPC, MCAUSE):
                break
        elif i.writes_csr(a):
            props |= {"C13"}
            if i.f3 in (1, 5) and a in (MEPC, MCAUSE, MSCRATCH, MTVEC, MIE):
                break
        elif i.w == MRET:
            props.add("C15")
        elif not i.csr:
            props.add("C24")
        if n > 400:
            break
    return props


def blame(m):
    """Set of property ids a mismatch speaks about."""
    h = History(m)
    p = set()
    e = m.event
    last = h.last()
    if last is None:
        p.add("C01")
        if m.clause in ("silence", "dropped"):
            p |= {"C19", "C22", "C20"}
        return p
    k, i, o, pc = last
    first_after_reset = o == RST
    kind, _, what = m.clause.partition(".")
    mtvec = w32(m.c[3])
    if what == "late":
        return {"C22"}
    if kind in ("silence", "dropped"):
        p |= {"C22", "C20", "C19"} | (of_step(i, o) if i else {"C01"})
        return p
    if first_after_reset:
        return {"C01", "C20"} if what == "kind" else {"C01"}
    p |= of_step(i, o)
    p.add("C24")
    trapped_instead = e[0] == 0 and adr(e) == mtvec and e[3] == 15
    if trapped_instead and o != INT:
        p |= spurious(i)
    if o == INT:
        p |= {"C16", "C20"}
    if kind == "fetch":
        if what in ("kind", "sel"):
            p |= {"C20"}
            if i.op == 0x23:
                p.add("C08")
            if o == TRAP:
                p.add("C09")
        elif what == "adr":
            if adr(e) == pc or adr(e) == (w32(m.expect) + 4) & 0xFFFFFFFF:
                p.add("C20")
            if o == RET and i.op == 0x67 or o == RET and i.op == 0x63:
                p |= _operands(h, i, k)
            if o in (TRAP, INT):
                p |= blame_csr(h, MTVEC, k)
            if i.w == MRET and o == RET:
                p |= blame_csr(h, MEPC, k)
    else:
        # a data transfer was due
        p |= of_step(i, o)
        if what in ("kind", "sel"):
            p |= {"C20"}
        if what == "adr":
            p |= _operands(h, i, k)
            p.add("C20")
        if kind == "store" and what == "dat":
            p.discard("C27")
            rp = blame_reg(h, i.rs2, k)
            p |= rp
            p.add("C08")
    return p


def _operands(h, i, k):
    p = blame_reg(h, i.rs1, k)
    if i.op == 0x63:
        p |= blame_reg(h, i.rs2, k)
    return p
