"""The microcode machine: random microprograms, and the shipped one, run on
the real core and validated clock by clock against spec/Ucode.tla."""
import json
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import core
from core import BrokenCore, MachineryError, NCPU, SPEC, VENV_PY, VERIF, repo_env
from stim import *

# The fields of a microinstruction in the order of Ucode.tla, and the names of
# the values they take, in the order of their documented codes.
FIELDS = [
    ("target", 8), ("jmp_type", "CONT MAP DIRECT DIRECT_ZERO"), ("cond_test", "EXCEPTION CMP_ALU_O_ZERO MEM_VALID TRUE"),
    ("invert_test", 1), ("pc_action", "HOLD INC LOAD_ALU_O"), ("latch_a", 1), ("latch_b", 1),
    ("a_src", "GP IMM ALU_O ZERO FOUR NEG_ONE THIRTY_ONE"), ("b_src", "GP PC IMM ONE DAT_R CSR_IMM CSR MCAUSE_LATCH"),
    ("alu_op", "ADD SUB AND OR XOR SLL SRL SRA CMP_LTU"), ("alu_i_mod", "NONE INV_MSB_A_B"), ("alu_o_mod", "NONE INV_LSB_O CLEAR_LSB_O"),
    ("reg_read", 1), ("reg_write", 1), ("reg_r_sel", "INSN_RS1 INSN_RS2"), ("reg_w_sel", "INSN_RD ZERO"),
    ("csr_op", "NONE READ_CSR WRITE_CSR"), ("csr_sel", "INSN_CSR TRG_CSR"), ("mem_req", 1), ("mem_sel", "AUTO BYTE HWORD WORD"),
    ("mem_extend", "ZERO SIGN"), ("latch_adr", 1), ("latch_data", 1), ("write_mem", 1), ("insn_fetch", 1),
    ("except_ctl", "NONE LATCH_DECODER LATCH_JAL LATCH_STORE_ADR LATCH_LOAD_ADR ENTER_INT LEAVE_INT"),
]
NAMES = [n for n, _ in FIELDS]
CODES = {n: ({v: i for i, v in enumerate(s.split())} if isinstance(s, str) else None) for n, s in FIELDS}

# the tree's own encoding of its microinstructions, and the shipped program
LAYOUT = r"""
import json, sys, enum
from amaranth.sim import Simulator
from sentinel.ucoderom import UCodeROM
rom = UCodeROM()
lay, out = rom.fields.shape(), {}
for name, f in lay:
    sh = f.shape
    vals = {k: m.value for k, m in sh.__members__.items()} if isinstance(sh, enum.EnumMeta) else None
    out[name] = dict(lsb=f.offset, width=f.width, values=vals)
words = []
async def read(ctx):
    for a in range(1 << len(rom.addr)):
        ctx.set(rom.addr, a)
        await ctx.tick()
        words.append(ctx.get(rom.fields.as_value()))
sim = Simulator(rom)
sim.add_clock(1e-6)
sim.add_testbench(read)
sim.run()
json.dump(dict(fields=out, words=words), sys.stdout)
"""
GENROM = core.GEN.replace("kind, out = sys.argv[1], sys.argv[2]", r"""kind, out, asm = sys.argv[1:4]
from pathlib import Path
from sentinel.ucoderom import UCodeROM
UCodeROM.main_microcode_file = staticmethod(lambda: Path(asm))
""")


class Layout:
    def __init__(self, work):
        r = subprocess.run([VENV_PY, "-c", LAYOUT], cwd=work.dir, env=repo_env(), capture_output=True, text=True)
        if r.returncode:
            raise BrokenCore("the microcode ROM cannot be elaborated: " + r.stderr[-1000:])
        d = json.loads(r.stdout)
        self.fields, self.shipped = d["fields"], [int(w) for w in d["words"]]

    def encode(self, word):
        """Tuple of Ucode.tla -> the tree's microinstruction."""
        v = 0
        for n, x in zip(NAMES, word):
            f = self.fields[n]
            if CODES[n] is not None and f["values"] is not None:
                x = f["values"][FIELDS[NAMES.index(n)][1].split()[x]]
            v |= x << f["lsb"]
        return v

    def decode(self, v):
        res = []
        for n in NAMES:
            f = self.fields[n]
            x = v >> f["lsb"] & ((1 << f["width"]) - 1)
            if CODES[n] is not None and f["values"] is not None:
                names = {val: k for k, val in f["values"].items() if k in CODES[n]}
                x = CODES[n][names[x]]
            res.append(x)
        return res


def word(**kw):
    kw.setdefault("cond_test", "TRUE")
    return [CODES[n][kw[n]] if isinstance(kw.get(n), str) else int(kw.get(n, 0)) for n in NAMES]


def build(work, asm=None, tag=""):
    """The core with the clock-level driver; (exe, ROM loaded at run time?)."""
    d, out = work.dir, f"u{tag}"
    il = d / f"{out}.il"
    args = [VENV_PY, "-c", core.GEN, "top", str(il)] if asm is None else [VENV_PY, "-c", GENROM, "top", str(il), str(asm)]
    r = subprocess.run(args, cwd=d, env=repo_env(), capture_output=True, text=True)
    if r.returncode:
        raise BrokenCore("elaboration failed: " + r.stderr[-1500:])
    work.yosys(f"read_rtlil {out}.il; write_cxxrtl -header -g0 {out}.cc")
    mems = [m for m in re.findall(r"memory<(\d+)> (\w+) ?\{ ?256u", (d / f"{out}.h").read_text()) if int(m[0]) > 32]
    cmd = ["g++", "-O1", "-std=c++17", "-w", "-I", core.cxx_include(), "-I", str(d), f'-DDUT_HEADER="{out}.h"']
    if len(mems) == 1:
        cmd.append(f"-DROM={mems[0][1]}")
    exe = d / f"usim{tag}"
    r = subprocess.run(cmd + ["-o", str(exe), str(VERIF / "harness" / "udriver.cc"), str(d / f"{out}.cc")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("g++: " + r.stderr[-3000:])
    return exe, len(mems) == 1


class USeg:
    def __init__(self, rom, seed, nclk, ack, irq, rst, first, pool, image=None):
        self.rom, self.image = rom, image
        self.line = [seed, nclk, ack, irq, rst, 0 if image is None else 1]
        self.first, self.pool = first, pool

    def text(self):
        hx = lambda ws: " ".join(f"{w:x}" for w in ws)
        return "SEG " + " ".join(map(str, self.line)) + f" {len(self.first)} {hx(self.first)} {len(self.pool)} {hx(self.pool)} " + \
            (hx(self.image) if self.image else "") + "\n"


def run(work, exe, segs, name, jobs=NCPU):
    """Simulate and validate; Verdicts (v.by: trace path -> segments)."""
    parts = [p for p in (segs[i::jobs] for i in range(jobs)) if p]

    def sim(t):
        i, part = t
        r = subprocess.run([str(exe)], input="".join(s.text() for s in part), capture_output=True, text=True)
        if r.returncode:
            raise MachineryError(f"microcode driver: rc={r.returncode} {r.stderr[-300:]}")
        clks = json.loads(r.stdout)
        p = work.dir / f"{name}_{i}.json"
        p.write_text(json.dumps([dict(rom=s.rom, clk=c) for s, c in zip(part, clks)]))
        return p
    with ThreadPoolExecutor(jobs) as ex:
        paths = list(ex.map(sim, enumerate(parts)))
    v = core.validate(work, [(p, len(s)) for p, s in zip(paths, parts)], "UcodeTrace.tla", "UcodeTrace.cfg")
    v.by = {str(p): s for p, s in zip(paths, parts)}
    return v


# ---- random microprograms --------------------------------------------------
CSRS = [0, 4, 5, 8, 9, 10, 12]
COLOURS = ["imm", "jump", "load", "store", "noimm", "csr", "exc"]
ENTRY = {}
ENTRY.update({8 + k: "load" for k in (0, 1, 2, 4, 5)})
ENTRY.update({k: "csr" for k in range(0x25, 0x2F)})
ENTRY.update({0x30: "noimm", 0x50: "imm", 0x98: "jump", 0xB0: "jump", 0xD0: "imm", 0xF8: "noimm"})
ENTRY.update({0x40 + k: "imm" for k in (0, 1, 2, 3, 4, 5, 6, 7, 13)})
ENTRY.update({0x80 + k: "store" for k in range(3)})
ENTRY.update({0x88 + k: "jump" for k in (0, 1, 4, 5, 6, 7)})
ENTRY.update({0xC0 + k: "noimm" for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 13)})
OPS = [0, 0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8]
PROLOGUE = 0xD1       # .. 0xEF
WAIT = dict(mem_req=1, jmp_type="DIRECT", cond_test="MEM_VALID", invert_test=1)
FETCH = dict(WAIT, insn_fetch=1, mem_sel="AUTO")
HOME = dict(jmp_type="DIRECT_ZERO", cond_test="TRUE", invert_test=1)


class Prog:
    def __init__(self, rng):
        self.r = rng
        self.rom = {}
        self.starts = {c: [] for c in COLOURS}
        taken = {0, 1, 2, 3, 36, *ENTRY, *range(PROLOGUE, 0xF0)}
        free, runs = [a for a in range(256) if a not in taken], []
        for a in free:
            if runs and runs[-1][-1] == a - 1:
                runs[-1].append(a)
            else:
                runs.append([a])
        # pieces of at most 18 words, dealt to the colours
        pieces = [run[i:i + 18] for run in runs for i in range(0, len(run), 18)]
        falls = {p[-1] for p in pieces if p[-1] + 1 in ENTRY and len(p) > 2 and rng.random() < .6}
        big = sorted((p for p in pieces if len(p) >= 8), key=lambda p: (-len(p), rng.random()))
        cs = COLOURS[:]
        rng.shuffle(cs)
        # some run on into the entry point that follows them
        for k, p in enumerate(sorted(big, key=lambda p: p[-1] in falls)):
            self.fill(p, ENTRY[p[-1] + 1] if k >= len(cs) and p[-1] in falls else cs[k % len(cs)] if k < len(cs) else rng.choice(COLOURS), k >= len(cs) and p[-1] in falls)
        for p in pieces:
            if len(p) < 8:
                self.fill(p, ENTRY[p[-1] + 1] if p[-1] in falls else rng.choice(COLOURS), p[-1] in falls)
        self.fixups()
        self.entry()
        self.prologue()
        self.words = [self.rom.get(a, word(**HOME)) for a in range(256)]

    # -- single words --
    def compute(self, c, st, last=False):
        """A word that does not touch the bus.  st: what is known to be
        meaningful: gp (read port), csr (last CSR read)."""
        r, k = self.r, {}
        known_a = ["ALU_O", "ZERO", "FOUR", "NEG_ONE", "THIRTY_ONE"]
        known_b = ["PC", "ONE", "CSR_IMM"]
        if st["gp"]:
            known_a += ["GP"] * 4
            known_b += ["GP"] * 4
        if c in ("imm", "jump", "load", "store"):
            known_a += ["IMM"] * 2
            known_b += ["IMM"] * 2
        if st["csr"]:
            known_b += ["CSR"] * 8
        if c == "exc":
            known_b += ["MCAUSE_LATCH"] * 2
        if r.random() < .6:
            k.update(latch_a=1, a_src=r.choice(known_a))
        else:
            k["a_src"] = r.randrange(7)
        if r.random() < .6 or st["csr"]:
            k.update(latch_b=1, b_src=r.choice(known_b))
        else:
            k["b_src"] = r.randrange(8)
        k["alu_op"] = r.choice(OPS)
        if r.random() < .3:
            k["alu_i_mod"] = 1
        if r.random() < .3:
            k["alu_o_mod"] = r.randrange(1, 3)
        mine = c != "exc"
        if r.random() < .45 and mine:
            k.update(reg_read=1, reg_r_sel=r.randrange(2))
        elif r.random() < .3:
            k["reg_r_sel"] = 1
        if r.random() < .25:
            if r.random() < .1:
                k.update(reg_write=1, reg_w_sel="ZERO")
            elif mine:
                k.update(reg_write=1)
        elif r.random() < .3:
            k["reg_w_sel"] = r.randrange(2)
        if r.random() < (.25 if c != "csr" else .5):
            k["csr_op"] = r.choice(["READ_CSR", "READ_CSR", "WRITE_CSR"])
            if c == "csr" and r.random() < .7:
                k["csr_sel"] = "INSN_CSR"
            else:
                k.update(csr_sel="TRG_CSR", target=r.choice(CSRS))
        elif r.random() < .1:
            k["csr_sel"] = 1
        x = r.random()
        if x < .15:
            k["pc_action"] = "INC"
        elif x < .25:
            k["pc_action"] = "LOAD_ALU_O"
        k["mem_sel"] = r.randrange(1, 4)
        k["mem_extend"] = r.randrange(2)
        if r.random() < .1:
            k["latch_adr"] = 1
        if r.random() < .1:
            k["latch_data"] = 1
        if r.random() < .05:
            k["write_mem"] = 1
        if k.get("csr_op") != "WRITE_CSR" and r.random() < .08 or k.get("csr_sel") == "TRG_CSR" and k["target"] != 0 and r.random() < .25:
            k["except_ctl"] = r.choice(["ENTER_INT", "LEAVE_INT"])
        if k.get("csr_sel") == "TRG_CSR" and "csr_op" in k:
            if r.random() < .2:
                k.update(jmp_type="DIRECT", cond_test="TRUE", invert_test=1)
            elif r.random() < .05:
                k.update(HOME)
        elif r.random() < .2 and not last:
            check = {"jump": "LATCH_JAL", "load": "LATCH_LOAD_ADR", "store": "LATCH_STORE_ADR"}.get(c)
            if check and r.random() < .5 and "except_ctl" not in k:
                k.update(except_ctl=check, jmp_type=r.choice(["DIRECT", "DIRECT", "DIRECT_ZERO"]), cond_test="EXCEPTION", target=("go", "exc"))
                if r.random() < .25:
                    k.update(invert_test=1, target=("go", c))
            else:
                k.update(jmp_type=r.choice(["DIRECT", "DIRECT", "DIRECT", "DIRECT_ZERO"]),
                         cond_test=r.choice(["CMP_ALU_O_ZERO", "CMP_ALU_O_ZERO", "MEM_VALID", "TRUE", "EXCEPTION"]),
                         invert_test=r.randrange(2), target=("go", c))
        op = k.get("csr_op")
        st["csr"] = op == "READ_CSR"
        st["gp"] = op is None and (k.get("reg_read") == 1 or (st["gp"] and (not k.get("reg_write") or r.random() < .7)))
        return k

    def noise(self, k, st, *keys):
        """Fields of a computing word that do not interfere with k."""
        c = self.compute("exc", dict(gp=False, csr=False), last=True)
        for f in keys:
            if f in c:
                k.setdefault(f, c[f])
        return k

    # -- sequences --
    def fetch(self, at):
        r = self.r
        k = self.noise(dict(FETCH, target=at), None, "alu_op", "alu_i_mod", "alu_o_mod")
        if r.random() < .7:
            k.update(reg_read=1, reg_r_sel="INSN_RS1")
        k["mem_sel"] = r.randrange(4)
        if r.random() < .2:
            k["latch_adr"] = 1
        if r.random() < .1:
            k["pc_action"] = r.choice(["INC", "LOAD_ALU_O"])
        self.latches(k)
        return [k, self.map()]

    def latches(self, k):
        """ALU inputs that move while an instruction is being fetched."""
        r = self.r
        if r.random() < .3:
            k.update(latch_a=1, a_src=r.choice(["ALU_O", "FOUR", "THIRTY_ONE"]))
        if r.random() < .3:
            k.update(latch_b=1, b_src=r.choice(["CSR_IMM", "CSR_IMM", "PC", "ONE"]))

    def map(self):
        r = self.r
        k = dict(jmp_type="MAP", cond_test="EXCEPTION", target=("go", "exc"), except_ctl="LATCH_DECODER")
        if r.random() < .1:
            k = dict(jmp_type="MAP", cond_test=r.choice(["TRUE", "CMP_ALU_O_ZERO"]), target=("go", "noimm"), except_ctl="LATCH_DECODER")
        self.noise(k, None, "alu_op", "alu_i_mod", "alu_o_mod")
        if r.random() < .6:
            k.update(latch_a=1, a_src=r.choice(["GP", "GP", "ALU_O", "ZERO"]))
        if r.random() < .3:
            k.update(latch_b=1, b_src=r.choice(["PC", "ONE", "CSR_IMM"]))
        if r.random() < .6:
            k.update(reg_read=1, reg_r_sel=r.randrange(2))
        return k

    def operand(self, c):
        """Something that is rarely 0 or 1 into the ALU."""
        r = self.r
        if c != "exc" and r.random() < .5:
            rd = dict(reg_read=1, reg_r_sel=r.randrange(2), alu_op=r.choice(OPS))
            more = [dict(reg_write=1, reg_r_sel=r.randrange(2), alu_op=r.choice(OPS))] if r.random() < .3 else []
            return [rd, *more, dict(latch_a=1, a_src="GP", latch_b=1, b_src=r.choice(["PC", "ONE", "GP", "CSR_IMM"]), alu_op=r.choice(OPS)),
                    dict(alu_op=r.choice([0, 1, 3, 4]))]
        return [dict(latch_a=1, a_src=r.choice(["NEG_ONE", "ALU_O", "THIRTY_ONE"]), latch_b=1, b_src=r.choice(["CSR_IMM", "ONE", "PC"]), alu_op=r.choice(OPS)),
                dict(alu_op=r.choice([0, 1, 3, 4]))]

    def load(self, c, st, room=True):
        r = self.r
        sel = r.randrange(1, 4)
        seq = self.operand(c) if room and r.random() < .7 else []
        k = self.compute("exc", dict(gp=False, csr=False), last=True)
        for f in ("csr_op", "csr_sel", "jmp_type", "target", "invert_test", "cond_test", "except_ctl", "reg_write"):
            k.pop(f, None)
        k.update(latch_adr=1, mem_sel=sel)
        if c in ("load", "store") and r.random() < .7:
            k.update(except_ctl="LATCH_LOAD_ADR" if c == "load" else "LATCH_STORE_ADR", cond_test="EXCEPTION",
                     jmp_type="DIRECT", target=("go", "exc"))
        seq.append(k)
        k = dict(WAIT, target=("self",), mem_sel=sel, mem_extend=r.randrange(2), latch_b=1, b_src="DAT_R", alu_op=r.choice(OPS))
        if r.random() < .7:
            k.update(latch_a=1, a_src=r.choice(["ZERO", "NEG_ONE", "FOUR"]))
        if r.random() < .3:
            k["latch_data"] = 1
        if r.random() < .1:
            k["pc_action"] = r.choice(["INC", "LOAD_ALU_O"])
        if r.random() < .1 and c != "exc":
            k["reg_write"] = 1
        seq.append(k)
        st.update(gp=False, csr=False)
        return seq

    def store(self, c, st, room=True):
        r = self.r
        seq = self.load(c, st, room)[:-1]
        sel = seq[-1]["mem_sel"]
        if room and r.random() < .7:
            seq += self.operand(c)
        d = self.compute("exc", dict(gp=False, csr=False), last=True)
        for f in ("csr_op", "csr_sel", "jmp_type", "target", "invert_test", "cond_test", "reg_write", "latch_adr"):
            d.pop(f, None)
        d.update(latch_data=1, mem_sel=sel)
        if r.random() < .25:        # latched while something is being read
            d = dict(WAIT, target=("self",), mem_sel=sel, latch_data=1, alu_op=r.choice(OPS))
            if r.random() < .3:
                d.update(insn_fetch=1)
        seq.append(d)
        seq.append(dict(WAIT, target=("self",), write_mem=1, mem_sel=sel, alu_op=r.choice(OPS)))
        if r.random() < .3:
            seq[-1].update(latch_a=1, a_src=r.choice(["ZERO", "FOUR", "ALU_O"]))
        st.update(gp=False, csr=False)
        return seq

    def leave(self, st):
        r = self.r
        x = r.random()
        if x < .4:
            return [dict(HOME, alu_op=r.choice(OPS))]
        k = dict(mem_req=1, insn_fetch=1, jmp_type="DIRECT_ZERO", cond_test="MEM_VALID", target=1, alu_op=r.choice(OPS),
                 reg_read=1, reg_r_sel="INSN_RS1")
        if r.random() < .3:
            k["pc_action"] = r.choice(["INC", "LOAD_ALU_O"])
        pre = dict(mem_req=1, insn_fetch=1, alu_op=r.choice(OPS))
        for w in (pre, k):
            if r.random() < .3 and st["mine"]:
                w["reg_write"] = 1
            self.latches(w)
            if r.random() < .1:
                w["latch_adr"] = 1
            if r.random() < .1:
                w["latch_data"] = 1
                w["mem_sel"] = r.randrange(1, 4)
        return [pre, k] if x < .7 else [k]

    def fill(self, run, c, fall=False):
        """Fill one run of free addresses with sequences of one colour; fall:
        the last word runs on into what follows."""
        r, st, i = self.r, dict(gp=False, csr=False, mine=c != "exc"), 0
        while i < len(run):
            left = len(run) - i
            x = r.random()
            at = run[i]
            if left <= 2 and fall:
                seq = [self.compute(c, st, last=True)]
                for f in ("jmp_type", "cond_test", "invert_test"):
                    seq[0].pop(f, None)
            elif left <= 2:
                seq = self.leave(st)[-left:]
                if left == 2 and len(seq) == 1:
                    seq = [self.compute(c, st), *seq]
            elif x < .06:
                seq = self.fetch(at)
                st.update(gp=False, csr=False)
            elif x < .16 and left > 4:
                seq = self.load(c, st, left > 8)
            elif x < .26 and left > 5:
                seq = self.store(c, st, left > 11)
            elif x < .32:
                seq = self.leave(st)
                st.update(gp=False, csr=False)
            else:
                seq = [self.compute(c, st)]
            # a jump lands where nothing is assumed about the read ports
            if i == 0 or (not st["gp"] and not st["csr"] and x < .32):
                self.starts[c].append(at)
            elif r.random() < .15 and len(seq) == 1 and left > 2:
                st.update(gp=False, csr=False)
                seq = [self.compute(c, st)]
                self.starts[c].append(at)
            for k in seq:
                if k.get("target") == ("self",):
                    k["target"] = run[i]
                self.rom[run[i]] = k
                i += 1

    def fixups(self):
        for a, k in self.rom.items():
            t = k.get("target")
            if isinstance(t, tuple):
                k["target"] = self.goto(t[1], a)
        self.rom = {a: word(**k) for a, k in self.rom.items()}

    def goto(self, c, a=0):
        after = [s for s in self.starts[c] if s > a]
        if after and self.r.random() < .9:
            return self.r.choice(after)
        return self.r.choice(self.starts[c]) if self.r.random() < .3 and self.starts[c] else 0

    def entry(self):
        r = self.r
        k = dict(FETCH, target=0, reg_read=1, reg_r_sel="INSN_RS1", alu_op=r.choice(OPS))
        self.rom[0] = word(**k)
        for a in (1, 36):
            k = self.map()
            k["target"] = self.goto(k["target"][1])
            if a == 36:
                k.update(cond_test="EXCEPTION", except_ctl="LATCH_DECODER")
                k["target"] = self.goto("exc")
            self.rom[a] = word(**k)
        for a, c in ENTRY.items():
            st = dict(gp=False, csr=False)
            k = self.compute(c, st, last=True)
            for f in ("jmp_type", "cond_test", "invert_test", "except_ctl"):
                k.pop(f, None)
            if k.get("csr_sel") == "TRG_CSR":
                k.pop("csr_op", None)
            k.update(jmp_type="DIRECT", target=r.choice(self.starts[c]))
            self.rom[a] = word(**k)

    def prologue(self):
        """Bring everything into a known state: ALU, x0, CSRs, pc, and one
        register for each of the first instructions read."""
        seq = [dict(latch_a=1, latch_b=1, a_src="ZERO", b_src="ONE"), dict(alu_op="AND"),
               dict(alu_op="AND", reg_write=1, reg_w_sel="ZERO", pc_action="LOAD_ALU_O", latch_adr=1)]
        seq += [dict(alu_op="AND", csr_op="WRITE_CSR", csr_sel="TRG_CSR", target=t) for t in (0, 4, 5, 8, 9, 10)]
        seq.append(dict(latch_data=1, mem_sel="WORD", latch_a=1, a_src="THIRTY_ONE"))
        for k in range(5):
            at = PROLOGUE + len(seq) - 2
            seq.append(dict(WAIT, insn_fetch=1, target=at, alu_op=["ADD", "SUB", "SLL", "XOR", "SRL"][k]))
            seq.append(dict(reg_write=1, latch_a=1, a_src=["ALU_O", "ALU_O", "NEG_ONE", "ALU_O", "ALU_O"][k], alu_op="SRL"))
        seq.append(dict(HOME))
        assert len(seq) - 2 <= 0xF0 - PROLOGUE
        self.rom[2] = word(**seq[0])
        self.rom[3] = word(**seq[1], jmp_type="DIRECT", target=PROLOGUE)
        for i, k in enumerate(seq[2:]):
            self.rom[PROLOGUE + i] = word(**k)


def instructions(rng, regs):
    """A pool of instructions and data words over a few registers."""
    R = lambda: rng.choice([0, 0] + regs * 2)
    N = lambda: rng.choice(regs)
    I = lambda: rng.choice([0, 1, 2, 3, 4, 5, 0x7FF, 0x800, 0xFFF, rng.randrange(4096)])
    CS = lambda: rng.choice(RW_CSRS)
    pool = []
    for _ in range(6):
        pool += [i_(I(), R(), rng.choice([0, 2, 3, 4, 6, 7]), N(), 0x13), i_(rng.randrange(32), R(), 1, N(), 0x13),
                 i_(rng.randrange(32) | rng.choice([0, 0x400]), R(), 5, N(), 0x13),
                 r_(0, R(), R(), rng.randrange(8), N(), 0x33), r_(0x20, R(), R(), rng.choice([0, 5]), N(), 0x33),
                 u_(rng.getrandbits(20), N(), 0x37), u_(rng.getrandbits(20), N(), 0x17), j_(rng.getrandbits(20) & ~1, R()), jalr(R(), R(), I()),
                 b_(rng.getrandbits(12) & ~1, R(), R(), rng.choice([0, 1, 4, 5, 6, 7])), i_(I(), R(), rng.choice([0, 1, 2, 4, 5]), N(), 3),
                 s_(I(), R(), R(), rng.choice([0, 1, 2])), csrrw(R(), CS(), R()), csrrs(R(), CS(), R()), csrrc(R(), CS(), R()),
                 csrrwi(R(), CS(), rng.randrange(32)), csrrsi(R(), CS(), rng.randrange(32)), csrrci(R(), CS(), rng.randrange(32))]
    pool += [csrr(N(), 0xF11), csrrw(N(), 0x310, N()), i_(0, R(), 0, R(), 0xF), ECALL, EBREAK, MRET, WFI, csrr(N(), 0x7C0), csrrw(0, 0xF14, N())]
    for _ in range(12):
        pool.append(rng.getrandbits(32) & ~(31 << 7 | 31 << 15 | 31 << 20) | N() << 7 | R() << 15 | R() << 20)
    return [w & M32 for w in pool]


def programs(rng, n, per, nclk, lay, loadable):
    segs = []
    for p in range(n):
        prog = Prog(rng)
        image = [lay.encode(w) for w in prog.words] if loadable else None
        regs = rng.sample(range(1, 32), 5)
        first = [i_(0, 0, 0, r, 0x13) for r in regs]
        for k in range(per):
            segs.append(USeg(prog.words, rng.getrandbits(30), nclk, rng.choice([25, 50, 80, 100]), rng.choice([0, 10, 60]),
                             rng.choice([0, 0, 0, 4]), first, instructions(rng, regs), image))
    return segs


def source(words):
    """Microprogram as assembly text (used when the ROM of the simulated core
    cannot be loaded at run time)."""
    fs, at = [], 0
    for n, s in FIELDS:
        vals = s.split() if isinstance(s, str) else None
        w = max(1, (len(vals) - 1).bit_length()) if vals else s
        kind = "enum { " + "; ".join(f"{x.lower()} = {i}" for i, x in enumerate(vals)) + "; }" if vals else \
            "bool" if s == 1 else f"width {s}"
        if n == "jmp_type":
            kind = "enum { cont = 0; nop = 0; map; direct; direct_zero; }"
        fs.append(f"  {n}: {kind}, origin {at}, default 0;")
        at += w
    out = ["space block_ram: width 48, size 256;", "space block_ram;", "origin 0;", "fields block_ram: {", *fs, "};"]
    for w in words:
        out.append(", ".join(f"{n} => {FIELDS[i][1].split()[w[i]].lower() if isinstance(FIELDS[i][1], str) else w[i]}"
                             for i, n in enumerate(NAMES)) + ";")
    return "\n".join(out) + "\n"


def named(w):
    return {n: (FIELDS[i][1].split()[w[i]] if isinstance(FIELDS[i][1], str) else w[i])
            for i, n in enumerate(NAMES) if w[i] and not (n == "cond_test" and w[i] == 3)}


def hx(v):
    return "?" if v[0] < 0 else f"{v[0] << 16 | v[1]:08x}"


COUNTS = ["clocks", "requests", "requests with a promised address", "writes requested", "writes with promised data",
          "map jumps", "exception checks", "clocks in reset"]
CLAUSES = {"cyc": "CYC", "stb": "STB", "we": "WE", "adr": "ADR", "sel": "SEL", "dat": "DAT_W"}


def report(ctx, work, v, what):
    done = set()
    for path, s, l, clause in v.bad:
        if clause in done:
            continue
        done.add(clause)
        one = json.load(open(path))[s - 1]
        p = work.dir / "explain.json"
        p.write_text(json.dumps([one]))
        rc, out = work.tlc("UcodeTrace.tla", SPEC / "UcodeTrace.cfg", {"TRACE": str(p)}, name="explain")
        bad = max(core.read_tuples(out, ("BAD",)), key=lambda r: r[2], default=None)
        if bad is None:
            raise MachineryError("explanation pass accepted a rejected segment")
        _, _, l, clause, at, w, pc, adr, a, b, o, wdat, insn = bad
        e = one["clk"][l - 1]
        tail = [f"{k + 1}: rst={c[0]} irq={c[1]} ack={c[2]} dat_r={hx(c[3:5])} cyc={c[5]} stb={c[6]} we={c[7]} adr={hx(c[8:10])} sel={c[10]:x} dat_w={hx(c[11:13])}"
                for k, c in list(enumerate(one["clk"]))[max(0, l - 25):l]]
        seg = v.by[path][s - 1]
        ctx.violation(f"{what}: {CLAUSES.get(clause, clause)} wrong in clock {l}, microinstruction {at:#04x}",
                      dict(clause=clause, clock=l, address=at, microinstruction=named(w), observed=tail[-1], tail=tail,
                           spec=dict(pc=hx(pc), adr=hx(adr), a=hx(a), b=hx(b), o=hx(o), wdat=hx(wdat), insn=hx(insn)),
                           program={f"{i:02x}": named(x) for i, x in enumerate(seg.rom)}, stimulus=seg.text()))


def c30(ctx):
    ctx.assumptions += ["a Wishbone slave acknowledges only while it is asked to, and never in the clock after an acknowledgement",
                        "what the documentation of the microcode fields leaves open (the read ports of the clock after a "
                        "CSR operation, a decode later than the clock after the fetch, split halfwords, ...) is not judged"]
    from extra import rounds
    from core import Work
    with Work() as work:
        try:
            lay = Layout(work)
            exe, can = build(work)
        except BrokenCore as e:
            ctx.violation("the core cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return
        cov = ctx.cov
        total = [0] * len(COUNTS)

        def take(v, what, progs):
            ctx.count(v)
            ctx.actions.clear()
            for i, n in enumerate(v.cov):
                total[i] += n
            if v.bad:
                report(ctx, work, v, what)
            cov["microprograms"] = cov.get("microprograms", 0) + progs

        def body(rnd):
            rng = ctx.rng("c30", rnd)
            shipped = [lay.decode(x) for x in lay.shipped]
            regs = rng.sample(range(1, 32), 5)
            pool = instructions(rng, regs)
            segs = [USeg(shipped, rng.getrandbits(30), 600, rng.choice([25, 50, 90]), rng.choice([0, 10, 60]), rng.choice([0, 0, 4]),
                         [], pool + [rng.getrandbits(32) for _ in range(8)]) for _ in range(24)]
            take(run(work, exe, segs, f"s{rnd}"), "shipped microcode", 1)
            n = 800 if ctx.deep else 240
            if can:
                segs = programs(rng, n, 4, 500, lay, True)
                take(run(work, exe, segs, f"p{rnd}"), "random microcode", n)
                if not cov["samples"]:
                    cov["samples"] = [{f"{i:02x}": named(x) for i, x in enumerate(s.rom)} for s in segs[:1]]
            else:
                def one(i):
                    segs = programs(ctx.rng("c30", rnd, i), 1, 40, 500, lay, False)
                    asm = work.dir / f"m{rnd}_{i}.asm"
                    asm.write_text(source(segs[0].rom))
                    own, _ = build(work, asm, f"{rnd}_{i}")
                    v = run(work, own, segs, f"p{rnd}_{i}", jobs=1)
                    own.unlink()
                    return v, segs
                with ThreadPoolExecutor(NCPU) as ex:
                    for v, segs in ex.map(one, range(NCPU)):
                        take(v, "random microcode", 1)
        rounds(ctx, body)
        cov["what_was_judged"] = dict(zip(COUNTS, total))
        cov["microcode_loaded"] = "at run time" if can else "one build for each program"


# ---- C31: the shipped microprogram -----------------------------------------
# focus of MCSentinel: how many slices its instruction words are cut into for
# the quick tier (one of them is explored; the seed says which)
FOCI = {"C01": 1, "C02": 2, "C03": 8, "C04": 2, "C05": 6, "C06": 1, "C07": 2, "C08": 1, "C09": 4, "C10": 8, "C11": 10, "C12": 10,
        "C13": 4, "C14": 1, "C15": 1, "C16": 1, "C17": 4, "C18": 1, "C27": 2}

INSTRUCTION_LEVEL = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]


def c31(ctx):
    ctx.assumptions += ["a Wishbone slave acknowledges one clock or more after STB rises (the documented two-clock handshake)",
                        "the core runs a microprogram as the documentation of its fields says (C30; checked here on runs of the shipped one)"]
    from core import Work
    from check import run_round
    import workloads
    from extra import mixed
    cov = ctx.cov
    with Work() as work:
        try:
            lay = Layout(work)
            exe, _ = build(work)
            core_exe = work.build("top")
        except BrokenCore as e:
            ctx.violation("the core cannot be built: " + str(e)[-300:], dict(error=str(e)))
            return
        try:
            shipped = [lay.decode(x) for x in lay.shipped]
        except KeyError as e:
            ctx.violation(f"the microcode ROM holds a field value that has no name: {e}", dict(words=[f"{w:x}" for w in lay.shipped]))
            return
        rom = work.dir / "rom.json"
        rom.write_text(json.dumps(shipped))
        seen, done = set(), set()
        runs, words = {}, {}

        def explore(job):
            focus, k, of, big = job
            rc, out = work.tlc("MCUcode.tla", SPEC / "MCUcode.cfg",
                               dict(ROM=str(rom), FOCUS=focus, DEPTH="1", BIG=big, SLICE=str(k), OF=str(of), SEED=str(ctx.seed)),
                               name=f"{focus}_{k}_{of}_{big}", heap="3g", big=True, timeout=850)
            st = core.STATS.findall(out)
            if rc or not st:
                raise MachineryError(f"TLC on MCUcode {job}: rc={rc} " + out[-1500:])
            return job, st[-1], core.read_tuples(out, ("BAD", "COV"))

        def take(res):
            (focus, _, _, _), st, tuples = res
            cov["transitions"] += int(st[0])
            cov["states"] += int(st[1])
            for t in tuples:
                if t[0] == "COV":
                    runs[focus] = runs.get(focus, 0) + t[1]
                    if focus != "C01":            # that one starts everywhere
                        seen.update(t[2])
                elif (t[1], t[4]) not in done and len(done) < 40:
                    _, what, w, pc, at, k, detail = t
                    done.add((what, at))
                    ctx.violation(f"microcode, instruction {hx(w)} at {hx(pc)}: {what} at microinstruction {at:#04x}",
                                  dict(focus=focus, clause=what, instruction=hx(w), pc=hx(pc), address=at,
                                       microinstruction=named(shipped[at]) if at >= 0 else None, detail=detail))
        jobs = [(f, (ctx.seed * 7 + i) % of, of, "0") for i, (f, of) in enumerate(FOCI.items())]
        jobs.sort(key=lambda j: -j[2])
        rng = ctx.rng("c31")
        if ctx.deep:
            jobs = [(f, k, of, "0") for f, of in FOCI.items() for k in range(of)]
            rng.shuffle(jobs)
        regs = rng.sample(range(1, 32), 5)
        segs = [USeg(shipped, rng.getrandbits(30), 800, rng.choice([25, 50, 90]), rng.choice([0, 10, 60]), rng.choice([0, 0, 4]),
                     [], instructions(rng, regs) + [rng.getrandbits(32) for _ in range(8)]) for _ in range(320)]
        v = run(work, exe, segs, "shipped")
        ctx.count(v)
        ctx.actions.clear()
        if v.bad:
            report(ctx, work, v, "shipped microcode")
        # the same core, instruction by instruction, against what the
        # microprogram was shown to implement
        segs = mixed(ctx, 0, [("MIX", 2)] + [(p, 2) for p in INSTRUCTION_LEVEL])
        ctx.rng("c31 mix").shuffle(segs)
        segs = segs[:6000 if ctx.deep else 2000]
        for p in INSTRUCTION_LEVEL:
            segs += workloads.neighbours(p, ctx.rng("c31 neighbours", p), 20000 if ctx.deep else 5000)
        run_round(ctx, work, core_exe, segs, "m", mine=lambda m, p, by: True)
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(explore, jobs):
                take(r)
            more = 0
            while ctx.deep and not ctx.violations and ctx.left() > 120:
                jobs = [(f, rng.randrange(40 * of), 40 * of, "1") for f, of in FOCI.items() if f != "C01"]
                for r in ex.map(explore, jobs):
                    take(r)
                more += len(jobs)
        cov["instructions_executed_by_focus"] = dict(sorted(runs.items()))
        cov["larger_alphabets_sampled"] = more
        used = {a for a, w in enumerate(lay.shipped) if w}
        cov["microinstructions_executed"] = f"{len(seen & used)} of the {len(used)} in the ROM"
        cov["microinstructions_not_executed"] = [f"{a:#04x}" for a in sorted(used - seen)]
        cov["samples"] = [dict(focus=f, instructions=n) for f, n in sorted(runs.items())[:3]]
