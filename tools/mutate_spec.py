#!/usr/bin/env python3
"""mutate_spec.py [-j N] [NAME...]: break the specification in one place at a
time and confirm that model checking it notices (a property of SentinelProps,
an invariant of MCTraps/MCResume/MCWishbone, or an ASSUME)."""
import argparse
import os
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import core
from modelcheck import FOCUS

# name: (file, text, replacement, model or focus that must notice)
M = {
    "f3-narrow": ("RV32", "F3(w)     == (w[2] \\div 4096) % 8", "F3(w)     == (w[2] \\div 4096) % 4", "C05"),
    "rs1-bit0": ("RV32", "Rs1(w)    == (w[2] \\div 32768) + (w[1] % 16) * 2", "Rs1(w)    == (w[1] % 16) * 2", "C02"),
    "immI-sign": ("RV32", "Sext12(n) == IF n >= 2048 THEN <<65535, 61440 + n>>", "Sext12(n) == IF n >= 2048 THEN <<0, n>>", "C02"),
    "immS-order": ("RV32", "ImmS(w) == Sext12(F7(w) * 32 + Rd(w))", "ImmS(w) == Sext12(F7(w) * 32 + Rs2(w))", "C08"),
    "immU-low": ("RV32", "ImmU(w) == <<w[1], (w[2] \\div 4096) * 4096>>", "ImmU(w) == <<w[1], (w[2] \\div 2048) * 2048>>", "C04"),
    "immB-bit11": ("RV32", "LET v == (Rd(w) % 2) * 2048 +", "LET v == (Rd(w) % 2) * 1024 +", "C05"),
    "immJ-bit11": ("RV32", "((w[1] \\div 16) % 2) * 2048", "((w[1] \\div 16) % 2) * 0", "C06"),
    "immJ-sign": ("RV32", "THEN <<65520 + hi, lo>>", "THEN <<hi, lo>>", "C06"),
    "add-carry": ("Word32", "Add(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \\div Half) % Half", "Add(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1]) % Half", "C02"),
    "sub-borrow": ("Word32", "Sub(a, b) == LET lo == a[2] - b[2] IN <<(a[1] - b[1] + lo \\div Half) % Half", "Sub(a, b) == LET lo == a[2] - b[2] IN <<(a[1] - b[1]) % Half", "C02"),
    "ltu-low": ("Word32", "Ltu(a, b) == a[1] < b[1] \\/ (a[1] = b[1] /\\ a[2] < b[2])", "Ltu(a, b) == a[1] < b[1] \\/ (a[1] = b[1] /\\ a[2] <= b[2])", "C05"),
    "lts-low-signed": ("Word32", "(a[1] = b[1] /\\ a[2] < b[2])\n\n", "(a[1] = b[1] /\\ SHalf(a[2]) < SHalf(b[2]))\n\n", "C02"),
    "sll-16": ("Word32", "Sll(a, n) == IF n >= 16 THEN <<(a[2] * P2(n - 16)) % Half, 0>>", "Sll(a, n) == IF n > 16 THEN <<(a[2] * P2(n - 16)) % Half, 0>>", "C03"),
    "srl-cross": ("Word32", "(a[1] % P2(n)) * P2(16 - n)", "(a[1] % P2(n)) * P2(15 - n)", "C03"),
    "sra-zero-fill": ("Word32", "Sra(a, n) == IF a[1] < 32768 THEN Srl(a, n) ELSE WNot(Srl(WNot(a), n))", "Sra(a, n) == Srl(a, n)", "C03"),
    "byte-order": ("Word32", "[] off = 2 -> a[1] % 256 [] OTHER -> a[1] \\div 256", "[] off = 3 -> a[1] % 256 [] OTHER -> a[1] \\div 256", "C07"),
    "lbu-signed": ("RV32", "f3 = 4 -> Small(ByteOf(d, off))", "f3 = 4 -> SextByte(ByteOf(d, off))", "C07"),
    "lhu-signed": ("RV32", "f3 = 5 -> Small(HalfOf(d, off))", "f3 = 5 -> SextHalf(HalfOf(d, off))", "C07"),
    "sh-lane": ("RV32", "[] Size(f3) = 1 -> HalfOf(d, off) = v[2]", "[] Size(f3) = 1 -> d[2] = v[2]", "C08"),
    "sb-lane": ("RV32", "CASE Size(f3) = 0 -> ByteOf(d, off) = v[2] % 256", "CASE Size(f3) = 0 -> ByteOf(d, off) = v[2] \\div 256", "C08"),
    "sel-half": ("RV32", "IF adr[2] % 4 = 0 THEN 3 ELSE 12", "IF adr[2] % 2 = 0 THEN 3 ELSE 12", "C08"),
    "half-never-misaligned": ("RV32", "Misaligned(f3, adr) == \\/ Size(f3) = 1 /\\ adr[2] % 2 = 1\n                       \\/", "Misaligned(f3, adr) ==", "C09"),
    "store-cause": ("RV32", "StoreMisaligned == Small(6)", "StoreMisaligned == Small(4)", "C09"),
    "jump-align-2": ("RV32", "IF t[2] % 4 # 0 THEN Trap(c, pc, InsnMisaligned)\n                      ELSE Ok(t, Rd(w), next, c)\n    [] op = OpBranch", "IF t[2] % 2 # 0 THEN Trap(c, pc, InsnMisaligned)\n                      ELSE Ok(t, Rd(w), next, c)\n    [] op = OpBranch", "C10"),
    "branch-traps-untaken": ("RV32", "[] op = OpBranch -> IF ~Taken(f3, a, b) THEN", "[] op = OpBranch -> IF ~Taken(f3, a, b) /\\ Add(pc, ImmB(w))[2] % 4 = 0 THEN", "C10"),
    "jalr-keeps-bit0": ("RV32", "t == <<s[1], s[2] - (s[2] % 2)>> IN\n                      IF t", "t == s IN\n                      IF t", "C10"),
    "jal-link": ("RV32", "ELSE Ok(t, Rd(w), next, c)\n    [] op = OpJalr", "ELSE Ok(t, Rd(w), pc, c)\n    [] op = OpJalr", "C06"),
    "legal-slli": ("RV32", "CASE f3 = 1 -> f7 = 0 [] f3 = 5", "CASE f3 = 1 -> f7 \\in {0, 32} [] f3 = 5", "C11"),
    "legal-sub-any": ("RV32", "(f7 = 32 /\\ f3 \\in {0, 5})", "(f7 = 32 /\\ f3 \\in {0, 4, 5})", "C11"),
    "legal-fencei": ("RV32", "[] op = OpFence -> f3 = 0\n", "[] op = OpFence -> f3 \\in {0, 1}\n", "C11"),
    "legal-uret": ("RV32", "w \\in {WEcall, WEbreak, WMret, WWfi}", "w \\in {WEcall, WEbreak, WMret, WWfi, <<32, 115>>}", "C11"),
    "csr-misa-missing": ("RV32", "\\/ a \\in {769, 784, 835, 800}", "\\/ a \\in {784, 835, 800}", "C12"),
    "csr-hpm-last": ("RV32", "a \\in 2947..2975", "a \\in 2947..2974", "C12"),
    "csr-ro-writable": ("RV32", "~(CsrReadOnly(F12(w)) /\\ CsrWrites(w))", "TRUE", "C12"),
    "csr-set-x0-writes": ("RV32", "CsrWrites(w) == F3(w) \\in {1, 5} \\/ Rs1(w) # 0", "CsrWrites(w) == TRUE", "C12"),
    "csr-clear": ("RV32", "[] OTHER -> WAnd(old, WNot(src))", "[] OTHER -> WXor(old, src)", "C13"),
    "csr-imm-reg": ("RV32", "src == IF f3 >= 5 THEN", "src == IF f3 > 5 THEN", "C13"),
    "mtvec-mode": ("RV32", "[c EXCEPT !.mtvec = AlignDown4(v)]", "[c EXCEPT !.mtvec = v]", "C13"),
    "mepc-low": ("RV32", "[c EXCEPT !.mepc = AlignDown4(v)]", "[c EXCEPT !.mepc = v]", "C13"),
    "mstatus-mpp": ("RV32", "<<0, 6144 + 128 * c.mpie + 8 * c.mie>>", "<<0, 128 * c.mpie + 8 * c.mie>>", "C13"),
    "mip-reads-meie": ("RV32", "[] a = MIP -> <<0, 2048 * irq>>", "[] a = MIP -> <<0, 2048 * irq * c.meie>>", "C17"),
    "trap-mpie": ("RV32", "!.mpie = c.mie, !.mie = 0]", "!.mpie = 1, !.mie = 0]", "C25"),
    "trap-mie": ("RV32", "!.mcause = cause, !.mpie = c.mie, !.mie = 0]", "!.mcause = cause, !.mpie = c.mie]", "MCTraps"),
    "mret-mpie": ("RV32", "LeaveTrap(c) == [c EXCEPT !.mie = c.mpie, !.mpie = 1]", "LeaveTrap(c) == [c EXCEPT !.mie = c.mpie]", "C15"),
    "mret-mie": ("RV32", "LeaveTrap(c) == [c EXCEPT !.mie = c.mpie, !.mpie = 1]", "LeaveTrap(c) == [c EXCEPT !.mie = 1, !.mpie = 1]", "MCTraps"),
    "int-ignores-meie": ("RV32", "IntEnabled(c) == c.mie = 1 /\\ c.meie = 1", "IntEnabled(c) == c.mie = 1", "C16"),
    "int-mepc-next": ("Sentinel", "c' = EnterTrap(c, pc, ExtInterrupt)", "c' = EnterTrap(c, Add(pc, Four), ExtInterrupt)", "MCResume"),
    "int-lost": ("Sentinel", "TakeInterrupt ==\n  /\\ c' = EnterTrap(c, pc, ExtInterrupt)\n  /\\ pc' = c.mtvec", "TakeInterrupt ==\n  /\\ c' = c\n  /\\ pc' = Add(pc, Four)", "C16"),
    "int-cause": ("RV32", "ExtInterrupt == <<32768, 11>>", "ExtInterrupt == <<0, 11>>", "C16"),
    "reset-mie": ("Sentinel", "[mie |-> 0, mpie |-> p", "[mie |-> p, mpie |-> p", "C01"),
    "reset-pc": ("Sentinel", "/\\ pc' = Zero\n  /\\ x' = xs", "/\\ pc' = tvec\n  /\\ x' = xs", "C01"),
    "ecall-cause": ("RV32", "EcallM == Small(11)", "EcallM == Small(8)", "C14"),
    "fence-rd": ("RV32", "[] op = OpFence -> Ok(next, 0, Zero, c)", "[] op = OpFence -> Ok(next, 5, Zero, c)", "C14"),
    "wfi-traps": ("RV32", "[] w = WWfi -> Ok(next, 0, Zero, c)", "[] w = WWfi -> Trap(c, pc, IllegalInsn)", "C14"),
    "x0-written": ("RV32", "SetReg(x, r, v) == IF r = 0 THEN x ELSE [x EXCEPT ![r] = v]", "SetReg(x, r, v) == IF r = 0 THEN [x EXCEPT ![1] = v] ELSE [x EXCEPT ![r] = v]", "C18"),
    "load-keeps-phase": ("Sentinel", "/\\ x' = SetReg(x, ph[4][2], LoadVal(ph[2], ph[3], d))\n  /\\ ph' = FetchPhase", "/\\ x' = SetReg(x, ph[4][2], LoadVal(ph[2], ph[3], d))\n  /\\ ph' = IF ph[4][2] = 0 THEN ph ELSE FetchPhase", "C20"),
    "misaligned-store-goes": ("RV32", "IF Misaligned(f3, adr) THEN Trap(c, pc, StoreMisaligned)\n                       ELSE", "IF FALSE THEN Trap(c, pc, StoreMisaligned)\n                       ELSE", "C25"),
    "load-looks-aside": ("RV32", "f3 = 1 -> SextHalf(HalfOf(d, off))", "f3 = 1 -> <<d[1], HalfOf(d, off)>>", "C21"),
    "clocks-shift": ("Sentinel", "7 + 2 * amt ELSE", "7 + amt ELSE", "C22"),
    "clocks-branch": ("Sentinel", "THEN 8 ELSE 7\n", "THEN 9 ELSE 8\n", "C22"),
    "pc-carry": ("RV32", "[] op = OpLui -> Ok(next,", "[] op = OpLui -> Ok(<<pc[1], (pc[2] + 4) % 65536>>,", "C27"),
    "alu-clobbers": ("RV32", "[] op = OpReg -> Ok(next, Rd(w), AluOp(f3, F7(w) = 32, a, b), c)", "[] op = OpReg -> Ok(next, Rd(w), AluOp(f3, F7(w) = 32, a, b), [c EXCEPT !.mcause = a])", "C24"),
    "csr-neighbour": ("RV32", "[] a = MSCRATCH -> [c EXCEPT !.mscratch = v]", "[] a = MSCRATCH -> [c EXCEPT !.mscratch = v, !.mepc = AlignDown4(v)]", "C13"),
    "wb-change": ("WishboneBus", '[] st = "busy" /\\ cyc = 0 -> "request dropped before ack"', "", "MCWishbone"),
    "wb-rest": ("WishboneBus", '[] st = "rest" /\\ cyc = 1 -> "request not dropped after ack"', "", "MCWishbone"),
    "wb-reset": ("WishboneBus", 'CASE cyc # stb -> "cyc and stb differ"\n    [] st = "reset" /\\ cyc = 1 -> "request during reset"', 'CASE cyc # stb -> "cyc and stb differ"', "MCWishbone"),
}


def one(t):
    name, (f, old, new, who) = t
    d = Path(tempfile.mkdtemp(prefix="mutspec-"))
    try:
        spec = d / "spec"
        shutil.copytree(V / "spec", spec)
        p = spec / f"{f}.tla"
        s = p.read_text()
        if s.count(old) != 1:
            return f"{name}: matches {s.count(old)} times"
        p.write_text(s.replace(old, new))
        core.SPEC = spec
        with core.Work() as w:
            mod = "MCSentinel" if who.startswith("C") else who
            env = dict(FOCUS=who, DEPTH=str(FOCUS[who][0]), BIG="0") if mod == "MCSentinel" else dict(TOUR="")
            rc, out = tlc(w, spec, mod, env)
        bad = [ln for ln in out.splitlines() if "is violated" in ln or "Overflow" in ln or "Assumption" in ln or "is not satisfied" in ln]
        err = [ln for ln in out.splitlines() if "Error" in ln]
        return f"{name}: " + (f"caught by {who} ({bad[0][:90]})" if rc and bad else f"caught? {who} rc={rc} {err[:2]}" if rc else f"MISSED by {who} <<<<")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc(w, spec, mod, env):
    import subprocess
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx4g", "-Xss64m", "-cp",
           f"{core.TLA}/tla2tools.jar:{core.TLA}/CommunityModules-deps.jar", f"-DTLA-Library={spec}", "tlc2.TLC",
           "-workers", "2", "-metadir", str(w.dir / "m"), "-noGenerateSpecTE", "-config", f"{mod}.cfg", f"{mod}.tla"]
    r = subprocess.run(cmd, cwd=spec, env=dict(os.environ, **env), capture_output=True, text=True)
    return r.returncode, r.stdout


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=3)
    a.add_argument("names", nargs="*")
    args = a.parse_args()
    todo = [(n, m) for n, m in M.items() if not args.names or n in args.names]
    with ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(one, todo):
            print(r, flush=True)


main()
