#!/usr/bin/env python3
"""Writes MANIFEST.json (run after adding or changing a check)."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
TRACE = "TLA+ spec Sentinel.tla; TLC trace validation of runs of the real core (cxxrtl)"
note = ("Every transfer of every recorded run of the real core must be a step of the TLA+ specification (TLC decides). "
        "Exhaustive over the listed finite sets, sampled elsewhere; trusts Amaranth's RTLIL back end, cxxrtl and the slave "
        "assumption (ACK one clock or more after STB rises).")
SPECIAL = {
 "C19": ("TLA+ spec WishboneBus.tla (model-checked in MCWishbone); TLC clock-by-clock trace validation of the real core",
         "Every clock of the recorded runs must be a step of the bus contract. Known finding: zero-wait ACK of an overlapped fetch."),
 "C21": ("TLA+ spec Sentinel.tla; TLC trace validation of the same program under many bus schedules", note +
         " The same instruction stream is run under different ACK delays, idle DAT_R garbage and idle ACK levels; all runs must be behaviours of the timing-free spec and agree."),
 "C22": ("TLA+ spec Sentinel.tla timing operators; TLC trace validation with clock counts", note),
 "C23": ("TLA+ spec SentinelRvfi.tla; TLC trace validation of RVFI reports against the bus trace of the same run", note),
 "C32": ("TLA+ spec SentinelRvfi.tla; TLC trace validation of the RVFI CSR ports against the bus trace of the same run", note),
 "C33": ("TLA+ spec SocPeriph.tla: TLC model-checks its promises for every request schedule (MCSoc.tla) and validates recorded runs of the real peripherals clock by clock",
         "Every clock of each recorded run must be a step of the specification, whose promises hold on small instances for every schedule. Runs are sampled, directed at the clocks around ticks. "
         "The amaranth_soc package is not installed: its decoder is a stand-in; the CSR-bus variants of the peripherals are not run."),
 "C26": ("TLA+ spec Sentinel.tla; TLC trace validation of the generated Verilog's simulation", note +
         " The Verilog is parsed by Yosys and simulated with cxxrtl."),
 "C28": ("TLA+ spec UcodeLayout.tla: TLC enumerates layouts and decides each; every case replayed in the real UCodeROM",
         "TLC enumerates edits of microcode field layouts and says accept or reject with the expected encoding; each case is replayed through the real assembler wrapper. Bounded by the listed edit depth."),
 "C29": ("TLA+ spec UcodeProgram.tla: TLC enumerates microcode sources, decides each and computes its ROM; cases replayed in the real UCodeROM",
         "TLC enumerates short microcode sources and says accept or reject with the memory image; each replayed case is assembled by the real "
         "UCodeROM and the simulated ROM, hex listing and field definitions are compared at every address. Bounded by source length."),
 "C30": ("TLA+ spec Ucode.tla of the microcode machine; TLC clock-by-clock trace validation of the real core running random microprograms",
         "Each clock of each recorded run must be a step of the machine; undocumented results are a value that spreads. Programs are sampled; "
         "trusts Amaranth's RTLIL back end and cxxrtl."),
 "C31": ("TLA+: TLC model-checks that the tree's microprogram on Ucode.tla refines Sentinel.tla (MCUcode.tla); clock-by-clock trace validation binds Ucode to the core",
         "Every run over the listed alphabets ends with an OK or a named mismatch; one instruction from an otherwise unknown machine state is inductive. "
         "Exhaustive over the alphabets (a slice of them in the quick tier), sampled elsewhere."),
}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks = []
for p in props:
    i = p["id"]
    t, n = SPECIAL.get(i, (TRACE, note))
    checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"env VERIF_TIER=thorough bin/check {i}",
                       evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the machinery uses the public ports of Top/FormalTop only."),
          open(V / "MANIFEST.json", "w"), indent=1)
