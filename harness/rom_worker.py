"""Replays UcodeProgram cases into the real UCodeROM (runs in the project's
Python).  usage: rom_worker.py configs.json cases.ndjson out.ndjson seed
"""
import enum
import json
import random
import re
import sys
import tempfile
import warnings
from io import StringIO
from pathlib import Path

warnings.simplefilter("ignore")
from amaranth import Module, unsigned
from amaranth.sim import Simulator
from sentinel.ucoderom import UCodeROM

OPS = "abcd"


class Op(enum.Enum):
    A = 0
    B = 1
    C = 2
    D = 3


def source(case, conf):
    """Program text from the statements of a case."""
    out = [f"space block_ram: width {conf['width']}, size {conf['size']};",
           "space block_ram;", "origin 0;", "fields block_ram: {"]
    fs = [(conf["toff"], f"  jump: width {conf['twidth']}, origin {conf['toff']}, default {conf['tdef']};"),
          (conf["ooff"], f"  op: enum {{ a = 0; b = 1; c = 2; d = 3; }}, origin {conf['ooff']}, default {OPS[conf['odef']]};"),
          (conf["foff"], f"  flag: bool, origin {conf['foff']}, default {conf['fdef']};")]
    out += [t for _, t in sorted(fs)] + ["};", f"macro mac: {{ op => {OPS[conf['macro']]} }};"]
    for k, st in enumerate(case["prog"]):
        if st["s"] == "org":
            out.append(f"origin {st['a']};" if k % 2 else f"origin 0x{st['a']:x};")
        elif st["s"] == "space":
            out.append("space other: width 4, size 4;")
        else:
            p = []
            if st["t"]["k"] == "num":
                p.append(f"jump => {st['t']['n']}")
            elif st["t"]["k"] == "label":
                p.append(f"jump => {st['t']['l']}")
            if st["o"]["k"] == "sym":
                p.append(f"op => {OPS[st['o']['v']]}")
            elif st["o"]["k"] == "macro":
                p.append("mac")
            if st["f"] >= 0:
                p.append(f"flag => {'true' if st['f'] else 'false'}")
            if k % 3 == 1:
                p.reverse()
            out.append("".join(l + ": " for l in st["labels"]) + ", ".join(p) + ";" + ("  // end" if k % 2 else ""))
    return "\n".join(out) + "\n"


def read_hex(path):
    mem, at = {}, 0
    for ln in Path(path).read_text().split():
        if ln[0] == "@":
            at = int(ln[1:], 16)
            continue
        if at in mem:
            raise ValueError(f"address {at:#x} is listed twice")
        mem[at] = int(ln, 16)
        at += 1
    return mem


def read_fdef(path):
    txt = Path(path).read_text()
    fields = {m[1]: (int(m[2]), int(m[3]), bool(m[4]), dict((a, int(b)) for a, b in re.findall(r"(\w+) = (\d+)", m[5] or "")))
              for m in re.finditer(r"field (\w+) lsb (\d+) width (\d+)( enum\n((?:  .*\n)*)end)?", txt)}
    m = re.search(r"word width (\d+)", txt)
    return (int(m[1]) if m else None), fields


def construct(case, conf, how, tmp, n, text):
    """(rom, hex path, fdef path)"""
    kw = dict(field_map={"jump": unsigned(conf["twidth"]), "op": Op, "flag": unsigned(1)})
    hx = fd = None
    if how & 1:
        hx = tmp / f"{n}.hex"
        kw["hex"] = hx if how & 4 else str(hx)
    if how & 2:
        fd = tmp / f"{n}.fdef"
        kw["field_defs"] = fd if how & 4 else str(fd)
    kind = (how >> 3) % 3
    if kind == 0:
        rom = UCodeROM(main_file=StringIO(text), **kw)
    else:
        p = tmp / f"{n}.asm"
        p.write_text(text)
        if kind == 1:
            rom = UCodeROM(main_file=p, **kw)
        else:
            with open(p) as f:
                rom = UCodeROM(main_file=f, **kw)
    return rom, hx, fd


def check_files(case, conf, hx, fd):
    placed = set(case["placed"])
    if hx:
        want = {a: case["memory"][a] for a in placed}
        try:
            got = read_hex(hx)
        except OSError as e:
            return f"no hex listing was written: {e}"
        if got != want:
            bad = [a for a in sorted(set(got) | set(want)) if got.get(a) != want.get(a)]
            return f"hex listing, address {bad[0]:#x}: {got.get(bad[0])}, assembled {want.get(bad[0])}"
    if fd:
        try:
            w, got = read_fdef(fd)
        except OSError as e:
            return f"no field definitions were written: {e}"
        want = {"jump": (conf["toff"], conf["twidth"], False, {}), "op": (conf["ooff"], 2, True, dict(a=0, b=1, c=2, d=3)),
                "flag": (conf["foff"], 1, True, dict(false=0, true=1))}
        if w != conf["width"]:
            return f"field definitions: word width {w}, declared {conf['width']}"
        if got != want:
            return f"field definitions: {got}, declared {want}"
    return None


def simulate(roms, rng):
    """All ROMs side by side in one design; roms: (key, rom, case).
    Returns {key: text} for the wrong ones."""
    wrong = {}
    m = Module()
    for k, rom, _ in roms:
        m.submodules[f"rom{k}"] = rom
    steps = max(len(c["fields"]) for _, _, c in roms)
    walks = {}
    for k, _, c in roms:
        n = len(c["fields"])
        order = list(range(n))
        rng.shuffle(order)
        walks[k] = order + [rng.randrange(n) for _ in range(steps + 4 - n)]

    async def tb(ctx):
        for t in range(steps + 4):
            for k, rom, c in roms:
                before = ctx.get(rom.fields.as_value())
                ctx.set(rom.addr, walks[k][t])
                # the word is read at the next clock edge
                if ctx.get(rom.fields.as_value()) != before:
                    wrong.setdefault(k, f"the word follows the address without a clock edge (address {walks[k][t]:#x})")
            await ctx.tick()
            for k, rom, c in roms:
                want = c["fields"][walks[k][t]]
                got = {}
                for n, f in (("t", "jump"), ("o", "op"), ("f", "flag")):
                    v = ctx.get(getattr(rom.fields, f))
                    got[n] = int(v.value if isinstance(v, enum.Enum) else v)
                if got != want:
                    wrong.setdefault(k, f"address {walks[k][t]:#x}: the ROM gives {got}, assembled {want}")
    sim = Simulator(m)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return wrong


def main():
    confs = json.load(open(sys.argv[1]))
    seed = sys.argv[4]
    cases = [json.loads(ln) for ln in open(sys.argv[2])]
    rng = random.Random(f"{seed}:{sys.argv[2][-2:]}")
    res = [None] * len(cases)
    own = dict(UCodeROM.field_map)
    with tempfile.TemporaryDirectory() as td:
        tmp = Path(td)
        built = []
        for n, case in enumerate(cases):
            conf = confs[case["cfg"] - 1]
            text = source(case, conf)
            how = rng.randrange(24)
            try:
                rom, hx, fd = construct(case, conf, how, tmp, n, text)
            except Exception as e:
                res[n] = dict(accepted=False, error=f"{type(e).__name__}: {e}"[:160], text=text, how=how)
                continue
            res[n] = dict(accepted=True, text=text, how=how)
            if not case["accept"]:
                continue
            w = check_files(case, conf, hx, fd)
            if not w and len(rom.addr) != case["addrwidth"]:
                w = f"{len(rom.addr)} address bits for {conf['size']} words"
            if w:
                res[n]["wrong"] = w
            else:
                built.append((n, rom, case))
        for i in range(0, len(built), 40):
            part = built[i:i + 40]
            try:
                wrong = simulate(part, rng)
            except Exception as e:
                # find out which ones
                wrong = {}
                for p in part:
                    try:
                        wrong.update(simulate([p], rng))
                    except Exception as e1:
                        wrong[p[0]] = f"the ROM cannot be simulated: {type(e1).__name__}: {e1}"[:200]
                if not wrong:
                    wrong[part[0][0]] = f"ROMs cannot share a design: {type(e).__name__}: {e}"[:200]
            for k, w in wrong.items():
                res[k]["wrong"] = w
        # nothing of the above may stick to the default microcode
        last = dict(accepted=True, text="(default microcode after the others)", how=-1)
        try:
            UCodeROM()
        except Exception as e:
            last = dict(last, accepted=False, error=f"{type(e).__name__}: {e}"[:160])
        if dict(UCodeROM.field_map) != own:
            last["wrong"] = "the default field map was changed by a ROM with its own"
    with open(sys.argv[3], "w") as out:
        for r in res + [last]:
            out.write(json.dumps(r) + "\n")


main()
