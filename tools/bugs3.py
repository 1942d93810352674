"""Planted bugs: microcode programs, and a third round over everything."""
from bugs import bug

ROM = '''
import sys, tempfile, os
from io import StringIO
from amaranth import unsigned, Module
from amaranth.sim import Simulator
from sentinel.ucoderom import UCodeROM
from simcore import check

FM = {"jump": unsigned(8), "go": unsigned(1)}


def src(size, body, extra=""):
    return StringIO(f"space rom: width 12, size {size}; {extra} space rom; origin 0;"
                    "fields rom: { jump: width 8, origin 0, default 0; go: bool, origin 10, default 0; };" + body)


def words(rom, addrs):
    got = []

    async def tb(ctx):
        for a in addrs:
            ctx.set(rom.addr, a)
            await ctx.tick()
            got.append(ctx.get(rom.fields.as_value()))
    m = Module()
    m.submodules.rom = rom
    sim = Simulator(m)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return got


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False
'''

bug("C29-depth-rounded-up", "C29",
    "a microcode source whose address space is no power of two and which places an instruction past its end",
    "the memory is rounded up to a power of two and instructions past the end of the address space are accepted",
    [("ucoderom.py", "        self.depth = space.size\n", "        # Block RAMs come in powers of two.\n        self.depth = 1 << ceil_log2(space.size)\n")],
    ROM + '''
check("5 words", words(UCodeROM(main_file=src(5, "jump => 7; origin 4; jump => 9;"), field_map=FM), range(5)), [7, 0, 0, 0, 9])
check("word 8 of 8", refused(lambda: UCodeROM(main_file=src(8, "origin 8; jump => 9;"), field_map=FM)), True)
check("word 5 of 5", refused(lambda: UCodeROM(main_file=src(5, "origin 5; jump => 9;"), field_map=FM)), True)
''')

bug("C29-field-map-leaks", "C29",
    "a ROM with a field map of its own, then one without",
    "a custom field map replaces entries of the default one for every ROM built later",
    [("ucoderom.py", "            self.field_map = field_map\n", "            self.field_map.update(field_map)\n")],
    ROM + '''
UCodeROM()
UCodeROM(main_file=src(4, "jump => 7;"), field_map=dict(FM, target=unsigned(3)))
check("default microcode refused afterwards", refused(UCodeROM), False)
''')

bug("C29-holes-repeat", "C29",
    "a microcode source with addresses between two instructions where nothing is assembled",
    "addresses where nothing was assembled hold the word of the instruction before them instead of zero",
    [("ucoderom.py", "            self.ucode_contents[int(addr)] = space.data[addr]\n",
      "            fill = self.depth - int(addr)\n            self.ucode_contents[int(addr):] = [space.data[addr]] * fill\n")],
    ROM + '''
check("dense", words(UCodeROM(main_file=src(3, "jump => 7; jump => 8; jump => 9;"), field_map=FM), range(3)), [7, 8, 9])
check("sparse", words(UCodeROM(main_file=src(8, "jump => 7; origin 5; jump => 9, go => true;"), field_map=FM), range(8)),
      [7, 0, 0, 0, 0, 0x409, 0, 0])
''')

bug("C29-quiet-second-space", "C29",
    "a source that declares a second address space with no instructions in it",
    "address spaces without instructions are ignored instead of refused",
    [("ucoderom.py", "        if len(self.m5meta.spaces) != 1:\n", "        if sum(bool(s.inst) for s in self.m5meta.spaces.values()) > 1:\n")],
    ROM + '''
check("one space", words(UCodeROM(main_file=src(2, "jump => 7;"), field_map=FM), range(2)), [7, 0])
check("two", refused(lambda: UCodeROM(main_file=src(2, "jump => 7;", "space two: width 4, size 2;"), field_map=FM)), True)
''')

bug("C29-hex-with-fdef-only", "C29",
    "asking for the hex listing without the field definitions",
    "the hex listing is written only when the field definitions are asked for as well",
    [("ucoderom.py", "        if self.hex:\n            space.write_hex_file(self.hex)\n\n        if self.field_defs:\n            with open(self.field_defs, 'w') as f:\n                space.write_fdef(f)\n",
      "        if self.field_defs:\n            with open(self.field_defs, 'w') as f:\n                space.write_fdef(f)\n            if self.hex:\n                space.write_hex_file(self.hex)\n")],
    ROM + '''
with tempfile.TemporaryDirectory() as d:
    for fd in (d + "/a.fdef", None):
        h = d + ("/a.hex" if fd else "/b.hex")
        UCodeROM(main_file=src(4, "jump => 7; origin 3; jump => 9;"), field_map=FM, hex=h, field_defs=fd)
        check(f"hex listing with field definitions {fd}", open(h).read().split() if os.path.exists(h) else None,
              ["@0000", "007", "@0003", "009"] if os.path.exists(h) and open(h).read().startswith("@0000") else ["007", "@0003", "009"])
''')

bug("C29-address-width", "C29",
    "a microcode address space whose size is a power of two plus one",
    "the address bus is too narrow by one bit when the size is one more than a power of two",
    [("ucoderom.py", '            "addr": Out(ceil_log2(self.depth)),\n', '            "addr": Out(max(1, (self.depth - 1).bit_length() if self.depth & 1 == 0 else (self.depth - 2).bit_length())),\n')],
    ROM + '''
for n in (2, 4, 6, 8, 16, 3, 7, 5, 9, 17):
    rom = UCodeROM(main_file=src(n, f"jump => 1; origin {n-1}; jump => 9;"), field_map=FM)
    check(f"first and last of {n}", words(rom, [0, n - 1]), [1, 9])
''')
