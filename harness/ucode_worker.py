"""Replays UcodeLayout cases into the real UCodeROM (runs in the project's
Python).  usage: ucode_worker.py configs.json cases.ndjson out.ndjson
       or      : ucode_worker.py --real out.json   (describe the real microcode)
"""
import enum
import json
import random
import sys
import warnings
from io import StringIO

warnings.simplefilter("ignore")
from amaranth import Fragment, Shape, unsigned
from amaranth.lib import enum as am_enum
from amaranth.sim import Simulator
from m5meta import M5Meta
from m5pre import M5Pre
from sentinel.ucoderom import UCodeROM


def describe_hw(fm):
    hw = []
    for n, cls in fm.items():
        if isinstance(cls, enum.EnumMeta):
            hw.append(dict(name=n, kind="enum", width=Shape.cast(cls).width,
                           members=[dict(n=k.lower(), v=m.value) for k, m in cls.__members__.items()],
                           canon=[m.name.lower() for m in cls]))
        else:
            hw.append(dict(name=n, kind="plain", width=Shape.cast(cls).width, members=[], canon=[]))
    return hw


def parse(text):
    m = M5Meta(StringIO(text), obj_base_fn="x")
    m.src = M5Pre(StringIO(text)).read()
    for p in (1, 2):
        m.pass_num = p
        m.pass12()
    sp = next(iter(m.spaces.values()))
    sp.generate_object()
    return sp


def real():
    path = UCodeROM.main_microcode_file()
    sp = parse(open(path).read())
    decl = []
    for f in sp.fields.values():
        if f.enum is None:
            k, mem = "plain", []
        elif f.enum == {"false": 0, "true": 1}:
            k, mem = "bool", []
        else:
            k, mem = "enum", [dict(n=n, v=v) for n, v in f.enum.items()]
        decl.append(dict(name=f.name, kind=k, width=-1 if k != "plain" else f.width, members=mem, origin=-1))
    return dict(hw=describe_hw(UCodeROM.field_map), decl=decl, width=sp.width,
                depth=sp.size, real=True,
                defaults={f.name: f.default for f in sp.fields.values()})


def make_map(hw):
    fm = {}
    for h in hw:
        if h["kind"] == "plain":
            fm[h["name"]] = unsigned(h["width"])
        else:
            body = [(m["n"].upper(), m["v"]) for m in h["members"]]
            cls = enum.Enum(h["name"].capitalize(), body)
            if Shape.cast(cls).width != h["width"]:
                class_dict = am_enum.EnumType.__prepare__(h["name"].capitalize(), (am_enum.Enum,), shape=h["width"])
                for n, v in body:
                    class_dict[n] = v
                cls = am_enum.EnumType(h["name"].capitalize(), (am_enum.Enum,), class_dict, shape=h["width"])
            fm[h["name"]] = cls
    return fm


def fields_text(decl, defaults=None):
    out = []
    for f in decl:
        a = []
        if f["kind"] == "bool":
            a.append("bool")
        if f["kind"] == "enum":
            a.append("enum { " + "".join(f"{m['n']} = {m['v']}; " for m in f["members"]) + "}")
        if f["width"] >= 0 and f["kind"] != "bool":
            a.append(f"width {f['width']}")
        if f["origin"] >= 0:
            a.append(f"origin {f['origin']}")
        if defaults:
            if defaults.get(f["name"]) is not None:
                a.append(f"default {defaults[f['name']]}")
        else:
            a.append(f"default {f['members'][0]['n'] if f['kind'] == 'enum' else 0}")
        out.append(f"  {f['name']}: {', '.join(a)};")
    return "\n".join(out)


def words(decl, rng, n):
    """n instructions: (text, {field: value})"""
    res = []
    for k in range(n):
        parts, vals = [], {}
        for f in decl:
            w = 1 if f["kind"] == "bool" else f["width"]
            if f["kind"] == "enum":
                m = rng.choice(f["members"])
                tx, v, dv = m["n"], m["v"], f["members"][0]["v"]
            else:
                v = rng.randrange(1 << max(w, 1)) if k else (1 << max(w, 1)) - 1
                tx, dv = ("true" if v else "false") if f["kind"] == "bool" else str(v), 0
            if f["kind"] != "bool" and rng.random() < .25 and k:
                vals[f["name"]] = dv
                continue
            if f["kind"] == "bool" and rng.random() < .25 and k:
                vals[f["name"]] = 0
                continue
            parts.append(f"{f['name']} => {tx}")
            vals[f["name"]] = v
        if not parts:
            f = decl[0]
            parts = [f"{f['name']} => 0"]
            vals[f["name"]] = 0
        res.append((", ".join(parts) + ";", vals))
    return res


HEAD = "space block_ram: width %d, size %d;\nspace block_ram;\norigin 0;\nfields block_ram: {\n%s\n};\n%s\n"


def hw_values(rom, addrs, names, raw=False):
    """What the elaborated ROM puts on its field outputs."""
    got = []
    lay = rom.fields.shape()
    where = {n: (lay[n].offset, lay[n].width) for n in names}

    async def tb(ctx):
        for a in addrs:
            ctx.set(rom.addr, a)
            await ctx.tick()
            ent = {}
            if raw:
                w = ctx.get(rom.fields.as_value())
                got.append({n: w >> o & ((1 << k) - 1) for n, (o, k) in where.items()})
                continue
            for n in names:
                v = ctx.get(getattr(rom.fields, n))
                if isinstance(v, enum.Enum):
                    v = v.value
                ent[n] = int(v)
            got.append(ent)
    sim = Simulator(rom)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return got


def replay(case, conf, seed):
    rng = random.Random(f"{seed}:{json.dumps(case['decl'])}:{case['width']}")
    decl = case["decl"]
    fm = UCodeROM.field_map if conf.get("real") else make_map(conf["hw"])
    ws = words(decl, rng, 4)
    text = HEAD % (case["width"], 8, fields_text(decl), "\n".join(t for t, _ in ws))
    try:
        kw = {} if conf.get("real") else dict(field_map=fm)
        rom = UCodeROM(main_file=StringIO(text), **kw)
    except Exception as e:
        return dict(accepted=False, error=f"{type(e).__name__}: {e}"[:160], text=text)
    res = dict(accepted=True, text=text)
    if case["accept"]:
        try:
            got = hw_values(rom, range(len(ws)), [f["name"] for f in decl])
        except Exception as e:
            return dict(res, wrong=f"the ROM cannot be elaborated: {type(e).__name__}: {e}"[:200])
        for k, (t, vals) in enumerate(ws):
            for n, v in vals.items():
                if got[k][n] != v:
                    return dict(res, wrong=f"word {k} ({t}) field {n}: hardware reads {got[k][n]}, assembled {v}")
    else:
        Fragment.get(rom, None)
    return res


def whole_file(case, conf, seed, body, ref):
    """An accepted edit of the real declaration, with the real program."""
    text = HEAD % (case["width"], conf["depth"], fields_text(case["decl"], conf["defaults"]), body)
    try:
        rom = UCodeROM(main_file=StringIO(text))
    except Exception as e:
        return dict(accepted=False, error=f"{type(e).__name__}: {e}"[:160], text="(whole microcode file)")
    names = [f["name"] for f in case["decl"]]
    try:
        got = hw_values(rom, range(conf["depth"]), names, raw=True)
    except Exception as e:
        return dict(accepted=True, text="(whole microcode file)",
                    wrong=f"the ROM cannot be elaborated: {type(e).__name__}: {e}"[:200])
    for a in range(conf["depth"]):
        if a not in ref:      # never assembled: the ROM holds zeros
            continue
        for n in names:
            if got[a][n] != ref[a][n]:
                return dict(accepted=True, text="(whole microcode file)",
                            wrong=f"address {a:#x} field {n}: hardware reads {got[a][n]}, assembled {ref[a][n]}")
    return dict(accepted=True, text="(whole microcode file)")


def cpu(case, conf):
    """Is a control unit built from this declaration refused?"""
    from sentinel.control import Control
    from amaranth.back import rtlil
    text = HEAD % (case["width"], conf["depth"], fields_text(case["decl"]), words(case["decl"], random.Random(1), 1)[0][0])
    try:
        rtlil.convert(Control(ucode=StringIO(text)))
    except Exception as e:
        return dict(accepted=False, error=f"{type(e).__name__}: {e}"[:160], text=text)
    return dict(accepted=True, text=text)


def main():
    if sys.argv[1] == "--real":
        json.dump(real(), open(sys.argv[2], "w"))
        return
    confs = json.load(open(sys.argv[1]))
    seed = sys.argv[4]
    ref = body = None
    with open(sys.argv[3], "w") as out:
        for ln in open(sys.argv[2]):
            case = json.loads(ln)
            conf = confs[case["cfg"] - 1]
            how = case.get("how", "small")
            if how == "small":
                r = replay(case, conf, seed)
            elif how == "cpu":
                r = cpu(case, conf)
            else:
                if ref is None:
                    src = open(UCodeROM.main_microcode_file()).read()
                    body = M5Pre(StringIO(src)).read()
                    i = body.index("fields block_ram")
                    body = body[fields_end(body, i):]
                    sp = parse(src)
                    ref = {int(a): {n: w >> f.origin & ((1 << f.width) - 1) for n, f in sp.fields.items()}
                           for a, w in sp.data.items()}
                r = whole_file(case, conf, seed, body, ref)
            out.write(json.dumps(r) + "\n")
            out.flush()


def fields_end(s, i):
    depth = 0
    for j in range(s.index("{", i), len(s)):
        if s[j] == "{":
            depth += 1
        elif s[j] == "}":
            depth -= 1
            if depth == 0:
                return s.index(";", j) + 1
    raise ValueError("no end of the field block")


main()
