"""Runs the example SoC's Wishbone peripherals (examples/attosoc.py) clock by
clock and writes down every pin.  Reads a JSON list of jobs, writes a JSON list
of segments for SocTrace.tla."""
import contextlib
import io
import json
import random
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
jobs = json.load(open(sys.argv[1]))
sys.path.insert(0, sys.argv[3])

from amaranth.hdl import ResetInserter, Signal  # noqa: E402
from amaranth.sim import Simulator  # noqa: E402
import attosoc  # noqa: E402

CHUNK = 100


class Bus:
    """A master that obeys the handshake: request held until ACK, then idle
    for at least one clock."""

    def __init__(self, rng, plan):
        self.rng, self.plan, self.req, self.wait = rng, plan, None, 0

    def clock(self, t, ack_seen, irq):
        """The request of this clock, given ACK in the previous one."""
        if self.req is not None and ack_seen:
            self.req = None
            return None
        if self.req is None:
            self.req = self.plan(t, irq)
        return self.req


def plan_random(rng, gap, ops):
    state = dict(next=rng.randrange(gap + 1))

    def plan(t, irq):
        if t < state["next"]:
            return None
        state["next"] = t + rng.randrange(gap + 1)
        return ops(rng)
    return plan


def frames(rng, div, n, bits, noise):
    """A waveform for the rx pin: idle, start, data, stop, with jitter."""
    w = []
    while len(w) < n:
        w += [1] * rng.choice([0, 1, div // 2, div, 3 * div, rng.randrange(12 * div)])
        if noise and rng.random() < .2:
            w += [rng.randrange(2) for _ in range(rng.randrange(1, 3 * div))]
        per = div + rng.choice([0, 0, 0, 1, -1] if div >= 16 else [0])
        byte = rng.choice([0, 255, 0x55, 0xAA, 1, 128, rng.randrange(256)])
        for b in [0] + [byte >> i & 1 for i in range(bits)] + [1]:
            w += [b] * per
    return w[:n]


def run(job):
    rng = random.Random(job["seed"])
    kind, n, div = job["kind"], job["n"], job.get("div", 0)
    init = []
    if kind == "mem":
        dut = attosoc.WBMemory(num_bytes=job["words"] * 4)
        init = [rng.randrange(1 << 32) for _ in range(job["words"] - job["words"] // 4)]
        dut.init = init
        init = init + [0] * (job["words"] - len(init))
    elif kind == "leds":
        dut = attosoc.WBLeds()
    elif kind == "timer":
        dut = attosoc.WBTimer()
    else:
        dut = attosoc.WBSerial()
        if div:
            dut.serial = attosoc.UART(divisor=div)
        else:
            div = 1250                      # what the example says: 12 MHz, 9600 baud
    rst = Signal()
    sim = Simulator(ResetInserter(rst)(dut))
    sim.add_clock(1e-6)
    events = []

    def value():
        return rng.choice([0, 1, 0xFFFFFFFF, 0x80000000, 1 << rng.randrange(32), rng.randrange(1 << 32), rng.randrange(1 << 32)])

    sweep = []                      # every byte to every address, in some order
    if job.get("sweep"):
        sweep = [[1, 1, a, v] for a in range(4 if kind == "leds" else 1) for v in range(256)]
        rng.shuffle(sweep)

    def byte():
        return sweep.pop()[3] if sweep else rng.randrange(256)

    def ops(r, own=True):
        if kind == "leds" and sweep and own:
            return sweep.pop() if r.random() < .8 else [0, 1, r.randrange(4), value() & 255]
        if kind == "mem":
            hot = job["hot"]
            a = r.choice([r.randrange(job["words"]), r.randrange(hot), 0, job["words"] - 1])
            return [r.randrange(2), r.choice([15, 15, 1, 2, 4, 8, 3, 12, r.randrange(16)]), a, value()]
        if kind == "leds":
            return [r.choice([0, 1, 1]), r.choice([1, 1, 1, 0]), r.randrange(4), value() & 255]
        if kind == "timer":
            return [r.choice([0, 0, 0, 1]), r.choice([1, 1, 1, 0]), 0, value() & 255]
        return [r.choice([0, 0, 1]), r.choice([1, 1, 1, 1, 0]), r.randrange(2), value() & 255]

    if job.get("near"):             # requests around the clocks a tick comes
        at, todo = set(), []
        for k in range(1, n // 16384 + 1):
            if rng.random() < .85:
                at.add(k * 16384 + rng.choice(job["near"]))
            while rng.random() < .3:
                at.add(k * 16384 + rng.randrange(-9000, 9000))

        def plan(t, irq):
            return [0, 1, 0, 0] if t in at else None
    elif job.get("driver"):         # software: wait for the interrupt, serve it
        q = []

        def plan(t, irq):
            if q:
                return q.pop(0)
            if irq and rng.random() < job["driver"]:
                q.extend([[0, 1, 0, 0]] if rng.random() < .9 else [])
                q.extend([[1, 1, 0, byte()]] if rng.random() < .8 else [])
                return [0, 1, 1, 0]
            if rng.random() < .002:
                return [1, 1, 0, rng.randrange(256)]
            return None
    else:
        plan = plan_random(rng, job["gap"], ops)
    bus = Bus(rng, plan)
    wave = frames(rng, div, n, 8, job.get("noise")) if kind == "serial" and not job.get("loop") else None
    resets = {rng.randrange(n) for _ in range(job.get("resets", 0))}

    async def tb(ctx):
        ack, req, gpio, irq, tx = 0, None, rng.randrange(256), 0, 1
        left = 0
        for t in range(n):
            if left == 0 and t in resets and bus.req is None:
                left = rng.randrange(1, 3)
            if left:
                left -= 1
                r, req = 1, None
            else:
                r, req = 0, bus.clock(t, ack, irq)
            ctx.set(rst, r)
            b = dut.bus
            stb = cyc = req is not None
            we, sel, adr, dat = req or [0, 1, 0, 0]
            if req is None and rng.random() < .15:      # somebody else is meant, or nobody
                stb, cyc = rng.choice([(1, 0), (1, 0), (0, 1), (0, 0)])
                we, sel, adr, dat = ops(rng, False)
                if rng.random() < .6:
                    we, sel = 1, 15
            ctx.set(b.stb, stb)
            ctx.set(b.cyc, cyc)
            ctx.set(b.we, we)
            ctx.set(b.sel, sel)
            ctx.set(b.adr, adr)
            ctx.set(b.dat_w, dat)
            rx, leds, o, oe, irq = 1, 0, 0, 0, 0
            if kind == "leds":
                if rng.random() < .3:
                    gpio = rng.randrange(256)
                for i in range(8):
                    ctx.set(dut.gpio[i].i, gpio >> i & 1)
            if kind == "serial":
                rx = wave[t] if wave else ctx.get(dut.tx)
                ctx.set(dut.rx, rx)
            ack, q = ctx.get(b.ack), ctx.get(b.dat_r)
            if kind == "leds":
                leds = ctx.get(dut.leds)
                o = sum(ctx.get(dut.gpio[i].o) << i for i in range(8))
                oe = sum(ctx.get(dut.gpio[i].oe) << i for i in range(8))
            if kind in ("timer", "serial"):
                irq = ctx.get(dut.irq)
            if kind == "serial":
                tx = ctx.get(dut.tx)
            e = [r, int(req is not None), we, sel, adr, *dat.to_bytes(4, "little"), gpio, rx,
                 ack, *q.to_bytes(4, "little"), irq, tx, leds, o, oe]
            if events and events[-1][1:] == e and events[-1][0] < CHUNK:
                events[-1][0] += 1
            else:
                events.append([1, *e])
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    return dict(kind=kind, div=div, init=[list(w.to_bytes(4, "little")) for w in init] or [[0, 0, 0, 0]], ev=events)


def soc(job):
    """The whole SoC running a program: one segment per peripheral, one for
    the interrupt wiring, and the CPU's transfers as SentinelTrace has them."""
    rng = random.Random(job["seed"])
    n, div, words = job["n"], job["div"], job["words"]
    dut = attosoc.AttoSoC(num_bytes=words * 4, bus_type=attosoc.BusType.WB)
    image = job["image"]
    dut.serial.serial = attosoc.UART(divisor=div)
    dut.rom = {"list": image, "bytes": b"".join(w.to_bytes(4, "little") for w in image),
               "text": job.get("text")}[job["form"]]
    rst = Signal()
    with contextlib.redirect_stdout(io.StringIO()):
        sim = Simulator(ResetInserter(rst)(dut))
    sim.add_clock(1e-6)
    devs = dict(mem=dut.mem, leds=dut.leds, timer=dut.timer, serial=dut.serial)
    events = {k: [] for k in [*devs, "wire"]}
    cpu = []
    wave = None if job.get("loop") else frames(rng, div, n, 8, False)

    def put(kind, e):
        evs = events[kind]
        if evs and evs[-1][1:] == e and evs[-1][0] < CHUNK:
            evs[-1][0] += 1
        else:
            evs.append([1, *e])

    async def tb(ctx):
        gpio, gap, wait, first, lines, pend = 0, 0, 0, None, [], None
        stable = 1

        def flush():
            if pend is not None:
                after = lines[2:] or lines[-1:]
                cpu.append([*pend, *(lines + [lines[-1]])[:2], min(after), max(after)])
        for t in range(n):
            r = int(t < 2)
            ctx.set(rst, r)
            if rng.random() < .01:
                gpio = rng.randrange(256)
            for i in range(8):
                ctx.set(dut.leds.gpio[i].i, gpio >> i & 1)
            rx = wave[t] if wave else ctx.get(dut.serial.tx)
            ctx.set(dut.serial.rx, rx)
            ti, si, ci = ctx.get(dut.timer.irq), ctx.get(dut.serial.irq), ctx.get(dut.cpu.irq)
            for k, d in devs.items():
                b = d.bus
                req = ctx.get(b.stb) & ctx.get(b.cyc)
                q = ctx.get(b.dat_r)
                w = [ctx.get(b.we), ctx.get(b.sel), ctx.get(b.adr), *ctx.get(b.dat_w).to_bytes(4, "little")] \
                    if req else [0] * 7
                serial = k == "serial"
                put(k, [r, req, *w, gpio if k == "leds" else 0, rx if serial else 1, ctx.get(b.ack), *q.to_bytes(4, "little"),
                        ti if k == "timer" else si if serial else 0, ctx.get(dut.serial.tx) if serial else 1,
                        ctx.get(dut.leds.leds) if k == "leds" else 0,
                        *([sum(ctx.get(getattr(dut.leds.gpio[i], f)) << i for i in range(8)) for f in ("o", "oe")]
                          if k == "leds" else [0, 0])])
            put("wire", [ti, si, ci])
            b = dut.cpu.bus
            if not r:
                if ctx.get(b.cyc) & ctx.get(b.stb):
                    now = (ctx.get(b.adr), ctx.get(b.sel), ctx.get(b.we), ctx.get(b.dat_w) if ctx.get(b.we) else 0)
                    if first is None:
                        flush()
                        pend, first, wait, stable = None, now, 0, 1
                    stable &= now == first
                    if ctx.get(b.ack):
                        a = now[0] << 2
                        d = now[3] if now[2] else ctx.get(b.dat_r)
                        pend = [now[2], a >> 16, a & 0xFFFF, now[1], d >> 16, d & 0xFFFF, gap, wait, stable]
                        first, gap, lines = None, 0, []
                        await ctx.tick()
                        continue
                    wait += 1
                else:
                    gap += 1
                lines.append(ci)
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    init = [list(w.to_bytes(4, "little")) for w in image] + [[0] * 4] * (words - len(image))
    return [dict(kind=k, div=div, init=init if k == "mem" else [[0] * 4], ev=e) for k, e in events.items()], cpu


devices, cpus = [], []
for j in jobs:
    try:
        if j["kind"] == "soc":
            segs, cpu = soc(j)
            devices += segs
            cpus.append(cpu)
        else:
            devices.append(run(j))
    except Exception:
        # a stand-in that lacks something is our fault, all else theirs
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        sys.exit(2 if "/stubsoc/" in tb.splitlines()[-3] else 3)
json.dump(devices, open(sys.argv[2], "w"))
json.dump(cpus, open(sys.argv[2] + ".cpu", "w"))
