"""Build the simulated core from /repo's working tree, run stimuli through it,
and hand the recorded traces to TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
VENV_PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def repo_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
               PYTHONPATH=f"{REPO}/src:{VERIF}/stub", PYTHONHASHSEED="0")
    return env


GEN = r"""
import sys
kind, out = sys.argv[1], sys.argv[2]
from amaranth.back import rtlil
if kind == "top":
    from sentinel.top import Top
    dut = Top()
elif kind == "formal":
    from sentinel.formal import FormalTop
    dut = FormalTop()
open(out, "w").write(rtlil.convert(dut, name="top"))
"""

CXXINC = None


def cxx_include():
    global CXXINC
    if CXXINC is None:
        r = subprocess.run([VENV_PY, "-c", "import amaranth_yosys,os;"
                            "print(os.path.dirname(amaranth_yosys.__file__))"],
                           capture_output=True, text=True, check=True)
        CXXINC = r.stdout.strip() + "/share/include/backends/cxxrtl/runtime"
    return CXXINC


class BrokenCore(Exception):
    """The code under test could not be elaborated at all."""


class Work:
    """Scratch directory for one check."""

    def __init__(self):
        self.procs = []
        self.dir = Path(tempfile.mkdtemp(prefix="sentinel-verif-"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in list(self.procs):
            p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- building ---------------------------------------------------------
    def yosys(self, script, full=False):
        """full: the WASM build that has the Verilog front end (Amaranth's own
        is a cut-down one)."""
        env = repo_env()
        env["YOWASP_CACHE_DIR"] = str(self.dir / "yowasp")
        exe = [str(Path(VENV_PY).with_name("yowasp-yosys"))] if full else [VENV_PY, "-m", "amaranth_yosys"]
        r = subprocess.run([*exe, "-q", "-p", script],
                           cwd=self.dir, env=env, capture_output=True,
                           text=True)
        if r.returncode:
            raise MachineryError("yosys: " + r.stdout[-2000:] + r.stderr[-2000:])

    def build(self, kind="top", opt="-O2", verilog=None, tag=""):
        """kind: top | formal.  verilog: module name given to the generator
        (then the Verilog it writes is what gets simulated)."""
        d = self.dir
        out = f"{kind}{tag}"
        if verilog is not None:
            v = self.generate(["-o", str(d / f"{out}.v"), "-n", verilog] + (["-f"] if kind == "formal" else []))
            src = f"read_verilog {out}.v; hierarchy -top {verilog}; " + \
                (f"rename {verilog} top; " if verilog != "top" else "") + "proc; opt_clean"
        else:
            il = d / f"{out}.il"
            r = subprocess.run([VENV_PY, "-c", GEN, kind, str(il)], cwd=d,
                               env=repo_env(), capture_output=True, text=True)
            if r.returncode:
                raise BrokenCore("elaboration failed: " + r.stderr[-1500:])
            src = f"read_rtlil {out}.il"
        self.yosys(f"{src}; write_cxxrtl -header -g0 {out}.cc", full=verilog is not None)
        exe = d / f"sim_{out}"
        cmd = ["g++", opt, "-std=c++17", "-w", "-I", cxx_include(), "-I", str(d),
               "-I", str(VERIF / "harness"), f'-DDUT_HEADER="{out}.h"']
        if kind == "formal":
            cmd.append("-DRVFI")
        cmd += ["-o", str(exe), str(VERIF / "harness" / "driver.cc"), str(d / f"{out}.cc")]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("g++: " + r.stderr[-3000:])
        return exe

    def generate(self, args):
        """Run the Verilog generator command; returns its standard output."""
        r = subprocess.run([VENV_PY, "-m", "sentinel.gen", *args], cwd=self.dir,
                           env=repo_env(), capture_output=True, text=True)
        if r.returncode:
            raise BrokenCore("sentinel.gen failed: " + r.stderr[-1500:])
        return r.stdout

    def ports(self, verilog, module):
        """{name: (direction, width)} of a module in a Verilog file."""
        self.yosys(f"read_verilog {verilog}; proc; write_json {verilog}.json", full=True)
        mods = json.load(open(self.dir / f"{verilog}.json"))["modules"]
        if module not in mods:
            return None
        return {n: (p["direction"], len(p["bits"])) for n, p in mods[module]["ports"].items()}

    # -- simulation -------------------------------------------------------
    def sim(self, exe, segs, name):
        """Run one shard; returns path to the JSON trace."""
        out = self.dir / f"{name}.json"
        with open(out, "w") as fp:
            r = subprocess.run([str(exe)], input="".join(s.text() for s in segs),
                               stdout=fp, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise MachineryError(f"simulation driver: rc={r.returncode} {r.stderr[-500:]}")
        return out

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=850,
            extra=(), name="tlc", big=False):
        meta = self.dir / f"meta-{name}"
        e = dict(os.environ)
        e.update(env or {})
                # short runs are dominated by JIT compilation: leave C2 to long ones
        jit = ["-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"] if not big and workers == 1 else \
            ["-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, workers)}"]
        cmd = ["java", *jit,
               f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={self.dir}",
               "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
               f"-DTLA-Library={SPEC}", "tlc2.TLC",
               "-workers", str(workers), "-metadir", str(meta), "-noGenerateSpecTE",
               "-fp", "3", "-config", str(cfg), *extra, str(module)]
        pr = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True)
        self.procs.append(pr)
        try:
            out, _ = pr.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.communicate()
            raise MachineryError(f"TLC timed out on {module} {cfg}")
        finally:
            self.procs.remove(pr)
            shutil.rmtree(meta, ignore_errors=True)
        return pr.returncode, out


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def parse_tla(s):
    """Parse the tuple text TLC prints (integers, strings, tuples)."""
    s = s.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(s)


def read_tuples(out, tags=("OK", "BAD")):
    """Tagged tuples printed by TLC; long ones are wrapped over lines."""
    res = []
    buf = None
    starts = tuple(f'<<"{t}"' for t in tags) + tuple(f'<< "{t}"' for t in tags)
    for ln in out.splitlines():
        if buf is None:
            if not ln.startswith(starts):
                continue
            buf = [ln]
            depth = 0
        else:
            buf.append(ln.strip())
        depth += ln.count("<<") - ln.count(">>")
        if depth == 0:
            res.append(parse_tla(" ".join(buf)))
            buf = None
    return res


class Mismatch:
    """One rejected segment: the report of the deepest branch TLC explored."""

    def __init__(self, r, events, seg, skipped=0):
        (_, _, self.l, self.clause, self.expect, self.ph, self.pc, self.c,
         self.x, self.hist) = r
        self.hist = [["P", 5, [0, 0]]] * skipped + list(self.hist)
        self.events = events       # recorded trace of the segment
        self.seg = seg             # the Seg that produced it (or None)

    @property
    def event(self):
        return self.events[self.l - 1]


class Verdicts:
    def __init__(self):
        self.ok = 0
        self.bad = []          # (trace path, segment number, events accepted, clause)
        self.states = 0
        self.distinct = 0
        self.events = 0
        self.segments = 0
        self.explained = []    # Mismatch
        self.passed = set()    # (trace path, segment number)
        self.cov = []          # action counts of the first shard


def validate(work, traces, module="SentinelTrace.tla", cfg="SentinelTrace.cfg",
             jobs=NCPU, timeout=800, heap="3g", env=None, tags=("OK", "BAD")):
    """traces: list of (path, nsegs).  Every segment must end in OK or BAD."""
    v = Verdicts()

    def one(t):
        path, n = t
        # actions are counted in the first shard only (counting costs time)
        e = {"TRACE": str(path), "EXPLAIN": "0", "COUNT": "1" if t is traces[0] else "0"}
        e.update(env or {})
        return t, work.tlc(module, SPEC / cfg, e, 1, heap, timeout,
                           name=Path(path).stem, big=os.path.getsize(path) > 12_000_000)
    with ThreadPoolExecutor(jobs) as ex:
        for (path, n), (rc, out) in ex.map(one, traces):
            m = STATS.search(out)
            if not m or rc not in (0,):
                raise MachineryError(f"TLC rc={rc} on {path}: " + out[-3000:])
            v.states += int(m.group(1))
            v.distinct += int(m.group(2))
            okseg, badseg = {}, {}
            for r in read_tuples(out, tags + ("COV",)):
                if r[0] == "COV":
                    v.cov = [a + b for a, b in zip(v.cov, r[1])] if v.cov else r[1]
                elif r[0] == "OK":
                    okseg[r[1]] = r[2]
                else:
                    badseg.setdefault(r[1], []).append(r)
            v.segments += n
            for s in range(1, n + 1):
                if s in okseg:
                    v.ok += 1
                    v.events += okseg[s]
                    v.passed.add((str(path), s))
                elif s in badseg:
                    deepest = max(badseg[s], key=lambda r: r[2])
                    v.events += deepest[2]
                    v.bad.append((str(path), s, deepest[2], deepest[3]))
                else:
                    raise MachineryError(f"no verdict for segment {s} of {path}")
    return v


def explain(work, v, segs_of, module="SentinelTrace.tla", cfg="SentinelTrace.cfg",
            limit=48):
    """Second pass over (a spread of) the rejected segments, this time with
    the history of what the specification says happened before the mismatch."""
    groups, deep = {}, {}
    for path, s, l, clause in v.bad:
        deep[path, s] = l
        groups.setdefault(clause, []).append((path, s))
    pick, seen = [], set()
    i = 0
    while len(pick) < min(limit, len(v.bad)):
        for g in groups.values():
            # spread over each group, ends included
            if i < len(g):
                j = g[(i * 7919) % len(g)] if len(g) > limit else g[i]
                if j not in seen:
                    seen.add(j)
                    pick.append(j)
        i += 1
        if i > 4 * limit:
            break
    pick = pick[:limit]
    if not pick:
        return []
    cache = {}
    evs = []
    for path, s in pick:
        if path not in cache:
            cache[path] = json.load(open(path))
        evs.append(cache[path][s - 1])
    p = work.dir / "explain.json"
    json.dump(evs, open(p, "w"))
    skip = [max(0, deep[j] - 4000) for j in pick]
    json.dump(skip, open(work.dir / "from.json", "w"))
    rc, out = work.tlc(module, SPEC / cfg, {"TRACE": str(p), "EXPLAIN": "1", "COUNT": "0", "FROM": str(work.dir / "from.json")},
                       1, "6g", 800, name="explain")
    if rc:
        raise MachineryError(f"TLC rc={rc} while explaining: " + out[-3000:])
    best = {}
    for r in read_tuples(out, ("BAD",)):
        if r[1] not in best or r[2] > best[r[1]][2]:
            best[r[1]] = r
    for k, (path, s) in enumerate(pick, 1):
        if k not in best:
            raise MachineryError("explanation pass accepted a rejected segment")
        seg = segs_of(path, s) if segs_of else None
        v.explained.append(Mismatch(best[k], evs[k - 1], seg, skip[k - 1]))
    return v.explained
