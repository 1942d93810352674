#!/usr/bin/env python3
"""mutate_code.py [-j N] [-f FILE...] [-s SEED] [-n MAX] OUT: change /repo's sources in
one place at a time (constants, operators, comparisons, dropped statements,
swapped enum members, constant conditions) and see whether the specification
rejects the runs.  Each line of OUT: file:line kind | verdict | clause, blame.
A mutant whose netlist is unchanged is not counted.  With MUTATE_C30 set, the
random microprograms of C30 judge the mutants instead."""
import argparse
import ast
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
SRC = Path("/repo/src/sentinel")
FILES = ["align.py", "alu.py", "control.py", "csr.py", "datapath.py", "decode.py", "exception.py", "insn.py", "top.py",
         "ucodefields.py", "formal.py"]

SWAP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
        ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["&"], ast.Add: ["-"], ast.Sub: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"]}


def enums(trees):
    res = {}
    for t in trees.values():
        for n in ast.walk(t):
            if isinstance(n, ast.ClassDef) and any("num" in ast.unparse(b) for b in n.bases):
                m = [s.targets[0].id for s in n.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)]
                res[n.name] = m
    return res


def span(src, n):
    """Character offsets of a node (its columns are bytes of UTF-8)."""
    lines = src.splitlines(keepends=True)
    off = lambda ln, col: sum(map(len, lines[:ln - 1])) + len(lines[ln - 1].encode()[:col].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def mutants(f, src, tree, en):
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(id(n.body[0]))
    for n in ast.walk(tree):
        if id(n) in doc or not hasattr(n, "lineno"):
            continue
        a, b = span(src, n)
        t = src[a:b]
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n.lineno, "bool", a, b, str(not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield n.lineno, "const+1", a, b, str(n.value + 1)
            if n.value > 0:
                yield n.lineno, "const-1", a, b, str(n.value - 1)
            if n.value > 1:
                yield n.lineno, "const0", a, b, "0"
        elif isinstance(n, (ast.Compare, ast.BinOp)):
            op = n.ops[0] if isinstance(n, ast.Compare) else n.op
            lft, rgt = (n.left, n.comparators[0]) if isinstance(n, ast.Compare) else (n.left, n.right)
            la, lb = span(src, lft)
            ra, rb = span(src, rgt)
            for s in SWAP.get(type(op), []):
                pre = src[a:la]
                mid = src[lb:ra]
                sym = next((x for x in ("==", "!=", "<=", ">=", "<<", ">>", "<", ">", "&", "|", "^", "+", "-") if x in mid), None)
                if sym:
                    yield n.lineno, f"{sym}->{s}", a, b, pre + src[la:lb] + mid.replace(sym, s, 1) + src[ra:b]
            if isinstance(n, ast.BinOp) and isinstance(op, (ast.BitAnd, ast.BitOr)):
                yield n.lineno, "left-only", a, b, f"({src[la:lb]})"
                yield n.lineno, "right-only", a, b, f"({src[ra:rb]})"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
            oa, ob = span(src, n.operand)
            yield n.lineno, "drop~", a, b, f"({src[oa:ob]})"
        elif isinstance(n, (ast.AugAssign,)) and "m.d." in t:
            if isinstance(n.value, (ast.List, ast.Tuple)) and len(n.value.elts) > 1:
                for k, e in enumerate(n.value.elts):
                    keep = [src[slice(*span(src, x))] for i, x in enumerate(n.value.elts) if i != k]
                    va, vb = span(src, n.value)
                    nl = "\n" * src[va:vb].count("\n")
                    yield e.lineno, f"drop {' '.join(src[slice(*span(src, e))].split())[:40]}", va, vb, "[" + ", ".join(" ".join(x.split()) for x in keep) + "]"
            else:
                yield n.lineno, f"drop {t[:40]!r}", a, b, "pass"
            if ".comb" in t.split("+=")[0]:
                pass
            elif ".sync" in t.split("+=")[0]:
                pass
        elif isinstance(n, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Attribute)):
            base = n.value.id if isinstance(n.value, ast.Name) else n.value.attr
            if base in en and n.attr in en[base] and len(en[base]) > 1:
                m = en[base]
                for d in (1, -1) if len(m) > 2 else (1,):
                    o = m[(m.index(n.attr) + d) % len(m)]
                    yield n.lineno, f"{n.attr}->{o}", a, b, src[a:b - len(n.attr)] + o
        elif isinstance(n, ast.Call) and t.startswith(("m.If(", "m.Elif(")):
            aa, ab = span(src, n.args[0])
            yield n.lineno, "if 0", aa, ab, "0"
            yield n.lineno, "if 1", aa, ab, "1"
        elif isinstance(n, ast.Subscript) and isinstance(n.value, (ast.Name, ast.Attribute)) and isinstance(n.slice, ast.Slice):
            pass


NETS = r"""
import sys, hashlib, re
from amaranth.back import rtlil
out = sys.argv[1]
h = []
for kind in ("top", "formal"):
    if kind == "top":
        from sentinel.top import Top as D
    else:
        from sentinel.formal import FormalTop as D
    t = rtlil.convert(D(), name="top")
    open(f"{out}/{kind}.il", "w").write(t)
    h.append(hashlib.sha1(re.sub(r'attribute .*|cell .*|#.*', '', t).encode()).hexdigest())
print(" ".join(h))
"""


def nets(root, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", PYTHONPATH=f"{root}/src:{V}/stub", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-c", NETS, str(out)], env=env, capture_output=True, text=True, timeout=120)
    if r.returncode:
        return None, r.stderr.strip().splitlines()[-1:]
    return r.stdout.split(), None


def screen_segs(seed=1):
    import workloads
    segs = []
    for n in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C24 C25 C27 MIX".split():
        rng = random.Random(f"screen{n}{seed}")
        part = list(getattr(workloads, n)(rng, 0, 1))
        rng.shuffle(part)
        left = 4000 if n == "MIX" else 900
        if n != "MIX":
            segs += workloads.neighbours(n, rng, 3000)
        for s in part:
            if left <= 0:
                break
            s = s.cut(500) if len(s.words) > 500 and not s.rsts else s
            left -= len(s.words)
            segs.append(s)
    return segs


def judge(args):
    f, line, kind, a, b, new, base, blank = args
    name = f"{f}:{line} {kind}"
    d = Path(tempfile.mkdtemp(prefix="mutcode-"))
    try:
        shutil.copytree("/repo/src", d / "src", ignore=shutil.ignore_patterns("__pycache__"))
        p = d / "src/sentinel" / f
        s = p.read_text()
        p.write_text(s[:a] + new + s[b:])
        h, err = nets(d, d)
        if h is None:
            return f"{name} | no build | {err}"
        if h == base:
            return f"{name} | equal | "
        import core
        import blame
        core.REPO = d
        if os.environ.get("MUTATE_C30"):
            import ucode
            with core.Work() as w:
                lay = ucode.Layout(w)
                exe, can = ucode.build(w)
                v = ucode.run(w, exe, ucode.programs(random.Random("screen"), 60, 4, 500, lay, can), "m", jobs=1)
                if v.bad:
                    return f"{name} | killed {len(v.bad)} | {sorted({b[3] for b in v.bad})}"
            return f"{name} | SURVIVED | {s[a:b][:60]!r} -> {new[:60]!r}"
        segs = screen_segs()
        with core.Work() as w:
            for kind, mod, cfg, rec in (("top", "SentinelTrace.tla", "SentinelTiming.cfg", 1), ("formal", "SentinelRvfi.tla", "SentinelRvfi.cfg", 5)):
                if kind == "top" and h[0] == base[0]:
                    continue
                exe = w.build(kind, opt="-O1")
                ss = segs if kind == "top" else segs[::3]
                for x in ss:
                    x.h["record"] = rec
                t = w.sim(exe, ss, kind)
                v = core.validate(w, [(t, len(ss))], mod, cfg, jobs=1)
                if v.bad:
                    core.explain(w, v, lambda p, k: ss[k - 1], mod, cfg, limit=8)
                    bl = set()
                    for m in v.explained:
                        bl |= {"C23"} if m.clause.startswith("rvfi") else blame.blame(m)
                    return f"{name} | killed {kind} {len(v.bad)} | {sorted({m.clause for m in v.explained})[:3]} {','.join(sorted(bl))}"
        return f"{name} | SURVIVED | {s[a:b][:60]!r} -> {new[:60]!r}"
    except Exception as e:
        return f"{name} | error | {str(e)[-200:]!r}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-f", action="append")
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-n", type=int, default=100000)
    ap.add_argument("out")
    a = ap.parse_args()
    trees = {f: ast.parse((SRC / f).read_text()) for f in FILES}
    en = enums(trees)
    todo = []
    for f in a.f or FILES:
        src = (SRC / f).read_text()
        seen = set()
        for line, kind, x, y, new in mutants(f, src, trees[f], en):
            if (x, y, new) not in seen and new != src[x:y]:
                seen.add((x, y, new))
                todo.append((f, line, kind, x, y, new))
    rng = random.Random(a.s)
    rng.shuffle(todo)
    todo = todo[:a.n]
    print(len(todo), "mutants")
    d = Path(tempfile.mkdtemp(prefix="mutcode-"))
    base, err = nets("/repo", d)
    shutil.rmtree(d)
    with open(a.out, "w") as o, ProcessPoolExecutor(a.j) as ex:
        for r in ex.map(judge, [t + (base, None) for t in todo]):
            print(r, file=o, flush=True)


if __name__ == "__main__":
    main()
