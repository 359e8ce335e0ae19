"""Development aid: compare the transfer functions with the real library.

Runs under an interpreter that has torch (/opt/venv/bin/python).  No check uses
it: the checks never import torch or torchmps.
"""
import ast
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.scen import *          # noqa
from sa import interp as I, scen, separate as S, tensor as T, expr as X
from sa.interp import explore
import torch, math, numpy as np

exprs = [l.strip() for l in open(os.path.join(HERE, "tools", "model_exprs.txt")) if l.strip() and not l.startswith("#")]
MODS = "torch math functools itertools operator copy collections contextlib warnings".split()


def head(e):
    h = "".join(f"import {m}\n" for m in MODS if m + "." in e)
    h += "import numpy as np\n" if "np." in e else ""
    return h + ("import opt_einsum as oe\n" if "oe." in e else "") + ("import torch.nn.functional as F\n" if re.search(r"\bF\.", e) else "")


def concrete(val, v):
    """The torch tensor denoted by an abstract one under a valuation."""
    def axis(a):
        return v.axis_positions(a)
    import itertools
    out = []
    shape = [v.size(s) for s in val.shape]
    for pos in itertools.product(*[axis(a) for a in val.axes]):
        c = sum((p[0] for p in pos), ())
        env = {}
        for a, p in zip(val.axes, pos):
            env.update(zip(T.avars([a]), p[1]))
        if c not in val.cells:
            raise S.NoValue("empty axis")
        out.append(v.expr(val.cells[c], env))
    k = val.dt.kind
    if k != "c":
        out = [o.real if isinstance(o, complex) and abs(o.imag) < 1e-9 else o for o in out]
    if k != "c" and any(isinstance(o, complex) for o in out):
        raise S.NoValue("complex value of a real tensor (log or root of a negative number)")
    dt = {"f": torch.float64, "c": torch.complex128, "i": torch.int64, "b": torch.bool}[k]
    return torch.tensor([bool(round(o.real)) if k == "b" else int(round(o.real)) if k == "i" else complex(o) if k == "c" else o for o in out],
                        dtype=dt).reshape(shape)


def same(a, r, v):
    if isinstance(a, I.TensorObj) and isinstance(r, torch.Tensor) and r.numel() == 0:
        return None if tuple(v.size(s) for s in a.get().shape) == tuple(r.shape) else "shape of an empty tensor"
    if isinstance(a, I.TensorObj):
        c = concrete(a.get(), v)
        if not isinstance(r, torch.Tensor):
            return f"not a tensor: {r!r}"
        if tuple(c.shape) != tuple(r.shape):
            return f"shape {tuple(c.shape)} real {tuple(r.shape)}"
        kind = "b" if r.dtype == torch.bool else "c" if r.is_complex() else "f" if r.is_floating_point() else "i"
        if kind != a.get().dt.kind:
            return f"dtype {a.get().dt} real {r.dtype}"
        if c.numel() and (c.to(torch.complex128) - r.to(torch.complex128)).abs().max() > 1e-6 * (1 + r.to(torch.complex128).abs().max()):
            return f"value {c.tolist()} real {r.tolist()}"
        return None
    if isinstance(a, (tuple, list)):
        if len(a) != len(r):
            return f"length {len(a)} real {len(r)}"
        for x, y in zip(a, r):
            if isinstance(x, I.Opaque):
                continue
            w = same(x, y, v)
            if w:
                return w
        return None
    if isinstance(a, I.SNum):
        e = v.expr(a.e, {})
        return None if abs(e - complex(r)) < 1e-6 * (1 + abs(r)) else f"number {e} real {r}"
    if isinstance(a, I.Poly):
        return None if v.size(a) == r else f"size {v.size(a)} real {r}"
    if isinstance(a, (int, I.Fraction)) and isinstance(r, (int, float)):
        return None if abs(float(a) - float(r)) < 1e-9 else f"number {a} real {r}"
    return None


def main():
    sel = [a for a in sys.argv[1:] if a != "-v"]
    bad = n = hard = 0
    for e in exprs:
        if sel and not any(s in e for s in sel):
            continue
        box = {}

        def drv(it):
            c = Ctx(it)
            B = c.size("B")
            m = I.ModuleV("usr", "/tmp/usr.py")
            m.vars.update(x=c.tensor("x", (B, 2)), M=c.tensor("M", (2, 2), batch=None), v=c.tensor("v", (2,), batch=None),
                          i=c.ints("i", (B, 1)), j=c.ints("j", (2,), batch=None), z=c.tensor("z", (2, 2), CD, batch=None),
                          w=c.tensor("w", (B,)), y=c.tensor("y", (B, 3, 2)), u=c.tensor("u", (B, B)), B=B, __name__="usr")
            names = {k: I.TensorObj(I.Root(t.get())) if isinstance(t, I.TensorObj) else t for k, t in m.vars.items()}
            env = I.Env()
            env.vars = m.vars
            it.modules["usr"] = m
            it.stack.append(I.Frame("<module>"))
            pre, last = (e.rsplit(";", 1) if ";" in e else ("", e))
            for s in ast.parse(head(e) + pre + "\nres = " + last.strip()).body:
                it.exec(s, env, m)
            box.setdefault("out", []).append((m.vars["res"], names, it))
            return m.vars["res"]
        try:
            rs = list(explore("/repo", drv, 4))
        except Exception as ex:
            print(f"{e:60s} CRASH {ex!r}"[:200])
            bad += 1
            continue
        if any(r.undecided for r in rs):
            hard += 1
            if "-v" in sys.argv:
                print(f"{e:60s} HARD {rs[0].undecided}"[:160])
            continue
        r = rs[0]
        if r.raised:
            why = ("RAISES", str(r.raised)[:100])
        if len(rs) > 1 or "out" not in box:
            if r.raised:
                print(f"{e:60s} {why}")
                bad += 1
            continue
        a, names, it = box["out"][0]
        for seed in range(3):
            n += 1
            try:
                v = S.Valuation(seed, it.lib.svds and {k: val for k, val in it.lib.svds.values()})
                conc = {k: (concrete(t.get(), v) if isinstance(t, I.TensorObj) else v.size(t) if k == "B" else t) for k, t in names.items()}
                real = {}
                exec(head(e), real)
                real.update(conc)
                try:
                    pre, last = (e.rsplit(";", 1) if ";" in e else ("", e))
                    exec(pre, real)
                    rr = eval(last.strip(), real)
                except Exception as ex:
                    print(f"{e:60s} REAL RAISES {ex!r}"[:200])
                    bad += 1
                    break
                why = same(a, rr, v)
                if why:
                    print(f"{e:60s} seed {seed}: {why}"[:260])
                    bad += 1
                    break
            except (S.NoValue, X.TooHard) as ex:
                if "-v" in sys.argv:
                    print(f"{e:60s} NOVALUE {ex}")
    print(f"{len(exprs)} expressions, {n} comparisons, {hard} without a model, {bad} disagreements")


if __name__ == "__main__":
    main()
