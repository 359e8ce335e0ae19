"""Sizes of intermediate results (C24): the homogeneity degree of every value
computed on the way, in the entries of the cores.

Multiplying all cores by t multiplies an intermediate result of degree k by
t^k.  Unless the degree is bounded independently of the number of sites, some
sequence length overflows (or underflows) the exponent range, whatever the
precision.  Log-scale values are not homogeneous: they grow like log t.
"""
import math
from .cases import *
from .separate import Valuation, NoValue, _h
from .s_prob import prob_model, get_params, apply_map2
from . import separate

SV = slice(None)
SCALES = (8.0, 1e-2, 1e2)    # degrees are slopes between the cores times g and times g * g
LIMIT = 4.25       # degrees above which a result counts as growing with the length


class Scaled(Valuation):
    """A valuation whose entries of some tensors are multiplied by a factor:
    all of them, or (alternate) those of every second element of the batch."""

    def __init__(self, seed, svds, factor, names, alternate=False):
        self.factor_, self.names, self.alternate = factor, names, alternate
        try:
            super().__init__(seed, svds, {s: lo for s, lo in poly.LO.items()})
        except NoValue:         # the path needs other sizes
            super().__init__(seed, svds)

    def tensor(self, key, idx):
        v = super().tensor(key, idx)
        if key[0] not in self.names or self.alternate and idx[0] % 2:
            return v
        return v * self.factor_


def degrees(c, log, names, alternate=False):
    """For each recorded value: (degree or None, where).  The degree is that of
    one entry, the smallest magnitude over several valuations and the largest
    over the ranges of scales and over several entries."""
    svds = {k: v for k, v in c.it.lib.svds.values()}
    vals = [[[Scaled(seed, svds, f, names, alternate) for f in (g, g * g)] for seed in (1, 2)] for g in SCALES]
    out = []
    for val, where in log:
        if val.dt.kind not in "fc":
            continue
        cells = sorted(val.cells.items(), key=lambda t: repr(t[0]))
        top = None
        for g, vs, pos in ((g, vs, pos) for g, vs in zip(SCALES, vals) for pos in range(4 if alternate else 1)):
            best = None
            for k, (lo, hi) in enumerate(vs):
                try:
                    if not cells:
                        break
                    e = cells[int(_h("cell", pos if alternate else k) * len(cells))][1]
                    env = {v: int(_h("pos", pos if alternate else k, v) * lo.size(X.VSIZE[v])) for v in sorted(e.free)}
                    a, b = abs(lo.expr(e, env)), abs(hi.expr(e, env))
                    if a == 0 or b == 0:
                        continue
                    d = math.log(b / a) / math.log(g)
                except (NoValue, OverflowError, ZeroDivisionError, KeyError):
                    continue
                if best is None or abs(d) < abs(best):
                    best = d
            if best is not None and (top is None or abs(best) > abs(top)):
                top = best
        out.append((top, where, val))
    return out


def bounded(c, log, names, prop="C24", alternate=False):
    ds = degrees(c, log, names, alternate)
    known = [d for d, _, _ in ds if d is not None]
    if not known:
        return c.und(prop, "bounded intermediates", "no intermediate result could be evaluated")
    top = max(ds, key=lambda t: abs(t[0] or 0))
    if abs(top[0]) > LIMIT:
        first = next(t for t in ds if t[0] is not None and abs(t[0]) > LIMIT)
        return c.bad(prop, "bounded intermediates",
                     f"a value computed here scales with power {first[0]:.1f} of the cores (up to {top[0]:.1f}), it grows with the sequence length"
                     + (" (batch elements of different size share one scale)" if alternate else ""), first[1], True)
    c.ok(prop, "bounded intermediates")


def prob_sizes(c, n, unif=False, call=None, emb=None, **opts):
    kw = dict(opts)
    d = None
    if emb == "fun":
        d = c.size("d")
        fm = lambda x: apply_map2(c, x, d)
        kw["embed_fun"] = Native("embed", lambda x: TensorObj(Root(fm(x.get()))))
        kw["domain"] = c.fn("embeddings", "DataDomain", False, 2)
    m, ps, d, D = prob_model(c, n, unif, d=d, **kw)
    get_params(c, m, ps)
    if emb == "own":         # vectors of very different size in one batch
        x = c.tensor("x", (c.size("B"), n, d))
    else:
        x = c.ints("x", (c.size("B"), n))
    c.it.lib.trace = log = []
    try:
        c.run(m, x, **(call or {}))
    finally:
        c.it.lib.trace = None
    c.generic()
    if emb == "own":
        bounded(c, log, {"x"}, alternate=True)
    else:
        bounded(c, log, {"core_tensors", "bias_mat"})


def seq_sizes(c, n, left=False, right=False, par=False, kind="tensor", alternate=False):
    D, B = c.size("D"), c.size("B")
    if kind == "tensor":
        mats = c.tensor("M", (B, n, D, D))
        names = {"M"}
    else:
        mats = c.lst([c.tensor(f"M{j}", (B, c.size("D" + "E" * (j % 2)), c.size("D" + "E" * ((j + 1) % 2)))) for j in range(n)])
        names = {f"M{j}" for j in range(n)}
    lv = c.tensor("lv", (D,), batch=None) if left else None
    rv = c.tensor("rv", (c.size("DE") if n % 2 and kind == "list" else D,), batch=None) if right else None
    c.it.lib.trace = log = []
    try:
        c.fn("mps_base", "contract_matseq", mats, lv, rv, par, True)
    finally:
        c.it.lib.trace = None
    bounded(c, log, names, alternate=alternate)


MODES = {"default": None, "parallel": dict(parallel_eval=True), "slim": dict(slim_eval=True)}


def register():
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for mode, call in MODES.items():
            scenario("C24", f"sizes {u} n=9 {mode}", prob_sizes, n=9, unif=unif, call=call)
            scenario("C24", f"sizes {u} n=9 {mode} complex", prob_sizes, n=9, unif=unif, call=call, complex_params=True)
            scenario("C24", f"sizes {u} n=6 {mode} embedding", prob_sizes, n=6, unif=unif, call=call, emb="fun")
            scenario("C24", f"sizes {u} n=8 {mode} batch of unequal size", prob_sizes, n=8, unif=unif, call=call, emb="own")
            if mode == "parallel":
                scenario("C24", f"sizes {u} n=8 {mode}", prob_sizes, n=8, unif=unif, call=call)
                scenario("C24", f"sizes {u} n=7 {mode}", prob_sizes, n=7, unif=unif, call=call)
                scenario("C24", f"sizes {u} n=16 {mode}", prob_sizes, n=16, unif=unif, call=call, tier="thorough", limit=800)
            scenario("C24", f"sizes {u} n=17 {mode}", prob_sizes, n=17, unif=unif, call=call, tier="thorough", limit=800)
    for l in (False, True):
        for r in (False, True):
            for par in (False, True):
                t = f"{' left' if l else ''}{' right' if r else ''}{' parallel' if par else ''}"
                scenario("C24", f"sizes contract_matseq n=9{t}", seq_sizes, n=9, left=l, right=r, par=par)
                scenario("C24", f"sizes contract_matseq n=8{t}", seq_sizes, n=8, left=l, right=r, par=par)
                scenario("C24", f"sizes contract_matseq n=8{t} batch of unequal size", seq_sizes, n=8, left=l, right=r, par=par, alternate=True)
            scenario("C24", f"sizes contract_matseq list n=9{t}", seq_sizes, n=9, left=l, right=r, kind="list")
            scenario("C24", f"sizes contract_matseq list n=8{t} batch of unequal size", seq_sizes, n=8, left=l, right=r, kind="list", alternate=True)


register()
