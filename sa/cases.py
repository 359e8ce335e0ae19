"""Reference semantics of the models and the cases the scenarios evaluate."""
from .scen import *

FMAP_N = [0]


def opaque_map(c, d, name="fmap", dt=None):
    """A user feature map: 0-d tensor -> vector of size d, an arbitrary function."""
    def f(x, *a, **k):
        v = x.get()
        if v.ndim != 0:
            raise TooHard("feature map applied to a non-scalar")
        ax = T.axis_for(d)
        e = v.scalar
        cells = {}
        vs = T.avars((ax,))
        for p in T.positions(T.enums((ax,))):
            iv = [X.T("iota", (q,)) for q in vs]
            cells[p] = X.fn(f"{name}", [e] + iv, p)
        odt = dt or (v.dt if v.dt.kind in "fc" else c.fdt)
        return TensorObj(Root(TVal((ax,), cells, odt, v.dev)))
    return Native(name, f)


def apply_map(c, x, d, name="fmap"):
    """Reference: fmap applied to every entry, new last axis."""
    x = val(x)
    ax = T.axis_for(d)
    vs = T.avars((ax,))
    n = len(T.enums((ax,)))
    cells = {}
    for p, e in x.cells.items():
        for q in T.positions(T.enums((ax,))):
            cells[p + q] = X.fn(name, [e] + [X.T("iota", (w,)) for w in vs], q)
    return TVal(x.axes + (ax,), cells, x.dt if x.dt.kind in "fc" else c.fdt, x.dev)


def default_embed(x):
    x = val(x)
    one = x.map(lambda e: X.ONE - e)
    return T.stack([x, one], x.ndim)


# ------------------------------------------------------------------- MPS
class Site:
    def __init__(self, kind, t, bias=None):
        self.kind, self.t, self.bias = kind, t, bias


def chain_of(c, modules):
    """Sites of a module list, in chain order."""
    out = []
    for m in modules:
        k = m.cls.name
        t = val(c.attr(m, "tensor"))
        if k == "InputRegion":
            b = c.attr(m, "bias_mat")
            b = val(b) if b is not None and c.it.truth(c.attr(m, "use_bias")) else None
            for s in range(t.shape[0]):
                bs = None
                if b is not None:
                    bs = T.getitem(b, (s if T.dim_eq(b.shape[0], t.shape[0]) and t.shape[0] != 1 else 0,)) if b.ndim == 3 else b
                out.append(Site("in", T.getitem(t, (s,)), bs))
        elif k == "InputSite":
            out.append(Site("in", t))
        elif k == "OutputSite":
            out.append(Site("out", t))
        elif k == "MergedInput":
            for s in range(t.shape[0]):
                out.append(Site("in2", T.getitem(t, (s,))))
        elif k == "MergedOutput":
            out.append(Site("outL" if c.it.truth(c.attr(m, "left_output")) else "outR", t))
        else:
            raise TooHard(f"module {k}")
    return out


def modules_of(c, ml):
    return list(c.it.iterate(ml))


def ref_chain(sites, emb, periodic):
    """Contract sites with emb (b, n, i) in chain order: result (b, o)."""
    n = sum({"in": 1, "in2": 2, "out": 0, "outL": 1, "outR": 1}[s.kind] for s in sites)
    if not T.dim_eq(n, emb.shape[1]):
        raise ValueError(f"the chain has {n} input sites instead of {emb.shape[1]}")
    k = 0
    mats = []
    for s in sites:
        if s.kind == "in":
            x = pick(emb, slice(None), k)
            m = es("lri,bi->blr", s.t, x)
            if s.bias is not None:
                m = ew(lambda a, b: a + b, m, s.bias)
            mats.append((0, m))
            k += 1
        elif s.kind == "in2":
            x, y = pick(emb, slice(None), k), pick(emb, slice(None), k + 1)
            mats.append((0, es("lrij,bi,bj->blr", s.t, x, y)))
            k += 2
        elif s.kind == "out":
            mats.append((1, s.t))
        else:
            x = pick(emb, slice(None), k)
            mats.append((2, es("olri,bi->bolr", s.t, x)))
            k += 1
    spec = {0: "{b}{l}{r}", 1: "o{l}{r}", 2: "bo{l}{r}"}
    cur, lab = None, None
    for kind, m in mats:
        if cur is None:
            if periodic:
                cur, lab = m, {0: "bzl", 1: "ozl", 2: "bozl"}[kind]
            else:
                cur = pick(m, *[slice(None)] * (m.ndim - 2), 0)
                lab = {0: "bl", 1: "ol", 2: "bol"}[kind]
        else:
            lm = {0: "blr", 1: "olr", 2: "bolr"}[kind]
            keep = "".join(x for x in "boz" if x in lab + lm)
            cur = es(f"{lab},{lm}->{keep}r", cur, m)
            lab = keep + "l"
    if periodic:
        keep = "".join(x for x in "bo" if x in lab)
        cur = es(f"{lab.replace('l', 'z')}->{keep}", cur)
        lab = keep
    else:
        cur = pick(cur, *[slice(None)] * (cur.ndim - 1), 0)
        lab = lab[:-1]
    if lab != "bo":
        ones = pick(emb, slice(None), 0) if n else None
        if lab == "o":
            b = emb.shape[0]
            one = T.const_tensor((b,), 1, emb.dt, emb.dev)
            if emb.axes[0][0] == "V":
                one = TVal((emb.axes[0],), {(): X.ONE}, emb.dt, emb.dev)
            cur = es("o,b->bo", cur, one)
        else:
            raise TooHard("chain without an output site")
    return cur


def mps_case(c, n, label=None, periodic=False, parallel=False, path=None, embed="default", bias=True, adaptive=False,
             B=None, D=None, o=None, d=None, kw=None, label_kw=True):
    """Build an MPS, evaluate it once; returns (result, reference, model, params)."""
    B = c.size("B") if B is None else B
    D = c.size("D") if D is None else D
    o = c.size("o") if o is None else o
    d = (2 if embed == "default" else c.size("f")) if d is None else d
    opts = dict(feature_dim=d, periodic_bc=periodic, parallel_eval=parallel, use_bias=bias, adaptive_mode=adaptive)
    if label is not None:
        opts["label_site"] = label
    if path is not None:
        opts["path"] = path
    opts.update(kw or {})
    m = c.run(c.get("torchmps", "MPS"), n, o, D, **opts)
    ps = c.name_params(m)
    c.begin(m)
    return m, ps, dict(n=n, B=B, D=D, o=o, d=d, embed=embed, path=path, periodic=periodic, adaptive=adaptive)


def mps_input(c, info, name="x", B=None, width=None):
    B = info["B"] if B is None else B
    n = width or info["n"]
    if info["embed"] == "embedded":
        return c.tensor(name, (B, n, info["d"]), c.fdt, c.dev)
    return c.tensor(name, (B, n), c.fdt, c.dev)


def mps_ref(c, m, info, x, sites=None):
    xv = val(x)
    p = info["path"]
    if p is not None:
        xv = T.stack([pick(xv, slice(None), k) for k in p], 1)
    if info["embed"] == "embedded":
        emb = xv
    elif info["embed"] == "fmap":
        emb = apply_map(c, xv, info["d"])
    else:
        emb = default_embed(xv)
    lr = c.attr(m, "linear_region")
    sites = sites or chain_of(c, modules_of(c, c.attr(lr, "module_list")))
    return ref_chain(sites, emb, info["periodic"])
