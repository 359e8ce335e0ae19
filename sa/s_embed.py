"""Embeddings: domains, Gram matrices, embedding functions."""
from math import comb
from .cases import *
from .interp import ClassV
from .s_prob import moved_result, apply_map2, weight_map, born, prob_amp, prob_norm, get_params

SV = slice(None)


def points_ref(c, domain, npts):
    """Reference sample points of a domain (its values, or a uniform grid)."""
    if domain[0] == "disc":
        n = domain[1]
        if isinstance(n, int):
            return TVal((T.axis_for(n),), {p: X.E(p[0]) if p else X.ZERO for p in T.positions(T.enums((T.axis_for(n),)))}, I64, "C")
        ax = T.axis_for(n)
        X.TINFO["iota"] = {"real": True}
        return TVal((ax,), {(): X.T("iota", (ax[1],))}, I64, "C")
    lo, hi = Fraction(domain[1]), Fraction(domain[2])
    if npts <= 12:
        ax = ("E", npts)
        return TVal((ax,), {(k,): X.E(lo + (hi - lo) * Fraction(k, npts - 1)) for k in range(npts)}, c.fdt if False else FD, "C")
    v = X.newvar(npts)
    X.TINFO["iota"] = {"real": True}
    e = X.E(lo) + X.mul(X.E((hi - lo) / (npts - 1)), X.T("iota", (v,)))
    return TVal((("V", v),), {(): e}, FD, "C")


def gram_ref(c, domain, vecs, pts):
    if domain[0] == "disc":
        return es("ki,kj->ij", vecs, conj(vecs))
    m = es("ki,kj->kij", vecs, conj(vecs))
    h = Fraction(1, 2)
    hi, lo = T.getitem(m, (slice(1, None),)), T.getitem(m, (slice(None, -1),))
    dx = ew(lambda a, b: X.mul(a - b, X.E(h)), T.getitem(pts, (slice(1, None),)), T.getitem(pts, (slice(None, -1),)))
    return es("kij,k->ij", ew(lambda a, b: a + b, hi, lo), dx)


def lamb_full(c, lam, d):
    """Matrix form of a Gram matrix given as scalar, diagonal or matrix."""
    v = val(lam)
    if v.ndim == 2:
        return v
    i = T.eye(d, d, v.dt, v.dev)
    if v.ndim == 1:
        return es("ij,j->ij", i, v)
    s = v.scalar
    return i.map(lambda e: X.mul(e, s))


def gram_check(c, prop, name, lam, want, d, grad=False):
    if not isinstance(lam, TensorObj):
        c.bad(prop, name, f"the matrix for normalisation is {c.it.tname(lam)}")
        return
    v = val(lam)
    if v.ndim > 2:
        c.bad(prop, name, f"the matrix for normalisation has {v.ndim} axes")
        return
    full = lamb_full(c, lam, d)
    c.same(prop, name, full, want)
    if grad:
        c.same("C15", name + " gradient", full, want, grad=True)


def dom(c, domain):
    D = c.get("embeddings", "DataDomain")
    if domain[0] == "disc":
        return c.run(D, False, domain[1])
    num = lambda x: float(x) if False else Fraction(x)
    return c.run(D, True, num(domain[2]), num(domain[1]))


def fmap_of(c, kind, d, pts):
    if kind == "weights":
        return lambda x: weight_map(c, x, d)
    if kind == "onehot":
        return lambda x: weight_map(c, x, d, False)
    return lambda x: apply_map2(c, x, d, cplx=kind == "cplx")


def fixed(c, domain, kind="real", d=None, npts=None, x_shape=1):
    d = c.size("d") if d is None else d
    if domain == "symbolic":
        domain = ("disc", c.size("M"))
    fm = fmap_of(c, kind, d, None)
    fun = Native("embed", lambda x: TensorObj(Root(fm(x.get()))))
    emb = c.run(c.get("embeddings", "FixedEmbedding"), fun, dom(c, domain))
    if npts:
        c.meth(emb, "make_lambda", num_points=npts)
    n = npts
    if domain[0] == "cont" and not npts:
        n = c.attr(emb, "num_points") if "num_points" in emb.attrs else 1000
    c.generic()
    pts = points_ref(c, domain, n)
    want = gram_ref(c, domain, fm(pts), pts)
    gram_check(c, "C20", "Gram matrix", c.attr(emb, "lamb_mat"), want, d)
    ed = c.attr(emb, "emb_dim")
    c.check("C20", "embedding dimension", T.dim_eq(ed, d) if not isinstance(ed, TensorObj) else None, f"emb_dim is {ed}")
    c.begin()
    sh = [c.size(f"n{k}") for k in range(x_shape)]
    x = c.tensor("xd", tuple(sh))
    y = c.run(emb, x)
    for p in ("C20", "C12"):
        c.same(p, "embedded data", y, fm(val(x)))


def user_module(c, fm, w):
    """A user's nn.Module: x[..., None] -> vectors, with one parameter."""
    M = c.it.module("torchmps.embeddings")
    nn = c.it.lib.nn_module_class() if hasattr(c.it.lib, "nn_module_class") else None
    return nn


def dense(c, W, b, x):
    """sigmoid(W x + b) on the last axis of x."""
    x = val(x)
    la = "".join(chr(ord("p") + k) for k in range(x.ndim - 1))
    r = es(f"oi,{la}i->{la}o", W, x)
    return ew(lambda p, q: X.fn("sigmoid", [p + q]), r, b)


def mlp_ref(c, layers, x):
    x = T.getitem(val(x), (Ellipsis, None))
    for W, b in layers:
        x = dense(c, W, b, x)
    return x


def mlp_layers(c, emb):
    """(weight, bias) of the linear layers in order."""
    out = []
    mods = []

    def go(m):
        if m.cls.name == "Linear":
            mods.append(m)
        for k in (m.modules or {}).values():
            if isinstance(k, Instance):
                go(k)
    go(emb)
    for m in mods:
        out.append((m.params["weight"], m.params["bias"]))
    return out


def mlp(c, hidden, layers=2, domain=None, npts=None, out=None, dims=None, prob=False, again=False):
    out = c.size("o") if out is None else out
    kw = {}
    if layers != 2:
        kw["num_layers"] = layers
    hid = [c.size(h) if isinstance(h, str) else h for h in hidden] if isinstance(hidden, (list, tuple)) else hidden
    if hidden is not None:
        kw["hidden_dims"] = c.lst(hid, "hidden_dims") if isinstance(hid, list) else hid
    if domain:
        kw["data_domain"] = dom(c, domain)
    emb = c.run(c.get("embeddings", "init_mlp_embed"), out, **kw)
    if again:
        c.construct(c.get("embeddings", "init_mlp_embed"), c.size("o2"), **{k: v for k, v in kw.items() if k != "data_domain"})
        emb = c.run(c.get("embeddings", "init_mlp_embed"), out, **kw)
    ps = c.name_params(emb)
    c.begin()
    expect = [1] + (list(hid) if isinstance(hid, list) else [100 if hid is None else hid] * (layers - 1)) + [out]
    ls = mlp_layers(c, emb)
    got = [(val(W).shape[1], val(W).shape[0]) for W, _ in ls]
    want = list(zip(expect, expect[1:]))
    c.check("C18", "layer sizes", len(got) == len(want) and all(T.dim_eq(a, p) and T.dim_eq(b, q) for (a, b), (p, q) in zip(got, want)),
            f"layers {got} instead of {want}")
    reg = {id(p.root) for p in ps.values()}
    c.check("C15", "registered", all(id(t.root) in reg for W, b in ls for t in (W, b) if t is not None), "a layer of the embedding is not registered")
    dm = domain or ("cont", 0, 1)
    for rnd in range(2):
        if npts:
            lam = c.meth(emb, "make_lambda", num_points=npts)
        else:
            lam = c.attr(emb, "lamb_mat")
        n = npts
        if dm[0] == "cont" and not n:
            n = emb.attrs.get("num_points", 1000)
        c.generic()
        pts = points_ref(c, dm, n)
        if c.moved:
            pts = pts.rep(dev="M", dt=c.fdt, cells=pts.cells)
        want = gram_ref(c, dm, mlp_ref(c, mlp_layers(c, emb), pts), pts)
        gram_check(c, "C20", "Gram matrix" + (" after an update" if rnd else ""), lam, want, out, grad=True)
        if rnd:
            c.same("C17", "current parameters", lamb_full(c, lam, out), want)
        x = c.tensor("xd", (c.size("B"), c.size("n")), c.fdt, c.dev)
        y = c.run(emb, x)
        for p in ("C20", "C12"):
            c.same(p, "embedded data", y, mlp_ref(c, mlp_layers(c, emb), x))
        c.same("C15", "gradient", y, mlp_ref(c, mlp_layers(c, emb), x), grad=True)
        if c.moved:
            moved_result(c, y)
            c.check("C14", "Gram matrix", val(lam).dev == "M" and val(lam).dt.prec == "P", f"the Gram matrix is {T.name_dt(val(lam).dt)} on {val(lam).dev}")
        if npts is None and n > 12:
            break
        if not rnd:
            c.name_params(emb, "new_")
            c.begin()


def onehot(c, shape, emb_dim, moved=False):
    sh = tuple(c.size(s) if isinstance(s, str) else s for s in shape)
    d = c.size("d") if emb_dim is None else emb_dim
    x = c.ints("x", sh, c.dev)
    X.TINFO["x"]["range"] = d if isinstance(d, int) else None
    c.begin()
    y = c.fn("embeddings", "onehot_embed", x, d)
    if isinstance(d, int):
        want = T.stack([val(x).map(lambda e: X.compare("eq", e, X.E(k)), dt=FD) for k in range(d)], len(sh))
        c.same("C20", "components", y, want)
        c.same("C12", "components", y, want)
    else:
        ax = T.axis_for(d)
        v = val(x)
        vv = v.cells[()] if len(v.cells) == 1 else None
        c.check("C20", "shape", [str(s) for s in val(y).shape] == [str(s) for s in sh + (d,)], f"shape {list(val(y).shape)}")
    if c.moved:
        c.check("C14", "device", val(y).dev == "M", f"the result is on {val(y).dev}")


def trig(c, shape, emb_dim, fun="trig_embed"):
    sh = tuple(c.size(s) if isinstance(s, str) else s for s in shape)
    x = c.tensor("x", sh, c.fdt, c.dev)
    c.begin()
    if fun == "sincos_embed" or emb_dim is None:
        y = c.fn("embeddings", fun, x)
        d = 2
    else:
        y = c.fn("embeddings", fun, x, emb_dim)
        d = emb_dim
    ang = val(x).map(lambda e: X.mul(X.mul(e, X.number("pi")), X.E(Fraction(1, 2))))
    cs, sn = ang.map(lambda e: X.fn("cos", [e])), ang.map(lambda e: X.fn("sin", [e]))
    comps = []
    for s in range(d):
        r = X.powr(X.E(comb(d - 1, s)), Fraction(1, 2))
        comps.append(ew(lambda a, b: X.mul(X.mul(X.powr(a, Fraction(d - 1 - s)), X.powr(b, Fraction(s))), r), cs, sn))
    want = T.stack(comps, len(sh))
    for p in ("C20", "C12", "C18"):
        c.same(p, "components", y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y)


def malformed(c, what):
    from .s_contract import raising
    g = lambda n: c.get("embeddings", n)
    f = Native("embed", lambda x: TensorObj(Root(apply_map2(c, x.get(), 2))))
    if what == "reversed interval":
        raising(c, lambda: c.run(g("DataDomain"), True, 0, 1), "an interval with max_val < min_val")
        raising(c, lambda: c.run(g("DataDomain"), True, 1, 1), "an empty interval")
        raising(c, lambda: c.run(g("DataDomain"), True, 1), "an interval without a start point")
    elif what == "negative size":
        raising(c, lambda: c.run(g("DataDomain"), False, -1), "a negative number of indices")
    elif what == "not callable":
        raising(c, lambda: c.run(g("FixedEmbedding"), 3, c.run(g("DataDomain"), False, 2)), "an embedding function that is not callable")
    elif what == "not a module":
        raising(c, lambda: c.run(g("TrainableEmbedding"), f, c.run(g("DataDomain"), False, 2)), "a trainable embedding that is not a module")
    elif what == "hidden dims":
        raising(c, lambda: c.run(g("init_mlp_embed"), 2, hidden_dims=LObj([3, 4])), "two hidden sizes for two layers")
        raising(c, lambda: c.run(g("init_mlp_embed"), 2, num_layers=3, hidden_dims=LObj([3])), "one hidden size for three layers")
    elif what == "embedding shape":
        f3 = Native("embed", lambda x: TensorObj(Root(apply_map2(c, T.stack([x.get()] * 2, 1), 2))))
        raising(c, lambda: c.run(g("FixedEmbedding"), f3, c.run(g("DataDomain"), False, 2)), "an embedding function returning matrices")
    elif what == "point count":
        f3 = Native("embed", lambda x: TensorObj(Root(apply_map2(c, T.getitem(x.get(), (slice(1, None),)), 2))))
        raising(c, lambda: c.run(g("FixedEmbedding"), f3, c.run(g("DataDomain"), False, 3)), "an embedding function that drops points")


def prob_emb(c, unif=False, how="fixed", domain=("disc", 3), n=2, call=None):
    """Probabilistic models given embedding objects or functions with a domain."""
    d = c.size("d")
    D = c.size("D")
    if how == "mlp":
        kw = {"data_domain": dom(c, domain)} if domain else {}
        emb = c.run(c.get("embeddings", "init_mlp_embed"), d, hidden_dims=LObj([c.size("h")]), **kw)
        opts = dict(embed_fun=emb)
    else:
        fm = lambda x: apply_map2(c, x, d)
        fun = Native("embed", lambda x: TensorObj(Root(fm(x.get()))))
        if how == "fixed":
            opts = dict(embed_fun=c.run(c.get("embeddings", "FixedEmbedding"), fun, dom(c, domain)))
        else:
            opts = dict(embed_fun=fun, domain=dom(c, domain))
    cls = c.get("prob_mps", "ProbUnifMPS" if unif else "ProbMPS")
    m = c.run(cls, *([d, D] if unif else [n, d, D]), **opts)
    ps = c.name_params(m)
    c.begin()
    A, ev, _ = get_params(c, m, ps)
    dm = domain or ("cont", 0, 1)
    npts = None
    if dm[0] == "cont":
        npts = 1000
    c.generic()
    if how == "mlp":
        ls = mlp_layers(c, c.attr(m, "embedding"))
        reg = {id(p.root) for p in ps.values()}
        c.check("C15", "registered embedding", all(id(t.root) in reg for W, b in ls for t in (W, b)), "the trainable embedding is not part of the model's parameters")
        fm = lambda x: mlp_ref(c, ls, x)
    x = c.tensor("x", (c.size("B"), n), c.fdt, c.dev) if dm[0] == "cont" else c.ints("x", (c.size("B"), n), c.dev)
    y = c.run(m, x, **(call or {}))
    c.generic()
    pts = points_ref(c, dm, npts)
    if c.moved:
        pts = pts.rep(dev="M", dt=c.fdt if dm[0] == "cont" else I64, cells=pts.cells)
    lam = gram_ref(c, dm, fm(pts), pts)
    want = born(prob_amp(c, A, ev, None, fm(val(x)), n, unif, True), prob_norm(c, A, ev, None, n, unif, lam))
    for p in ("C01", "C12", "C20"):
        c.same(p, "log probability", y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y)


def register():
    P = "C20 C12 C16 C17"
    for M in (1, 2, 3, 4):
        for kind in ("real", "cplx"):
            scenario(P, f"fixed embedding of {M} indices {kind}", fixed, domain=("disc", M), kind=kind)
        scenario(P, f"fixed embedding of {M} indices weights", fixed, domain=("disc", M), kind="weights", d=M)
        scenario(P, f"fixed embedding of {M} indices onehot", fixed, domain=("disc", M), kind="onehot", d=M)
    for d in (1, 2, 3):
        scenario(P, f"fixed embedding into {d} dimensions", fixed, domain=("disc", 3), kind="cplx", d=d)
        scenario(P, f"fixed continuous embedding into {d} dimensions", fixed, domain=("cont", 0, 1), kind="cplx", d=d, npts=3)
    scenario(P, "fixed embedding of M indices", fixed, domain="symbolic")
    scenario(P, "fixed embedding of M indices complex", fixed, domain="symbolic", kind="cplx")
    for lo, hi in ((0, 1), (-1, 2), ("1/2", 3)):
        for npts in (2, 3, 5, None):
            for kind in ("real", "cplx"):
                scenario(P, f"fixed embedding of [{lo},{hi}] {kind} {npts or 'default'} points", fixed, domain=("cont", lo, hi), kind=kind, npts=npts)
    for xs in (0, 2, 3):
        scenario(P, f"fixed embedding of data with {xs} axes", fixed, domain=("disc", 2), x_shape=xs)
    Q = P + " C15 C18"
    for npts in (2, 3, 4):
        scenario(Q, f"MLP embedding {npts} points", mlp, hidden=["h"], npts=npts)
    scenario(Q, "MLP embedding", mlp, hidden=["h"])
    scenario(Q, "MLP embedding default hidden", mlp, hidden=None, npts=2)
    scenario(Q, "MLP embedding default hidden twice", mlp, hidden=None, npts=2, again=True)
    scenario(Q, "MLP embedding hidden sizes twice", mlp, hidden=["h"], npts=2, again=True)
    scenario(Q, "MLP embedding int hidden", mlp, hidden=7, npts=2)
    scenario(Q, "MLP embedding three layers", mlp, hidden=["h1", "h2"], layers=3, npts=2)
    scenario(Q, "MLP embedding three layers int", mlp, hidden=5, layers=3, npts=2)
    scenario(Q, "MLP embedding one layer", mlp, hidden=[], layers=1, npts=3)
    scenario(Q, "MLP embedding of [-1,2]", mlp, hidden=["h"], domain=("cont", -1, 2), npts=3)
    scenario(Q, "MLP embedding of [-1,2] default points", mlp, hidden=["h"], domain=("cont", -1, 2))
    scenario(Q + " C14", "MLP embedding moved", mlp, hidden=["h"], npts=3, moved=True, raises="C14")
    scenario(Q + " C14", "MLP embedding moved default points", mlp, hidden=["h"], moved=True, raises="C14")
    for sh in ((), ("B",), ("B", "n"), (1, "n"), ("B", 1), ("B", 3)):
        for d in (1, 2, 3, None):
            scenario("C20 C12 C16 C17", f"onehot_embed {sh} dim {d or 'd'}", onehot, shape=sh, emb_dim=d)
        scenario("C20 C14", f"onehot_embed {sh} moved", onehot, shape=sh, emb_dim=3, moved=True, raises="C14")
        for d in (1, 2, 3, 4, 5, None):
            scenario("C20 C12 C15 C16 C17 C18", f"trig_embed {sh} dim {d}", trig, shape=sh, emb_dim=d)
        scenario("C20 C12 C16 C17 C18", f"sincos_embed {sh}", trig, shape=sh, emb_dim=None, fun="sincos_embed")
        scenario("C20 C14", f"trig_embed {sh} moved", trig, shape=sh, emb_dim=3, moved=True, raises="C14")
    for w in ("reversed interval", "negative size", "not callable", "not a module", "hidden dims", "embedding shape", "point count"):
        scenario("C19", f"malformed embedding: {w}", malformed, what=w)
    R = "C20 C01 C12 C15 C16 C17"
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for how in ("fixed", "function"):
            scenario(R, f"{u} {how} discrete embedding", prob_emb, unif=unif, how=how)
            scenario(R, f"{u} {how} continuous embedding", prob_emb, unif=unif, how=how, domain=("cont", -1, 2))
            scenario(R + " C14", f"{u} {how} discrete embedding moved", prob_emb, unif=unif, how=how, moved=True, raises="C14")
        scenario(R, f"{u} MLP embedding", prob_emb, unif=unif, how="mlp", domain=None)
        scenario(R, f"{u} MLP embedding parallel", prob_emb, unif=unif, how="mlp", domain=None, call=dict(parallel_eval=True))
        scenario(R + " C14", f"{u} MLP embedding moved", prob_emb, unif=unif, how="mlp", domain=None, moved=True, raises="C14")


register()
