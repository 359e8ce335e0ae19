"""Models given modules written by a user: trainable and fixed embeddings of
discrete and continuous domains, feature maps with parameters."""
from .cases import *
from .s_prob import moved_result, born, prob_amp, prob_norm, get_params
from .s_embed import dom, points_ref, gram_ref, gram_check, lamb_full

SV = slice(None)


def hot(x, n):
    """One-hot form of an integer tensor, as real numbers."""
    return T.stack([val(x).map(lambda e, k=k: X.compare("eq", e, X.E(k)), dt=FD) for k in range(n)], val(x).ndim)


def select(tab, x, n, index=True):
    """tab[x] for 0 <= x < n."""
    x = val(x)
    la = "".join(chr(ord("p") + k) for k in range(x.ndim))
    if n == 1 and index:
        return es(f"{la},o->{la}o", x.map(lambda e: X.ONE, dt=FD), pick(tab, 0))
    return es(f"{la}i,io->{la}o", hot(x, n), tab)


def user_module(c, kind, d, M):
    """(module, reference map of its parameters)"""
    dt = c.cdt if "complex" in kind else c.fdt
    k = kind.split()[0]
    if k in ("Table", "OneHotLinear"):
        t = c.tensor("tab", (M, d), dt, c.dev, batch=None, owner=False)
        mod = c.construct(c.user(k), t, *([M] if k == "OneHotLinear" else []))
        return mod, lambda ps, pre: (lambda x: select(ps[pre + ("table" if k == "Table" else "weight")], x, M, k == "Table"))
    if k == "Affine":
        mod = c.construct(c.user(k), *(c.tensor(n, (d,), dt, c.dev, batch=None, owner=False) for n in "wv"))
        return mod, lambda ps, pre: (lambda x: ew(lambda a, b: a + b, es("{0},o->{0}o".format("pqrst"[:val(x).ndim]), x, ps[pre + "w"]), ps[pre + "v"]))
    if k in ("Frozen", "FrozenMap"):
        mod = c.construct(c.user(k))
        f = lambda x: T.stack([val(x).map(lambda e: X.fn("cos", [e])), val(x).map(lambda e: X.fn("sin", [e]))], val(x).ndim)
        return mod, lambda ps, pre: f
    raise ValueError(kind)


def trainable(c, kind, M=3, domain=None, npts=None, d=None):
    """TrainableEmbedding of a user's module: Gram matrix, embedded data, gradients."""
    d = 2 if kind == "Frozen" else c.size("d") if d is None else d
    mod, ref = user_module(c, kind, d, M)
    dm = domain or ("disc", M)
    emb = c.run(c.get("embeddings", "TrainableEmbedding"), mod, dom(c, dm))
    ps = c.name_params(emb)
    names = {n.split(".")[-1]: p for n, p in ps.items()}
    c.check("C15", "registered", len(ps) == {"Table": 1, "OneHotLinear": 1, "Affine": 2, "Frozen": 0}[kind.split()[0]], f"registered parameters are {sorted(ps)}")
    c.begin()
    for rnd in range(2):
        f = ref({n.split(".")[-1]: p for n, p in c.named(emb)}, "")
        lam = c.meth(emb, "make_lambda", num_points=npts) if npts else c.attr(emb, "lamb_mat")
        c.generic()
        pts = points_ref(c, dm, npts or (1000 if dm[0] == "cont" else None))
        if c.moved:
            pts = pts.rep(dev="M", dt=c.fdt if dm[0] == "cont" else I64, cells=pts.cells)
        want = gram_ref(c, dm, f(pts), pts)
        gram_check(c, "C20", "Gram matrix" + (" after an update" if rnd else ""), lam, want, d, grad=True)
        if rnd:
            c.same("C17", "current parameters", lamb_full(c, lam, d), want)
        sh = (c.size("B"), c.size("n"))
        x = c.ints("xi", sh, c.dev) if dm[0] == "disc" else c.tensor("xd", sh, c.fdt, c.dev)
        if dm[0] == "disc":
            X.TINFO["xi"]["range"] = M
        y = c.run(emb, x)
        for p in ("C20", "C12"):
            c.same(p, "embedded data", y, f(x))
        c.same("C15", "gradient", y, f(x), grad=True)
        if c.moved:
            moved_result(c, y)
            c.check("C14", "Gram matrix", val(lam).dev == "M" and val(lam).dt.prec == "P", f"the Gram matrix is {T.name_dt(val(lam).dt)} on {val(lam).dev}")
        if not rnd:
            c.name_params(emb, "new_")
            c.begin()


def prob_user(c, kind, wrap, unif=False, n=2, M=3, domain=None, call=None):
    """Probabilistic models given a user's module, bare or wrapped."""
    d, D = 2 if kind.startswith("Frozen") else c.size("d"), c.size("D")
    mod, ref = user_module(c, kind, d, M)
    dm = domain or ("disc", M)
    cplx = "complex" in kind
    if wrap == "trainable":
        opts = dict(embed_fun=c.construct(c.get("embeddings", "TrainableEmbedding"), mod, dom(c, dm)))
    else:
        opts = dict(embed_fun=mod, domain=dom(c, dm))
    if cplx:
        opts["complex_params"] = True
    m = c.run(c.get("prob_mps", "ProbUnifMPS" if unif else "ProbMPS"), *([d, D] if unif else [n, d, D]), **opts)
    ps = c.name_params(m)
    c.begin()
    A, ev, _ = get_params(c, m, ps)
    f = ref({k.split(".")[-1]: p for k, p in ps.items()}, "")
    npts = 1000 if dm[0] == "cont" else None
    x = c.tensor("x", (c.size("B"), n), c.fdt, c.dev) if dm[0] == "cont" else c.ints("x", (c.size("B"), n), c.dev)
    if dm[0] == "disc":
        X.TINFO["x"]["range"] = M
    y = c.run(m, x, **(call or {}))
    c.generic()
    pts = points_ref(c, dm, npts)
    if c.moved:
        pts = pts.rep(dev="M", dt=c.fdt if dm[0] == "cont" else I64, cells=pts.cells)
    lam = gram_ref(c, dm, f(pts), pts)
    want = born(prob_amp(c, A, ev, None, f(x), n, unif, True), prob_norm(c, A, ev, None, n, unif, lam))
    for p in ("C01", "C12", "C20"):
        c.same(p, "log probability", y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y, cplx)


def mapped(c, ti=False, as_list=False, d=3, late=False, **kw):
    """A registered feature map that is a module with its own parameters."""
    Bv = 2
    mod, ref = user_module(c, "Affine", d, 0)
    if ti:
        m = c.construct(c.get("torchmps", "TI_MPS"), c.size("o"), c.size("D"), feature_dim=d, **kw)
    else:
        m = c.construct(c.get("torchmps", "MPS"), 2, c.size("o"), c.size("D"), feature_dim=d, **kw)
    c.meth(m, "register_feature_map", mod)
    ps = c.name_params(m)
    c.begin(m)
    fp = {k.split(".")[-1]: p for k, p in ps.items() if "feature_map" in k}
    c.check("C15", "feature map registered", len(fp) == 2, f"the parameters of the feature map are not parameters of the model: {sorted(ps)}")
    if len(fp) != 2:
        return
    f = ref(fp, "")
    if ti:
        from .s_ti import ti_ref, parts
        p = [val(c.attr(m, "core_tensor")), None, val(c.attr(c.attr(m, "init_vector"), "vec")), val(c.attr(c.attr(m, "terminal_mat"), "mat"))]
        p[1] = val(c.attr(m, "bias_mat")) if kw.get("use_bias", True) else None
        if as_list:
            xs = [c.tensor(f"x{k}", (n,), c.fdt, c.dev, batch=None) for k, n in enumerate((2, 1))]
            y = c.run(m, c.lst(xs))
            want = T.stack([T.getitem(ti_ref(p, f(T.getitem(val(x), (None,)))), (0,)) for x in xs], 0)
        else:
            x = c.tensor("x", (Bv, 2), c.fdt, c.dev)
            y = c.run(m, x)
            want = ti_ref(p, f(x))
        props = ("C13", "C06", "C12", "C18")
    else:
        x = c.tensor("x", (Bv, 2), c.fdt, c.dev)
        y = c.run(m, x)
        sites = chain_of(c, modules_of(c, c.attr(c.attr(m, "linear_region"), "module_list")))
        xv = val(x) if not kw.get("path") else T.stack([pick(x, SV, k) for k in kw["path"]], 1)
        want = ref_chain(sites, f(xv), kw.get("periodic_bc", False))
        props = ("C05", "C06", "C12", "C18")
    for p in props:
        c.same(p, "feature map", y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y)


def register():
    for moved in (False, True):
        pr = " C14" if moved else ""
        t = " moved" if moved else ""
        kw = dict(moved=True, raises="C14") if moved else {}
        for o in (dict(), dict(parallel_eval=True), dict(periodic_bc=True)):
            scenario("C05 C06 C12 C15 C16 C17 C18" + pr, f"MPS feature module {list(o)}{t}", mapped, **o, **kw)
            if "periodic_bc" not in o:
                scenario("C13 C06 C12 C15 C16 C17 C18" + pr, f"TI_MPS feature module {list(o)}{t}", mapped, ti=True, **o, **kw)
                scenario("C13 C06 C12 C15 C16 C17 C18" + pr, f"TI_MPS feature module list {list(o)}{t}", mapped, ti=True, as_list=True, **o, **kw)
        scenario("C05 C06 C12 C15 C16 C17 C18" + pr, f"MPS feature module path{t}", mapped, path=[1, 0], **kw)
        scenario("C05 C06 C12 C15 C16 C17 C18" + pr, f"MPS feature module adaptive{t}", mapped, adaptive_mode=True, **kw)
    Q = "C20 C12 C15 C16 C17"
    for kind in ("Table", "Table complex", "OneHotLinear"):
        for M in (1, 2, 3):
            scenario(Q, f"trainable {kind} of {M} indices", trainable, kind=kind, M=M)
        scenario(Q, f"trainable {kind} into one dimension", trainable, kind=kind, M=2, d=1)
        scenario(Q, f"trainable {kind} into two dimensions", trainable, kind=kind, M=2, d=2)
        scenario(Q + " C14", f"trainable {kind} moved", trainable, kind=kind, M=2, moved=True, raises="C14")
    for kind in ("Affine", "Affine complex", "Frozen"):
        scenario(Q, f"trainable {kind} of [-1,2]", trainable, kind=kind, domain=("cont", -1, 2), npts=3)
        scenario(Q, f"trainable {kind} of [0,1] default points", trainable, kind=kind, domain=("cont", 0, 1))
        if kind != "Frozen":
            scenario(Q + " C14", f"trainable {kind} moved", trainable, kind=kind, domain=("cont", 0, 1), npts=2, moved=True, raises="C14")
    R = "C01 C20 C12 C15 C16 C17"
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for kind, dm in (("Table", None), ("Table complex", None), ("OneHotLinear", None), ("Affine", ("cont", -1, 2))):
            scenario(R, f"{u} trainable {kind}", prob_user, kind=kind, wrap="trainable", unif=unif, domain=dm)
            scenario(R, f"{u} trainable {kind} slim", prob_user, kind=kind, wrap="trainable", unif=unif, domain=dm, call=dict(slim_eval=True))
            scenario(R, f"{u} trainable {kind} parallel", prob_user, kind=kind, wrap="trainable", unif=unif, domain=dm, call=dict(parallel_eval=True))
            scenario(R + " C14", f"{u} trainable {kind} moved", prob_user, kind=kind, wrap="trainable", unif=unif, domain=dm, moved=True, raises="C14")
        scenario(R, f"{u} module without parameters", prob_user, kind="FrozenMap", wrap="function", unif=unif, domain=("cont", 0, 1))


register()
