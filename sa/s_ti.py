"""TI_MPS: one shared core, padding, embedding, boundary tensors, options."""
from .cases import *
from .s_prob import moved_result
from .s_contract import raising

SV = slice(None)


def ti_model(c, D=None, o=None, d=None, pre="", **opts):
    D = c.size("D") if D is None else D
    o = c.size("o") if o is None else o
    d = 2 if d is None else (c.size(d) if isinstance(d, str) else d)
    kw = dict(opts)
    kw["feature_dim"] = d
    m = c.construct(c.get("torchmps", "TI_MPS"), o, D, **kw)
    ps = c.name_params(m, pre)
    return m, ps, dict(D=D, o=o, d=d)


def parts(c, m, ps, info, fixed_ends=False, use_bias=True, fixed_bias=True):
    """(core, bias, vec, mat) with the registrations checked."""
    bufs = dict(c.named(m, "buffers"))
    want = {"core_tensor"} | (set() if fixed_ends else {"init_vector.vec", "terminal_mat.mat"}) | ({"bias_mat"} if use_bias and not fixed_bias else set())
    c.check("C15", "parameters registered", set(ps) == want, f"registered parameters are {sorted(ps)} instead of {sorted(want)}")
    c.check("C18", "trainable tensors", set(ps) == want, f"fixed_ends={fixed_ends}, use_bias={use_bias}, fixed_bias={fixed_bias} gives the parameters {sorted(ps)}")
    D, o = info["D"], info["o"]
    core = c.attr(m, "core_tensor")
    vec = c.attr(c.attr(m, "init_vector"), "vec")
    mat = c.attr(c.attr(m, "terminal_mat"), "mat")
    if fixed_ends:
        for t, nm in ((vec, "init_vector.vec"), (mat, "terminal_mat.mat")):
            c.check("C15", nm + " is a buffer", any(t is b for b in bufs.values()), f"{nm} is not a buffer although the ends are fixed")
        c.same("C18", "fixed initial vector", vec, T.const_tensor((D,), 1, c.fdt, c.dev))
        c.same("C18", "fixed terminal matrix", mat, T.eye(D, o, c.fdt, c.dev))
    bias = None
    if use_bias:
        b = c.attr(m, "bias_mat")
        if fixed_bias:
            c.check("C15", "bias is a buffer", any(b is x for x in bufs.values()), "the fixed bias matrix is not a buffer")
            c.same("C13", "fixed bias", b, T.eye(D, D, c.fdt, c.dev))
        bias = val(b)
    return val(core), bias, val(vec), val(mat)


def ti_ref(p, emb):
    """emb (b, n, i) -> (b, o)"""
    core, bias, vec, mat = p
    n = emb.shape[1]
    cur = None
    for k in range(n):
        m = es("lri,bi->blr", core, pick(emb, SV, k))
        if bias is not None:
            m = ew(lambda a, b: a + b, m, bias)
        cur = es("l,blr->br", vec, m) if cur is None else es("bl,blr->br", cur, m)
    return es("br,ro->bo", cur, mat)


def embed(c, info, x, kind):
    if kind == "embedded":
        return val(x)
    if kind == "fmap":
        return apply_map(c, x, info["d"])
    return default_embed(x)


def props_same(c, y, want, parallel=False, extra=()):
    for p, o in (("C13", "shared core"), ("C06", "boundary"), ("C12", "row independence"), ("C18", "options"), ("C07", "ordered product")) + tuple(extra):
        c.same(p, o, y, want)
    if parallel:
        c.same("C04", "same function", y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y)


def batch(c, n=3, kind="default", B=None, again=False, D=None, o=None, d=None, **opts):
    m, ps, info = ti_model(c, D, o, d, **opts)
    ropt = {k: v for k, v in opts.items() if k != "parallel_eval"}
    p = parts(c, m, ps, info, **ropt)
    if kind == "fmap":
        c.meth(m, "register_feature_map", opaque_map(c, info["d"]))
    c.begin()
    B = c.size("B") if B is None else B

    def inp(name, B, n):
        return c.tensor(name, (B, n, info["d"]) if kind == "embedded" else (B, n), c.fdt, c.dev)
    x = inp("x", B, n)
    y = c.run(m, x)
    want = ti_ref(p, embed(c, info, x, kind))
    props_same(c, y, want, opts.get("parallel_eval"))
    if again:
        m2, ps2, info2 = ti_model(c, c.size("D2"), c.size("o2"), 2, pre="m2.", parallel_eval=not opts.get("parallel_eval"), use_bias=not opts.get("use_bias", True))
        c.run(m2, c.tensor("z", (c.size("B2"), 2), c.fdt, c.dev))
        for nm, b, k in (("x3", c.size("B3"), 2), ("x4", 1, n), ("x5", c.size("B5"), 1)):
            x3 = inp(nm, b, k) if kind != "fmap" else inp(nm, 2, k)
            y3 = c.run(m, x3)
            w3 = ti_ref(p, embed(c, info, x3, kind))
            c.same("C17", "after other calls " + nm, y3, w3)
            c.same("C12", "other batch sizes " + nm, y3, w3)
        y1 = c.run(m, x)
        c.same("C17", "repeated call", y1, want)
        if kind == "default":
            # the list form after the tensor form
            seqs = [c.tensor(f"q{k}", (l,), c.fdt, c.dev, batch=None) for k, l in enumerate((2, 2))]
            yl = c.run(m, c.lst(seqs))
            wl = T.stack([T.getitem(ti_ref(p, default_embed(T.getitem(val(s), (None,)))), (0,)) for s in seqs], 0)
            c.same("C17", "list after tensor", yl, wl)


def seqs(c, lens=(2, 1), kind="default", D=None, o=None, d=None, **opts):
    m, ps, info = ti_model(c, D, o, d, **opts)
    ropt = {k: v for k, v in opts.items() if k != "parallel_eval"}
    p = parts(c, m, ps, info, **ropt)
    if kind == "fmap":
        c.meth(m, "register_feature_map", opaque_map(c, info["d"]))
    c.begin()
    xs = [c.tensor(f"x{k}", (l, info["d"]) if kind == "embedded" else (l,), c.fdt, c.dev, batch=None) for k, l in enumerate(lens)]
    arg = c.lst(xs, "input_data")
    y = c.run(m, arg)
    rows = [T.getitem(ti_ref(p, embed(c, info, T.getitem(val(x), (None,)), kind)), (0,)) for x in xs]
    want = T.stack(rows, 0)
    props_same(c, y, want, opts.get("parallel_eval"), (("C13", "padding"),))
    ok = len(arg) == len(xs) and all(a is b for a, b in zip(arg, xs))
    c.check("C16", "input list unchanged", ok, "the list of sequences is changed")


def malformed(c, what, **opts):
    d = opts.pop("d", 2)
    c.report_events = False
    m, ps, info = ti_model(c, d=d, **opts)
    B, d = c.size("B"), info["d"]
    c.begin()
    call = lambda x: (lambda: c.run(m, x))
    t = lambda name, *s: c.tensor(name, s, batch=None)
    if what == "feature dimension":
        raising(c, call(t("x", B, 3, d + 1)), "embedded input of a wrong feature dimension")
        raising(c, call(t("x1", B, 3, 1)), "embedded input of feature dimension one")
    elif what == "axes":
        raising(c, call(t("x", B, 3, d, 1)), "input with four axes")
        raising(c, call(t("x", B)), "input with one axis")
    elif what == "type":
        raising(c, call((t("x", 3), t("y", 3))), "a tuple of sequences")
        raising(c, call(3), "an integer input")
    elif what == "list axes":
        raising(c, call(LObj([t("x", 3), t("y", 3, d)])), "a list mixing embedded and raw sequences")
        raising(c, call(LObj([t("x", 3, d), t("y", 3)])), "a list mixing embedded and raw sequences")
        raising(c, call(LObj([t("x", 3, d, 1)])), "sequences with three axes")
        raising(c, call(LObj([t("x")])), "sequences without axes")
    elif what == "list features":
        raising(c, call(LObj([t("x", 3, d), t("y", 3, d + 1)])), "a sequence of a wrong feature dimension")
        raising(c, call(LObj([t("x", 3, 1)])), "a sequence of feature dimension one")
        for w in (1, d + 1, 0):
            for k in range(3):
                for ls in ((3, 3, 3), (3, 2, 1), (1, 2, 3)):
                    raising(c, call(LObj([t(f"s{j}", l, w if j == k else d) for j, l in enumerate(ls)])), f"sequence {k + 1} of three has {w if w in (0, 1) else 'd+1'} features")
        for ls in ((3, 1), (1, 3), (2, 2)):
            raising(c, call(LObj([t("x", ls[0], 1), t("y", ls[1], d)])), "the first of two sequences has one feature")
            raising(c, call(LObj([t("x", ls[0], d), t("y", ls[1], 1)])), "the second of two sequences has one feature")
    elif what == "empty list":
        raising(c, call(LObj([])), "an empty list of sequences")
    elif what == "lengths":
        raising(c, call(LObj([t("x", 3), t("y", 2)])), "sequences of different lengths without a fixed bias")
        raising(c, call(LObj([t("x", 2), t("y", 3), t("z", 3)])), "sequences of different lengths without a fixed bias")
        raising(c, call(LObj([t("x", 3, d), t("y", 2, d)])), "embedded sequences of different lengths without a fixed bias")
        if opts.get("use_bias", True) is False or opts.get("fixed_bias", True) is False:
            try:
                call(LObj([t("x", 3), t("y", 2)]))()
            except AbsRaise as ex:
                c.check("C13", "different lengths", ex.name == "ValueError", f"raises {ex.name}", ex.where)
            else:
                c.bad("C13", "different lengths", "sequences of different lengths are accepted without a fixed bias")
    elif what == "default embedding":
        raising(c, call(t("x", B, 3)), "the default embedding for a feature dimension other than two")
    elif what == "feature map":
        for s in ((3,), (1,), (d, 1), (1, d), ()):
            f = Native("map", lambda x, *a, s=s: TensorObj(Root(T.const_tensor(s, 0))))
            raising(c, lambda: c.meth(m, "register_feature_map", f), f"a feature map returning shape {list(s)}")
        raising(c, lambda: c.meth(m, "register_feature_map", Native("map", lambda x, *a: [1, 2])), "a feature map returning a list")
    elif what == "constructor":
        TI = c.get("torchmps", "TI_MPS")
        raising(c, lambda: c.run(TI, 3, 2, fixed_ends=True), "fixed ends with output_dim > bond_dim")
        raising(c, lambda: c.run(TI, 3, 4, fixed_ends=1), "a fixed_ends value that is not boolean")


def reset_map(c):
    """A registered map replaces the default one, None restores it."""
    m, ps, info = ti_model(c)
    p = parts(c, m, ps, info)
    x = c.tensor("x", (2, 2))
    c.meth(m, "register_feature_map", opaque_map(c, 2))
    c.begin()
    y = c.run(m, x)
    for q, o in (("C13", "feature map"), ("C18", "feature map")):
        c.same(q, o, y, ti_ref(p, apply_map(c, x, 2)))
    c.meth(m, "register_feature_map", None)
    y = c.run(m, x)
    for q, o in (("C13", "default map"), ("C18", "default map"), ("C17", "default map")):
        c.same(q, o, y, ti_ref(p, default_embed(x)))


def initial(c, std=None, **opts):
    """Content of the freshly constructed parameters."""
    D, d = c.size("D"), c.size("f")
    o = c.size("o")
    kw = dict(feature_dim=d, **opts)
    if std is not None:
        kw["init_std"] = Fraction(std)
    m = c.run(c.get("torchmps", "TI_MPS"), o, D, **kw)
    c.report_events = False
    s = X.E(Fraction(std)) if std is not None else X.E(Fraction(1, 10 ** 9))

    def noise(t, shape, centre, prop, what, sd):
        v = val(t)
        if v.ndim != len(shape) or not all(T.dim_eq(a, b) for a, b in zip(v.shape, shape)):
            c.bad(prop, what, f"{what} has shape {list(v.shape)} instead of {list(shape)}")
            return
        names = set()
        for e in v.cells.values():
            names |= {n for n, *_ in X.base_tensors(e) if X.TINFO.get(n, {}).get("rand")}
        ns = sorted(names)
        if not ns:
            c.bad(prop, what, f"{what} has no random part")
            return
        if len(ns) != 1 or X.TINFO[ns[0]]["rand"] != "randn":
            c.und(prop, what, f"noise of {ns}")
            return
        z = T.base_tensor(ns[0], v.shape, v.dt, v.dev, **X.TINFO[ns[0]])
        want = ew(lambda a, b: a + b, centre, z.map(lambda e: X.mul(e, sd)))
        c.same(prop, what, v, want)
    for prop in ("C23", "C18"):
        noise(c.attr(m, "core_tensor"), (D, D, d), T.const_tensor((D, D, d), 0), prop, "core", s)
        if opts.get("use_bias", True) and not opts.get("fixed_bias", True):
            noise(c.attr(m, "bias_mat"), (D, D), T.eye(D, D, FD, "C"), prop, "bias", s)
        if not opts.get("fixed_ends"):
            v = c.attr(c.attr(m, "init_vector"), "vec")
            c.same(prop, "initial vector", v, T.const_tensor((D,), 1))
            noise(c.attr(c.attr(m, "terminal_mat"), "mat"), (D, o), T.eye(D, o, FD, "C"), prop, "terminal matrix", X.inv(X.E(P(D))))


def register():
    Q = "C06 C07 C12 C13 C15 C16 C17 C18"
    for par in (False, True):
        pt = " parallel" if par else ""
        q = Q + (" C04" if par else "")
        for n in (1, 2, 3, 4, 5):
            scenario(q, f"TI_MPS n={n}{pt}", batch, n=n, parallel_eval=par)
            scenario(q, f"TI_MPS n={n}{pt} embedded", batch, n=n, kind="embedded", d="f", parallel_eval=par)
            scenario(q, f"TI_MPS n={n}{pt} embedded no bias", batch, n=n, kind="embedded", d="f", parallel_eval=par, use_bias=False)
            scenario(q, f"TI_MPS n={n}{pt} embedded free bias", batch, n=n, kind="embedded", d="f", parallel_eval=par, fixed_bias=False)
        for n in (8, 13):
            scenario(q, f"TI_MPS n={n}{pt} embedded no bias long", batch, n=n, kind="embedded", d="f", parallel_eval=par, use_bias=False)
        for n in (1, 2, 3):
            scenario(q, f"TI_MPS n={n}{pt} fixed ends", batch, n=n, kind="embedded", d="f", D=3, o=2, parallel_eval=par, fixed_ends=True)
            scenario(q, f"TI_MPS n={n}{pt} fixed ends no bias", batch, n=n, kind="embedded", d="f", D=3, o=2, parallel_eval=par, fixed_ends=True, use_bias=False)
            scenario(q, f"TI_MPS n={n}{pt} feature map", batch, n=n, kind="fmap", d=3, B=2, parallel_eval=par)
            scenario(q, f"TI_MPS n={n}{pt} batch of one", batch, n=n, B=1, parallel_eval=par)
            scenario(q, f"TI_MPS n={n}{pt} free bias", batch, n=n, parallel_eval=par, fixed_bias=False)
            scenario(q, f"TI_MPS n={n}{pt} sizes one", batch, n=n, kind="embedded", D=1, o=1, d=1, parallel_eval=par)
        for ub, fb in ((True, True), (True, False), (False, True)):
            bt = "" if ub and fb else " free bias" if ub else " no bias"
            scenario(q, f"TI_MPS{pt}{bt} history", batch, n=2, parallel_eval=par, use_bias=ub, fixed_bias=fb, again=True)
            for k in ("default", "embedded", "fmap"):
                dd = dict(default=None, embedded="f", fmap=3)[k]
                scenario(q, f"TI_MPS sequences{pt}{bt} {k} equal", seqs, lens=(2, 2), kind=k, d=dd, parallel_eval=par, use_bias=ub, fixed_bias=fb)
                scenario(q, f"TI_MPS sequences{pt}{bt} {k} single", seqs, lens=(3,), kind=k, d=dd, parallel_eval=par, use_bias=ub, fixed_bias=fb)
                scenario(q + " C14", f"TI_MPS moved{pt}{bt} {k}", batch, n=2, kind=k, d=dd, B=2 if k == "fmap" else None, parallel_eval=par, use_bias=ub, fixed_bias=fb, moved=True, raises="C14")
                scenario(q + " C14", f"TI_MPS sequences moved{pt}{bt} {k}", seqs, lens=(2, 2), kind=k, d=dd, parallel_eval=par, use_bias=ub, fixed_bias=fb, moved=True, raises="C14")
        for k in ("default", "embedded", "fmap"):
            dd = dict(default=None, embedded="f", fmap=3)[k]
            for lens in ((2, 1), (1, 2), (3, 1, 2), (1, 3, 3), (1, 1, 1)):
                scenario(q, f"TI_MPS sequences{pt} {k} {lens}", seqs, lens=lens, kind=k, d=dd, parallel_eval=par)
            scenario(q + " C14", f"TI_MPS sequences moved{pt} {k} padded", seqs, lens=(1, 2), kind=k, d=dd, parallel_eval=par, moved=True, raises="C14")
            scenario(q, f"TI_MPS sequences{pt} {k} fixed ends", seqs, lens=(1, 2), kind=k, d=dd, D=2, o=2, fixed_ends=True, parallel_eval=par)
    scenario("C13 C17 C18", "TI_MPS feature map reset", reset_map)
    for w in ("feature dimension", "axes", "type", "list axes", "list features", "empty list", "feature map", "constructor"):
        scenario("C19", f"malformed TI_MPS: {w}", malformed, what=w)
    scenario("C19", "malformed TI_MPS: default embedding", malformed, what="default embedding", d=3)
    for o in (dict(use_bias=False), dict(fixed_bias=False), dict(use_bias=False, fixed_bias=False)):
        scenario("C19 C13", f"malformed TI_MPS: lengths {sorted(o)}", malformed, what="lengths", **o)
    for std in (None, "1/4"):
        for o in (dict(), dict(fixed_ends=True), dict(fixed_bias=False), dict(use_bias=False)):
            if o.get("fixed_ends"):
                continue
            scenario("C23 C18", f"TI_MPS initial content std={std} {sorted(o)}", initial, std=std, **o)


register()
