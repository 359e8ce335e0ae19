"""Malformed inputs of MPS, the probabilistic models and the contraction helpers."""
from .cases import *
from .s_contract import raising
from .s_prob import apply_map2

SV = slice(None)


def t_of(c, name, *shape):
    return c.tensor(name, shape, c.fdt, c.dev, batch=None)


def mps_model(c, n=3, **kw):
    D, o = c.size("D"), c.size("o")
    d = kw.setdefault("feature_dim", 2)
    m = c.construct(c.get("torchmps", "MPS"), n, o, D, **kw)
    c.name_params(m)
    c.begin(m)
    return m


def mps_bad(c, what, **kw):
    c.report_events = False
    n = kw.pop("n", 3)
    MPS = c.get("torchmps", "MPS")
    B, D, o = c.size("B"), c.size("D"), c.size("o")
    build = lambda *a, **k: (lambda: c.run(MPS, *(a or (n, o, D)), **k))
    m = mps_model(c, n, **kw) if what in ("sites", "features", "axes", "feature map", "path input", "default embedding", "batch map") else None
    d = kw.get("feature_dim", 2)
    call = lambda x: (lambda: c.run(m, x))
    if what == "sites":
        for k in (1, n - 1, n + 1, 2 * n):
            if k and k != n:
                raising(c, call(t_of(c, f"x{k}", B, k)), f"input with {k} of {n} sites")
                raising(c, call(t_of(c, f"e{k}", B, k, d)), f"embedded input with {k} of {n} sites")
    elif what == "features":
        for f in (1, d + 1, c.size("q", d + 1)):
            raising(c, call(t_of(c, f"x{f}", B, n, f)), f"embedded input of feature dimension {f} instead of {d}")
    elif what == "axes":
        raising(c, call(t_of(c, "x1", B)), "input with one axis")
        raising(c, call(t_of(c, "x1", n)), "input without a batch axis")
        raising(c, call(t_of(c, "x4", B, n, d, 1)), "input with four axes")
        raising(c, call(t_of(c, "x5", B, n, 1, d)), "input with four axes")
    elif what == "default embedding":
        raising(c, call(t_of(c, "x", B, n)), f"the default embedding for feature dimension {d}")
    elif what == "feature map":
        for s in ((d + 1,), (1,), (d, 1), (1, d), ()):
            f = Native("map", lambda x, *a, s=s: TensorObj(Root(T.const_tensor(s, 0))))
            raising(c, lambda: c.meth(m, "register_feature_map", f), f"a feature map returning shape {list(s)}")
    elif what == "label_site":
        for k in (-1, n + 1, n + 5):
            raising(c, build(label_site=k), f"label_site={k} for {n} inputs")
    elif what == "path":
        for p in ([0] * (n - 1), list(range(n + 1)), []):
            raising(c, build(path=LObj(list(p))), f"a path of {len(p)} entries for {n} inputs")
        raising(c, build(path="01" + "2" * (n - 2)), "a path that is a string")
        raising(c, build(path=n), "a path that is a number")
    elif what == "path input":
        raising(c, call(t_of(c, "x", B, n - 1)), "input with fewer sites than the path names")
        raising(c, call(t_of(c, "e", B, n - 1, d)), "embedded input with fewer sites than the path names")


def region_bad(c, what):
    c.report_events = False
    g = lambda nm: c.get("torchmps", nm)
    D, E, f, o, B = c.size("D"), c.size("E", 2), c.size("f"), c.size("o"), c.size("B")
    mk = lambda nm, *a, **k: (lambda: c.run(g(nm), *a, **k))
    t = lambda nm, *s: t_of(c, nm, *s)
    if what == "InputRegion":
        raising(c, mk("InputRegion", t("a", 3, D, D)), "an InputRegion tensor of order 3")
        raising(c, mk("InputRegion", t("b", 3, D, D, f, f)), "an InputRegion tensor of order 5")
        raising(c, mk("InputRegion", t("c", 3, D, D + 1, f)), "an InputRegion tensor with different bond dimensions")
        for s in ((D,), (1, 1, D, D)):
            raising(c, mk("InputRegion", t("d", 3, D, D, f), bias_mat=t(f"e{len(s)}", *s)), f"a bias of order {len(s)}")
    elif what == "MergedInput":
        raising(c, mk("MergedInput", t("a", 3, D, D, f)), "a MergedInput tensor of order 4")
        raising(c, mk("MergedInput", t("b", 3, D, D + 1, f, f)), "a MergedInput tensor with different bond dimensions")
        raising(c, mk("MergedInput", t("c", 3, D, D, f, f + 1)), "a MergedInput tensor with different feature dimensions")
    elif what == "MergedOutput":
        raising(c, mk("MergedOutput", t("a", o, D, D), True), "a MergedOutput tensor of order 3")
        raising(c, mk("MergedOutput", t("b", o, D, D, f, f), False), "a MergedOutput tensor of order 5")
    elif what == "LinearRegion":
        raising(c, mk("LinearRegion", LObj([])), "an empty module list")
        raising(c, mk("MergedLinearRegion", LObj([])), "an empty module list")
        s = c.construct(g("OutputSite"), t("a", o, D, D))
        raising(c, mk("LinearRegion", (s,)), "a tuple of modules")
        raising(c, mk("LinearRegion", LObj([s, t("b", D, D)])), "a module list containing a tensor")
        raising(c, mk("LinearRegion", LObj([t("b2", D, D), s])), "a module list containing a tensor")
    elif what in ("region input", "region input periodic"):
        s = c.construct(g("OutputSite"), t("a", o, D, D))
        r = c.construct(g("InputRegion"), t("b", 2, D, D, f))
        lr = c.construct(g("LinearRegion"), LObj([r, s]), periodic_bc="periodic" in what)
        raising(c, lambda: c.run(lr, t("x", B, 3, f)), "three inputs for a region of two sites")
        raising(c, lambda: c.run(lr, t("y", B, 1, f)), "one input for a region of two sites")
        raising(c, lambda: c.run(lr, t("z", B, 2)), "input without a feature axis")
        raising(c, lambda: c.run(lr, t("w", B, 2, f + 1)), "input of a wrong feature dimension")
        raising(c, lambda: c.run(lr, t("v", B, 2, 1)), "input of feature dimension one")
    elif what == "module input":
        r = c.construct(g("InputRegion"), t("b", 2, D, D, f))
        m = c.construct(g("MergedInput"), t("m", 2, D, D, f, f))
        i = c.construct(g("InputSite"), t("i", D, D, f))
        mo = c.construct(g("MergedOutput"), t("mo", o, D, D, f), True)
        for nm, mod, n in (("InputRegion", r, 2), ("MergedInput", m, 4)):
            for k in (n - 1, n + 1, 2 * n, 1):
                raising(c, lambda: c.run(mod, t(f"{nm}{k}", B, k, f)), f"{k} inputs for {nm} of {n} sites")
            raising(c, lambda: c.run(mod, t(f"{nm}f", B, n, f + 1)), f"input of a wrong feature dimension for {nm}")
            raising(c, lambda: c.run(mod, t(f"{nm}1", B, n, 1)), f"input of feature dimension one for {nm}")
            raising(c, lambda: c.run(mod, t(f"{nm}a", B, n)), f"input without a feature axis for {nm}")
        for nm, mod in (("InputSite", i), ("MergedOutput", mo)):
            raising(c, lambda: c.run(mod, t(f"{nm}f", B, f + 1)), f"input of a wrong feature dimension for {nm}")
            raising(c, lambda: c.run(mod, t(f"{nm}1", B, 1)), f"input of feature dimension one for {nm}")
            raising(c, lambda: c.run(mod, t(f"{nm}a", B, 1, f)), f"input with three axes for {nm}")
    elif what == "ends":
        raising(c, mk("InitialVector", 3, fill_dim=4), "fill_dim above bond_dim")
        raising(c, mk("InitialVector", 3, fill_dim=-1), "a negative fill_dim")
        raising(c, mk("InitialVector", 3, is_left_vec=1), "an is_left_vec value that is not boolean")
        raising(c, mk("TerminalOutput", 2, 3, fixed_mat=True), "a fixed terminal matrix with output_dim > bond_dim")
        raising(c, mk("TerminalOutput", 3, 2, is_left_mat=1), "an is_left_mat value that is not boolean")


def prob_bad(c, what, unif=False):
    c.report_events = False
    cls = c.get("prob_mps", "ProbUnifMPS" if unif else "ProbMPS")
    n, B, D, d = 3, c.size("B"), c.size("D"), c.size("d")
    size = lambda a, b: (a, b) if unif else (n, a, b)
    mk = lambda *a, **k: (lambda: c.run(cls, *(a or size(d, D)), **k))
    fun = lambda e: Native("embed", lambda x: TensorObj(Root(apply_map2(c, x.get(), e))))
    dom = c.run(c.get("embeddings", "DataDomain"), False, 3)
    if what == "sizes":
        for a in ([(0, D), (d, 0), (-1, D), (d, -2)] if unif else [(0, d, D), (n, 0, D), (n, d, 0), (-1, d, D), (n, d, -1)]):
            raising(c, mk(*a), f"sizes {a}")
    elif what == "init_method":
        for s in ("near_zero", "", "Normal", "eye", None):
            raising(c, mk(init_method=s), f"init_method={s!r}")
    elif what == "embedding":
        raising(c, mk(embed_fun=fun(d)), "an embedding function without a domain")
        raising(c, mk(embed_fun=fun(d + 1), domain=dom), "an embedding into a different dimension than input_dim")
        raising(c, mk(embed_fun=c.run(c.get("embeddings", "FixedEmbedding"), fun(d + 1), dom)), "a FixedEmbedding into a different dimension than input_dim")
    elif what == "bias":
        m = c.construct(cls, *size(d, D), use_bias=True)
        c.name_params(m)
        x = c.ints("x", (B, n))
        raising(c, lambda: c.run(m, x, slim_eval=True), "slim_eval with bias matrices")
        raising(c, lambda: c.meth(m, "loss", x, slim_eval=True), "slim_eval with bias matrices")
        c.findings and [setattr(f, "prop", "C19") for f in c.findings]
        if c.findings:
            f = c.findings[0]
            c.findings.append(type(f)("C04", f.oblig, f.msg, f.where))
        else:
            c.ok("C04", "unsupported combination rejected")
    elif what == "data":
        m = c.construct(cls, *size(d, D))
        c.name_params(m)
        for call in ({}, dict(slim_eval=True), dict(parallel_eval=True)):
            tag = " ".join(call)
            if not unif:
                for k in (n - 1, n + 1, 1):
                    raising(c, lambda: c.run(m, c.ints(f"x{k}{tag}", (B, k)), **call), f"sequences of {k} instead of {n} elements {tag}")
                    raising(c, lambda: c.run(m, t_of(c, f"v{k}{tag}", B, k, d), **call), f"vector sequences of {k} instead of {n} elements {tag}")
            raising(c, lambda: c.run(m, t_of(c, "v" + tag, B, n, d + 1), **call), f"vector inputs of a different dimension than input_dim {tag}")
            raising(c, lambda: c.run(m, t_of(c, "w" + tag, B, n, 1), **call), f"vector inputs of dimension one {tag}")
            raising(c, lambda: c.run(m, t_of(c, "u" + tag, B, n, d, 1), **call), f"inputs with four axes {tag}")
            raising(c, lambda: c.run(m, c.ints("s" + tag, (B,)), **call), f"inputs with one axis {tag}")


def base_bad(c, what):
    c.report_events = False
    D, E, d, B = c.size("D"), c.size("E"), c.size("d"), c.size("B")
    f = lambda nm, *a, **k: (lambda: c.fn("mps_base", nm, *a, **k))
    t = lambda nm, *s: t_of(c, nm, *s)
    core, ucore, ev = t("A", 3, d, D, D), t("U", d, D, D), t("ev", 2, D)
    if what == "slim":
        x = c.ints("x", (B, 3))
        raising(c, f("slim_eval_fun", x, core, t("e1", 3, D)), "three boundary vectors")
        raising(c, f("slim_eval_fun", x, core, t("e2", 1, D)), "one boundary vector")
        raising(c, f("slim_eval_fun", x, core, t("e3", 2, D + 1)), "boundary vectors of a wrong dimension")
        raising(c, f("slim_eval_fun", x, core, t("e4", 2, 1)), "boundary vectors of dimension one")
        raising(c, f("slim_eval_fun", x, core, t("e5", 2, D, 1)), "boundary matrices")
        raising(c, f("slim_eval_fun", c.ints("y", (B, 2)), core, ev), "two inputs for three cores")
        raising(c, f("slim_eval_fun", c.ints("y4", (B, 4)), core, ev), "four inputs for three cores")
        raising(c, f("slim_eval_fun", t("v", B, 3, d + 1), core, ev), "vector inputs of a wrong dimension")
        raising(c, f("slim_eval_fun", t("v1", B, 3, 1), ucore, ev), "vector inputs of dimension one")
        raising(c, f("slim_eval_fun", x, t("A5", 1, 3, d, D, D), ev), "a core tensor with five axes")
        raising(c, f("slim_eval_fun", x, t("A2", D, D), ev), "a core tensor with two axes")
        raising(c, f("slim_eval_fun", t("x4", B, 3, d, 1), core, ev), "inputs with four axes")
    elif what == "slices":
        for k in (1, 2, 4):
            raising(c, f("get_mat_slices", c.ints(f"x{k}", (B, k)), core), f"{k} inputs for three cores")
        raising(c, f("get_mat_slices", t("w1", B, 3, 1), core), "vector inputs of dimension one")
        raising(c, f("get_mat_slices", t("w2", B, 3, 1), ucore), "vector inputs of dimension one for a uniform core")
        for k in (1, 2, 4):
            raising(c, f("get_mat_slices", t(f"v{k}", B, k, d), core), f"{k} vector inputs for three cores")
        raising(c, f("get_mat_slices", t("v", B, 3, d + 1), core), "vector inputs of a wrong dimension")
        raising(c, f("get_mat_slices", t("u", B, 3, d + 1), ucore), "vector inputs of a wrong dimension for a uniform core")
        raising(c, f("get_mat_slices", c.ints("s", (B,)), ucore), "inputs with one axis")
        raising(c, f("get_mat_slices", t("w", B, 3, d, 1), ucore), "inputs with four axes")
        raising(c, f("get_mat_slices", c.ints("z", (B, 3)), t("A2", D, D)), "a core tensor with two axes")
        raising(c, f("get_mat_slices", c.ints("z5", (B, 3)), t("A5", 2, 3, d, D, D)), "a core tensor with five axes")
    elif what == "norm":
        raising(c, f("get_log_norm", t("A2", D, D), ev), "a core tensor with two axes")
        raising(c, f("get_log_norm", t("A5", 2, 3, d, D, D), ev), "a core tensor with five axes")
        raising(c, f("get_log_norm", core, t("e3", 2, D + 1)), "boundary vectors of a wrong dimension")
        raising(c, f("get_log_norm", core, t("e4", 2, 1)), "boundary vectors of dimension one")
        raising(c, f("get_log_norm", core, ev, length=4), "a length that differs from the number of cores")
        raising(c, f("get_log_norm", core, ev, length=2), "a length that differs from the number of cores")
        raising(c, f("get_log_norm", ucore, ev), "a uniform core without a length")
        raising(c, f("get_log_norm", core, ev, lamb_mat=t("l3", d, d, d)), "a normalisation matrix with three axes")
        raising(c, f("get_log_norm", core, ev, lamb_mat=t("l2", d + 1, d + 1)), "a normalisation matrix of a wrong size")
        raising(c, f("get_log_norm", core, ev, lamb_mat=t("l1", d + 1)), "a normalisation vector of a wrong size")
        raising(c, f("get_log_norm", core, ev, lamb_mat=t("l4", 1, 1)), "a normalisation matrix of size one")
        raising(c, f("get_log_norm", core, ev, lamb_mat=t("l5", 1)), "a normalisation vector of size one")
        raising(c, f("get_log_norm", core, t("e7", 1, D)), "one boundary vector")
    elif what == "matseq":
        raising(c, f("contract_matseq", LObj([])), "an empty list without boundary vectors")
        raising(c, f("contract_matseq", LObj([t("a", D, E), t("b", D, E + 1)])), "matrices without a common bond")
        raising(c, f("contract_matseq", LObj([t("a2", D, E), t("b2", D, D)]), t("l", D)), "matrices without a common bond")
        raising(c, f("contract_matseq", t("M", 3, D, D), t("l2", D + 1)), "a left vector of a wrong dimension")
        raising(c, f("contract_matseq", t("M2", 3, D, D), None, t("l3", D + 1)), "a right vector of a wrong dimension")
        raising(c, f("contract_matseq", t("M3", 3, D, D), t("l4", 1), t("r4", D)), "a left vector of dimension one")
        raising(c, f("contract_matseq", t("M4", 3, D, D), t("l5", D), t("r5", 1), True), "a right vector of dimension one")
        raising(c, f("contract_matseq", t("M5", B + 1, 3, D, D), t("l6", B, D)), "incompatible batch axes")
        raising(c, f("contract_matseq", t("M6", 3, D, E + 1)) if False else f("contract_matseq", t("M6", 3, D, D + 1)), "non-square matrices in one tensor")
        raising(c, f("contract_matseq", t("M7", 3, D, D), LObj([1, 2])), "a boundary vector that is a list")
        raising(c, f("contract_matseq", LObj([]), t("l8", D), t("r8", D + 1)), "boundary vectors of different dimensions")
    elif what == "reduce_par":
        raising(c, f("mat_reduce_par", t("M", 3, D, D + 1)), "non-square matrices")
        raising(c, f("mat_reduce_par", t("M2", D, D)), "a single matrix")
    elif what == "init":
        for nm in ("near_eye_init", "normal_init"):
            raising(c, f(nm, (D, D)), f"{nm} for a shape with two axes")
            raising(c, f(nm, (2, d, D, D + 1)), f"{nm} for a batch of non-square cores")


def register():
    for w in ("sites", "features", "axes", "feature map", "label_site", "path"):
        for n in (2, 3):
            scenario("C19", f"malformed MPS n={n}: {w}", mps_bad, what=w, n=n)
    for k in (dict(periodic_bc=True), dict(parallel_eval=True), dict(label_site=0), dict(adaptive_mode=True), dict(label_site=3)):
        for w in ("sites", "features"):
            scenario("C19", f"malformed MPS {sorted(k)}{list(k.values())[0]}: {w}", mps_bad, what=w, **k)
    scenario("C19", "malformed MPS: path input", mps_bad, what="path input", path=[2, 0, 1])
    scenario("C19", "malformed MPS: default embedding", mps_bad, what="default embedding", feature_dim=3)
    for w in ("InputRegion", "MergedInput", "MergedOutput", "LinearRegion", "region input", "region input periodic", "module input", "ends"):
        scenario("C19", f"malformed region: {w}", region_bad, what=w)
    for u in (False, True):
        for w in ("sizes", "init_method", "embedding", "bias", "data"):
            scenario("C19" + (" C04" if w == "bias" else ""), f"malformed {'ProbUnifMPS' if u else 'ProbMPS'}: {w}", prob_bad, what=w, unif=u)
    for w in ("slim", "slices", "norm", "matseq", "reduce_par", "init"):
        scenario("C19", f"malformed contraction: {w}", base_bad, what=w)


register()
