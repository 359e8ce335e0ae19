"""The pieces a user can assemble: regions, sites, end tensors, hand-built chains."""
from .cases import *
from .s_prob import moved_result
from .s_utils import centred, centre_tensor, strip
from .poly import P as PP

SV = slice(None)


def cls(c, name):
    return c.get("torchmps", name)


def piece(c, kind, name, n=2):
    """(module, core tensor, number of inputs, number of cores)"""
    D, f, o = c.size("D"), c.size("f"), c.size("o")
    sh = {"InputRegion": (n, D, D, f), "MergedInput": (n, D, D, f, f), "InputSite": (D, D, f), "OutputSite": (o, D, D),
          "MergedOutput": (o, D, D, f)}[kind]
    t = c.tensor(name, sh, c.fdt, c.dev, batch=None)
    args = [t] + ([bool(n % 2)] if kind == "MergedOutput" else [])
    return c.construct(cls(c, kind), *args), {"InputRegion": (n, n), "MergedInput": (2 * n, 2 * n), "InputSite": (1, 1), "OutputSite": (0, 1),
                                              "MergedOutput": (1, 2)}[kind]


def counts(c, kind, n=2):
    """How many inputs a module consumes and how many cores it stands for."""
    m, (ins, cores) = piece(c, kind, "A", n)
    for p in ("C08", "C05"):
        c.check(p, "inputs", c.it.lib.b_len(m) == ins, f"{kind} of {ins} inputs has length {c.it.lib.b_len(m)}")
    k = c.meth(m, "core_len")
    c.check("C08", "cores", k == cores, f"{kind} of {cores} cores has core_len {k}")


def norms(c, kind, n=2, form="list"):
    """Norms of the cores, and their rescaling in place."""
    m, _ = piece(c, kind, "A", n)
    ps = c.name_params(m)
    t = c.attr(m, "tensor")
    old = val(t)
    many = kind in ("InputRegion", "MergedInput")
    got = list(c.it.iterate(c.meth(m, "get_norm")))
    cores = [T.getitem(old, (k,)) for k in range(n)] if many else [old]
    c.check("C18", "one norm per core", len(got) == len(cores), f"{len(got)} norms for {len(cores)} cores of {kind}")
    if len(got) != len(cores):
        return
    c.generic()
    for k, (g, v) in enumerate(zip(got, cores)):
        lab = "abcde"[:v.ndim]
        sq = es(f"{lab},{lab}->", v, conj(v))
        c.same("C18", f"norm {k + 1}", g, sq.map(lambda e: X.powr(e, Fraction(1, 2))))
    c.allow = {"mutate_param"}
    sc = [c.tensor(f"s{k}", (), c.fdt, c.dev, batch=None) for k in range(len(cores))]
    arg = c.lst(sc, "scale_list") if many or form == "list" else sc[0]
    c.meth(m, "rescale_norm", arg)
    new = c.attr(m, "tensor")
    c.check("C18", "same parameter", isinstance(new, TensorObj) and new.root is t.root, f"rescaling replaces the parameter of {kind}")
    want = [ew(lambda a, b: a * b, v, val(s)) for v, s in zip(cores, sc)]
    c.same("C18", "rescaled cores", new, T.stack(want, 0) if many else want[0])


def region(c, n=2, bias="default", fixed=True, ephemeral=False, B=None):
    """InputRegion and its options."""
    D, f = c.size("D"), c.size("f")
    B = c.size("B") if B is None else B
    A = c.tensor("A", (n, D, D, f), c.fdt, c.dev, batch=None)
    kw = dict(fixed_bias=fixed, ephemeral=ephemeral)
    bt = None
    if bias == "none":
        kw["use_bias"] = False
    elif bias in ("matrix", "matrices"):
        bt = kw["bias_mat"] = c.tensor("Z", (D, D) if bias == "matrix" else (n, D, D), c.fdt, c.dev, batch=None)
    m = c.construct(cls(c, "InputRegion"), A, **kw)
    ps = {k for k, _ in c.named(m)}
    bs = {k for k, v in c.named(m, "buffers") if v is not None}
    hasb = bias != "none"
    wp = set() if ephemeral else {"tensor"} | ({"bias_mat"} if hasb and not fixed else set())
    wb = ({"tensor", "bias_mat"} if hasb else {"tensor"}) if ephemeral else ({"bias_mat"} if hasb and fixed else set())
    for p in ("C15", "C18"):
        c.check(p, "parameters", ps == wp, f"parameters of the region are {sorted(ps)} instead of {sorted(wp)}")
        c.check(p, "buffers", bs == wb, f"buffers of the region are {sorted(bs)} instead of {sorted(wb)}")
    if hasb and not ephemeral:
        v = val(c.attr(m, "bias_mat"))
        want = T.eye(D, D, c.fdt, c.dev) if bt is None else val(bt)
        if v.ndim == 3 and want.ndim == 2:
            c.same("C18", "bias", v, pick(want, None))
        elif v.ndim == want.ndim:
            c.same("C18", "bias", v, want)
    c.name_params(m)
    c.begin()
    x = c.tensor("x", (B, n, f), c.fdt, c.dev)
    y = c.run(m, x)
    t = val(c.attr(m, "tensor"))
    want = es("slri,bsi->bslr", t, x)
    if hasb:
        b = val(c.attr(m, "bias_mat"))
        want = ew(lambda p, q: p + q, want, b)
    got = c.attr(y, "tensor")
    c.check("C07", "labels", c.attr(y, "bond_str") == "bslr", f"the region has the bonds {c.attr(y, 'bond_str')!r}")
    for p, o in (("C05", "matrices"), ("C12", "row independence"), ("C18", "options")):
        c.same(p, o, got, want)
    c.same("C15", "gradient", got, want, grad=True)
    if c.moved:
        moved_result(c, got)


def ends(c, what, D=3, o=2, **kw):
    if what == "vec":
        m = c.construct(cls(c, "InitialVector"), D, **kw)
        fill, fixed, left = kw.get("fill_dim"), kw.get("fixed_vec", True), kw.get("is_left_vec", True)
        k = D if fill is None else fill
        want = T.stack([T.const_tensor((), 1 if i < k else 0, FD, "C") for i in range(D)], 0) if isinstance(D, int) else T.const_tensor((D,), 1, FD, "C")
        nm, labs = "vec", "l" if not left else "r"
    else:
        m = c.construct(cls(c, "TerminalOutput"), D, o, **kw)
        fixed, left = kw.get("fixed_mat", False), kw.get("is_left_mat", False)
        want = T.eye(D, o, FD, "C")
        nm, labs = "mat", ("o", "r" if left else "l")
    ps, bs = {k for k, _ in c.named(m)}, {k for k, _ in c.named(m, "buffers")}
    for p in ("C15", "C18"):
        c.check(p, "trainable", ps == (set() if fixed else {nm}), f"parameters {sorted(ps)} of {m.cls.name} with {kw}")
        c.check(p, "fixed", bs == ({nm} if fixed else set()), f"buffers {sorted(bs)} of {m.cls.name} with {kw}")
    t = c.attr(m, nm)
    if what == "vec" or fixed:
        c.same("C18", "content", t, want)
    else:
        r = [n for e in val(t).cells.values() for n, *_ in X.base_tensors(e)]
        c.check("C18", "noise", bool(r), "the trainable terminal matrix has no random part")
    for p in ("C08", "C05"):
        c.check(p, "no inputs", c.it.lib.b_len(m) == 0, f"{m.cls.name} has length {c.it.lib.b_len(m)}")
    c.check("C08", "one core", c.meth(m, "core_len") == 1, f"{m.cls.name} has core_len {c.meth(m, 'core_len')}")
    c.name_params(m)
    c.construct(c.get("contractables", "Scalar"), c.tensor("s0", (c.size("B"),), c.fdt, c.dev))
    c.begin()
    e = c.run(m)
    bond, tt = c.attr(e, "bond_str"), val(c.attr(e, "tensor"))
    c.check("C18", "side", set(bond) == set("b") | set(labs), f"{m.cls.name} with {kw} has the bonds {bond!r}")
    if set(bond) == set("b") | set(labs):
        v = val(c.attr(m, nm))
        src = "r" if what == "vec" else ("ro" if left else "lo")
        if what == "vec" and not left:
            src = "l"
        w = T.expand(pick(es(f"{src}->{bond[1:]}", v), None), (c.size("B"),) + es(f"{src}->{bond[1:]}", v).shape)
        c.same("C06", "end tensor", c.attr(e, "tensor"), w)
        c.same("C15", "end tensor gradient", c.attr(e, "tensor"), w, grad=True)


def assemble(c, spec, periodic=False, parallel=False, B=None, twice=False):
    """A LinearRegion of hand-built modules."""
    D, f, o = c.size("D"), c.size("f"), c.size("o")
    B = c.size("B") if B is None else B
    mods, n = [], 0
    for k, s in enumerate(spec.split()):
        kind, _, a = s.partition(":")
        a = int(a or 1)
        if kind == "R":
            mods.append(c.construct(cls(c, "InputRegion"), c.tensor(f"A{k}", (a, D, D, f), c.fdt, c.dev, batch=None), use_bias=False))
            n += a
        elif kind == "Z":
            mods.append(c.construct(cls(c, "InputRegion"), c.tensor(f"A{k}", (a, D, D, f), c.fdt, c.dev, batch=None),
                                    bias_mat=c.tensor(f"Z{k}", (a, D, D), c.fdt, c.dev, batch=None), fixed_bias=False))
            n += a
        elif kind == "S":
            mods.append(c.construct(cls(c, "InputSite"), c.tensor(f"A{k}", (D, D, f), c.fdt, c.dev, batch=None)))
            n += 1
        elif kind == "M":
            mods.append(c.construct(cls(c, "MergedInput"), c.tensor(f"A{k}", (a, D, D, f, f), c.fdt, c.dev, batch=None)))
            n += 2 * a
        elif kind == "O":
            mods.append(c.construct(cls(c, "OutputSite"), c.tensor(f"C{k}", (o, D, D), c.fdt, c.dev, batch=None)))
        elif kind in ("L", "Q"):
            mods.append(c.construct(cls(c, "MergedOutput"), c.tensor(f"C{k}", (o, D, D, f), c.fdt, c.dev, batch=None), kind == "L"))
            n += 1
    lr = c.construct(cls(c, "LinearRegion"), c.lst(list(mods), "module_list"), periodic_bc=periodic, parallel_eval=parallel)
    c.name_params(lr)
    c.begin()
    cores = sum({"R": int(s.partition(":")[2] or 1), "Z": int(s.partition(":")[2] or 1), "S": 1, "M": 2 * int(s.partition(":")[2] or 1),
                 "O": 1, "L": 2, "Q": 2}[s[0]] for s in spec.split())
    for p in ("C05", "C08"):
        c.check(p, "length", c.it.lib.b_len(lr) == n, f"a region of {n} inputs has length {c.it.lib.b_len(lr)}")
    c.check("C08", "core_len", c.meth(lr, "core_len") == cores, f"a region of {cores} cores has core_len {c.meth(lr, 'core_len')}")
    sites = chain_of(c, mods)

    def one(name, b):
        x = c.tensor(name, (b, n, f), c.fdt, c.dev)
        y = c.run(lr, x)
        want = ref_chain(sites, val(x), periodic)
        return y, want
    y, want = one("x", B)
    for p, ob in (("C05", "routing"), ("C06", "boundary"), ("C12", "row independence"), ("C07", "ordered product")) + ((("C04", "same function"),) if parallel else ()):
        c.same(p, ob, y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y)
    if twice:
        for nm, b in (("x2", c.size("B2")), ("x3", 1)):
            y, want = one(nm, b)
            c.same("C17", f"another batch {nm}", y, want)


def lengths(c, n, adaptive=False, label=None, **kw):
    """len() and core_len() of a model."""
    m, ps, info = mps_case(c, n, label=label, adaptive=adaptive, embed="embedded", D=2 if adaptive else None, o=2 if adaptive else None, d=2 if adaptive else None, **kw)
    c.report_events = False
    for p in ("C05", "C08"):
        c.check(p, "length", c.it.lib.b_len(m) == n, f"an MPS of {n} inputs has length {c.it.lib.b_len(m)}")
    c.check("C08", "core_len", c.meth(m, "core_len") == n + 1, f"an MPS of {n + 1} cores has core_len {c.meth(m, 'core_len')}")
    c.check("C18", "size attributes", T.dim_eq(c.attr(m, "input_dim"), n) and T.dim_eq(c.attr(m, "output_dim"), info["o"]) and T.dim_eq(c.attr(m, "bond_dim"), info["D"])
            and T.dim_eq(c.attr(m, "feature_dim"), info["d"]), "the sizes a model reports are not those it was built with")


def no_matrices(c, batch=("B",), moved=False):
    sh = tuple(c.size(b) for b in batch)
    D = c.size("D")
    M = c.tensor("M", sh + (0, D, D), c.fdt, c.dev, batch=None)
    c.begin()
    out = c.fn("mps_base", "mat_reduce_par", M)
    if not (isinstance(out, tuple) and len(out) == 2):
        c.bad("C02", "pair", f"mat_reduce_par returns {c.it.tname(out)}")
        return
    want = T.expand(T.eye(D, D, c.fdt, c.dev), sh + (D, D))
    got = ew(lambda a, b: a * X.exp(b), out[0], out[1])
    c.same("C02", "empty product", got, want)
    c.same("C03", "empty product", got, want)
    if c.moved:
        moved_result(c, out[0])


def general(c, bs, shape_of, known):
    """A contractable given with or without the batch label, once a batch size is known."""
    B, D, E = c.size("B"), c.size("D"), c.size("E")
    dims = {"b": B, "l": D, "r": E, "o": c.size("o")}
    g = lambda nm: c.get("contractables", nm)
    if known:
        c.construct(g("Scalar"), c.tensor("s0", (B,), c.fdt, c.dev))
    t = c.tensor("A", tuple(dims[ch] for ch in shape_of), c.fdt, c.dev, batch=None)
    c.begin()
    m = c.run(g("Contractable"), t, bs)
    got, lab = c.attr(m, "tensor"), c.attr(m, "bond_str")
    full = "b" + shape_of.replace("b", "")
    c.check("C07", "labels", set(lab) == set(full) and len(lab) == len(full) and lab[0] == "b", f"bonds {lab!r} for {bs!r} and axes {shape_of!r}")
    if lab[:1] == "b" and set(lab) == set(full):
        v = val(t)
        if "b" not in shape_of:
            v = T.expand(pick(v, None), (B,) + v.shape)
        c.same("C07", "content", got, v)


def start_mps(c, n, label=None, std=None, adaptive=False, periodic=False, bias=True, D=None, o=None, d=None):
    """Content of the freshly built cores of an MPS."""
    D, o, d = D or c.size("D"), o or c.size("o"), d or c.size("f")
    kw = dict(feature_dim=d, periodic_bc=periodic, adaptive_mode=adaptive, use_bias=bias)
    if label is not None:
        kw["label_site"] = label
    lab = n // 2 if label is None else label
    if std is not None:
        kw["init_std"] = Fraction(std)
    m = c.run(cls(c, "MPS"), n, o, D, **kw)
    c.report_events = False
    sd = Fraction(std) if std is not None else Fraction(1, 10 ** 9)
    lr = c.attr(m, "linear_region")
    cut = ("trunc", o)
    lists = [c.attr(lr, f"module_list_{k}") for k in (0, 1)] if adaptive else [c.attr(lr, "module_list")]
    for ml in lists:
        pos = 0
        for k, mod in enumerate(modules_of(c, ml)):
            t, kind = c.attr(mod, "tensor"), mod.cls.name
            sh = val(t).shape
            for p in ("C23", "C18"):
                if kind == "OutputSite":
                    centred(c, p, t, (o, D, D), "olr", cut if adaptive else ("eye",), sd)
                elif kind == "InputSite":
                    one_site(c, p, t, (D, D, d), cut, sd)
                elif kind == "InputRegion":
                    w = lab if pos == 0 and lab else n - lab
                    centred(c, p, t, (w, D, D, d), "slri", cut if adaptive else "zero", sd)
                    if bias:
                        c.same(p, f"bias {k}", pick(val(c.attr(mod, "bias_mat")), 0) if val(c.attr(mod, "bias_mat")).ndim == 3 else c.attr(mod, "bias_mat"), T.eye(D, D, FD, "C"))
                elif kind == "MergedInput":
                    names = noise_of(val(t))
                    e = centre_tensor(c, (D, D), "lr", cut)
                    w = T.expand(pick(es("lu,ur->lr", e, e), None, SV, SV, None, None), sh)
                    c.same(p, f"centre of merged cores {k}", val(t).map(lambda e: strip(e, names)), w)
                elif kind == "MergedOutput":
                    names = noise_of(val(t))
                    e = centre_tensor(c, (D, D), "lr", cut)
                    w = T.expand(pick(es("lu,ur->lr", e, e), None, SV, SV, None), sh)
                    c.same(p, f"centre of merged cores {k}", val(t).map(lambda e: strip(e, names)), w)
            pos += 1


def one_site(c, prop, t, sh, cut, sd):
    """A slice of a noisy region: each entry has its own noise."""
    v = val(t)
    names = noise_of(v)
    c.same(prop, "centre", v.map(lambda e: strip(e, names)), centre_tensor(c, sh, "lri", cut))
    seen = set()
    for p, e in v.cells.items():
        terms = [(m, k) for m, k in e.d.items() if {x for x, *_ in X.base_tensors(X.Expr({m: k}))} & names]
        if len(terms) != 1 or sd == 0:
            return c.check(prop, "noise", (not terms) == (sd == 0) if sd == 0 or not terms else None, f"entry {p} has {len(terms)} noise terms")
        c.check(prop, "noise", terms[0][1] == sd, f"the noise of entry {p} has the size {terms[0][1]} instead of {sd}")
        seen.add(terms[0][0])
    c.check(prop, "independent noise", len(seen) == len(v.cells), "entries share their noise")


def noise_of(v):
    return {n for e in v.cells.values() for n, *_ in X.base_tensors(e) if X.TINFO.get(n, {}).get("rand")}


def start_prob(c, unif, method=None, cplx=False, bias=False):
    """Content of the freshly built cores of a probabilistic model."""
    D, d, n = c.size("D"), c.size("d"), 2
    kw = dict(complex_params=cplx, use_bias=bias)
    if method is not None:
        kw["init_method"] = method
    m = c.run(c.get("prob_mps", "ProbUnifMPS" if unif else "ProbMPS"), *([d, D] if unif else [n, d, D]), **kw)
    c.report_events = False
    sh = (d, D, D) if unif else (n, d, D, D)
    v = val(c.attr(m, "core_tensors"))
    num = X.E(PP(D)) if not isinstance(D, int) else X.E(D)
    std = X.inv(num) * (X.ONE if method == "normal" else X.E(Fraction(1, 1000)))
    if v.ndim != len(sh) or not all(T.dim_eq(a, b) for a, b in zip(v.shape, sh)):
        c.bad("C18", "shape", f"cores of shape {list(v.shape)} instead of {list(sh)}")
        return
    for p in ("C23", "C18"):
        c.check(p, "complex", (v.dt.kind == "c") == cplx, f"complex_params={cplx} gives cores of dtype {T.name_dt(v.dt)}")
    if not cplx:
        for p in ("C23", "C18"):
            centred(c, p, v, sh, "slr" if unif else "nslr", "zero" if method == "normal" else ("eye",), std)
    else:
        names = noise_of(v)
        w = T.const_tensor(sh, 0) if method == "normal" else centre_tensor(c, sh, "slr" if unif else "nslr", ("eye",))
        for p in ("C23", "C18"):
            c.same(p, "centre", v.map(lambda e: strip(e, names)), w)
    if bias:
        b = val(c.attr(m, "bias_mat"))
        for p in ("C23", "C18"):
            c.same(p, "bias", b, T.const_tensor((D, D), 0))
            c.check(p, "complex bias", (b.dt.kind == "c") == cplx, f"complex_params={cplx} gives a bias of dtype {T.name_dt(b.dt)}")
    ev = val(c.attr(m, "edge_vecs"))
    c.check("C18", "edge vectors", ev.ndim == 2 and T.dim_eq(ev.shape[0], 2) and T.dim_eq(ev.shape[1], D), f"edge vectors of shape {list(ev.shape)}")
    c.check("C18", "complex edge vectors", (ev.dt.kind == "c") == cplx, f"complex_params={cplx} gives edge vectors of dtype {T.name_dt(ev.dt)}")


def register():
    P = "C05 C06 C07 C12 C15 C16 C17"
    for k in ("InputRegion", "MergedInput", "InputSite", "OutputSite", "MergedOutput"):
        for n in (1, 2, 3):
            if k in ("InputSite", "OutputSite") and n > 1:
                continue
            scenario("C05 C08 C16", f"size of {k} {n}", counts, kind=k, n=n)
            for fm in ("list", "scalar"):
                if fm == "list" or k in ("InputSite", "OutputSite", "MergedOutput"):
                    scenario("C18 C16", f"norms of {k} {n} {fm}", norms, kind=k, n=n, form=fm)
                    scenario("C18 C14 C16", f"norms of {k} {n} {fm} moved", norms, kind=k, n=n, form=fm, moved=True, raises="C14")
    for b in ("default", "none", "matrix", "matrices"):
        for fixed in (True, False):
            for eph in (False, True):
                for n in (1, 2, 3):
                    scenario("C05 C07 C12 C15 C16 C17 C18", f"InputRegion {n} bias {b}{' fixed' if fixed else ''}{' ephemeral' if eph else ''}", region, n=n, bias=b, fixed=fixed, ephemeral=eph)
                scenario("C05 C07 C12 C14 C15 C16 C17 C18", f"InputRegion bias {b}{' fixed' if fixed else ''}{' ephemeral' if eph else ''} moved", region, n=2, bias=b, fixed=fixed, ephemeral=eph, moved=True, raises="C14")
            scenario("C05 C07 C12 C15 C16 C17 C18", f"InputRegion bias {b}{' fixed' if fixed else ''} batch of one", region, n=2, bias=b, fixed=fixed, B=1)
    for fill in (None, 0, 1, 2, 3):
        for fx in (True, False):
            for left in (True, False):
                scenario("C06 C15 C18 C05 C08", f"InitialVector fill={fill} fixed={fx} left={left}", ends, what="vec", fill_dim=fill, fixed_vec=fx, is_left_vec=left)
    for fx in (True, False):
        for left in (True, False):
            for D, o in ((3, 2), (2, 2), (3, 1)) + (((2, 3),) if not fx else ()):
                scenario("C06 C15 C18 C05 C08", f"TerminalOutput {D} {o} fixed={fx} left={left}", ends, what="mat", D=D, o=o, fixed_mat=fx, is_left_mat=left)
    for s in ("R:2 O R:2", "O R:3", "R:3 O", "S O S", "S O", "O S", "O", "R:1 O R:1", "S S O S", "R:2 S O R:1", "M O", "O M:2", "S M O S", "R:2 L", "Q R:2", "S L M",
              "M Q S", "Z:2 O Z:1", "O Z:3", "Z:2 O", "R:2 Z:2 O", "L", "Q"):
        for per in (False, True):
            for par in (False, True):
                if s == "R:2 O R:2" and False:
                    continue
                t = f"assembled [{s}]{' periodic' if per else ''}{' parallel' if par else ''}"
                scenario(P + (" C04" if par else "") + " C08", t, assemble, spec=s, periodic=per, parallel=par)
            if s in ("R:2 O R:2", "S O S", "M Q S", "Z:2 O Z:1"):
                scenario(P + " C14", f"assembled [{s}]{' periodic' if per else ''} moved", assemble, spec=s, periodic=per, moved=True, raises="C14")
                scenario(P + " C08", f"assembled [{s}]{' periodic' if per else ''} batch of one", assemble, spec=s, periodic=per, B=1)
                scenario(P + " C08", f"assembled [{s}]{' periodic' if per else ''} again", assemble, spec=s, periodic=per, twice=True)
    for n in (1, 2, 3, 5):
        for lab in (0, n // 2, n):
            scenario("C05 C08 C18", f"sizes of MPS {n} {lab}", lengths, n=n, label=lab)
            scenario("C05 C08 C18", f"sizes of adaptive MPS {n} {lab}", lengths, n=n, label=lab, adaptive=True)
    for b in ((), ("B",), ("A", "B")):
        scenario("C02 C03 C16", f"mat_reduce_par of nothing {list(b)}", no_matrices, batch=b)
    scenario("C02 C03 C14 C16", "mat_reduce_par of nothing moved", no_matrices, moved=True, raises="C14")
    for bs, sh in (("blr", "blr"), ("brl", "brl"), ("bolr", "bolr"), ("b", "b"), ("blr", "lr"), ("lr", "lr"), ("bro", "ro"), ("ro", "ro"), ("bl", "l"), ("l", "l")):
        scenario("C07 C16", f"general contractable {bs} of {sh}", general, bs=bs, shape_of=sh, known=True)
        if "b" in sh:
            scenario("C07 C16", f"general contractable {bs} of {sh} first", general, bs=bs, shape_of=sh, known=False)
    for n, lab in ((1, 0), (1, 1), (2, None), (3, 0), (3, 2), (4, 4), (3, None)):
        for std in (None, "1/4"):
            for b in (True, False):
                scenario("C23 C18", f"start of MPS n={n} label={lab} std={std}{'' if b else ' no bias'}", start_mps, n=n, label=lab, std=std, bias=b)
            for D, o, d in ((4, 2, 2), (2, 3, 2), (3, 1, 2)):
                scenario("C23 C18", f"start of adaptive MPS n={n} label={lab} std={std} sizes {D} {o} {d}", start_mps, n=n, label=lab, std=std, adaptive=True, D=D, o=o, d=d)
    for per in (False, True):
        scenario("C23 C18", f"start of MPS zero noise{' periodic' if per else ''}", start_mps, n=3, std="0", periodic=per)
        scenario("C23 C18", f"start of adaptive MPS zero noise{' periodic' if per else ''}", start_mps, n=3, std="0", periodic=per, adaptive=True, D=3, o=2, d=2)
    for unif in (False, True):
        for meth in (None, "near_eye", "normal"):
            for cx in (False, True):
                for b in (False, True):
                    scenario("C23 C18", f"start of {'ProbUnifMPS' if unif else 'ProbMPS'} {meth}{' complex' if cx else ''}{' bias' if b else ''}", start_prob, unif=unif, method=meth, cplx=cx, bias=b)


register()
