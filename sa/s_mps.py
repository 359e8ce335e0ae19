"""MPS (fixed mode): routing, boundary conditions, options, history."""
from .cases import *
from .s_prob import moved_result

SV = slice(None)


def compare(c, y, want, props, info):
    for p in props:
        c.same(p, {"C05": "routing", "C06": "boundary", "C12": "row independence", "C04": "same function", "C17": "history",
                   "C18": "option", "C09": "registered cores", "C07": "ordered product", "C10": "plain output"}.get(p, p), y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if c.moved:
        moved_result(c, y)


def try_ref(c, m, info, x):
    try:
        return mps_ref(c, m, info, x)
    except ValueError as ex:
        c.bad("C05", "chain", str(ex))
        raise Skip()


def mps(c, n=3, again=False, Bval=None, grad=True, **kw):
    m, ps, info = mps_case(c, n, B=Bval, **kw)
    if info["embed"] == "fmap":
        f = opaque_map(c, info["d"])
        c.meth(m, "register_feature_map", f)
        c.begin()
    regs = {id(p.root) for p in ps.values()}
    lr = c.attr(m, "linear_region")
    for k, mod in enumerate(modules_of(c, c.attr(lr, "module_list"))):
        t = c.attr(mod, "tensor")
        c.check("C15", f"core {k} registered", isinstance(t, TensorObj) and id(t.root) in regs, f"the core of module {k} is not a registered parameter")
        if mod.cls.name == "InputRegion" and kw.get("bias", True):
            b = c.attr(mod, "bias_mat")
            c.check("C15", f"bias {k} registered", isinstance(b, TensorObj) and id(b.root) in regs, f"the bias of module {k} is not a registered parameter")
    path = kw.get("path")
    width = None
    if path is not None:
        width = max(path) + 1 if isinstance(path, (list, tuple)) else None
    x = mps_input(c, info, width=width)
    y = c.run(m, x)
    want = try_ref(c, m, info, x)
    props = ["C05", "C06", "C12", "C18", "C07"]
    if kw.get("parallel"):
        props.append("C04")
    compare(c, y, want, props, info)
    lab = kw.get("label")
    sites = chain_of(c, modules_of(c, c.attr(lr, "module_list")))
    pos = [k for k, s in enumerate(sites) if s.kind == "out"]
    c.check("C05", "label site", pos == [n // 2 if lab is None else lab], f"the output core stands after {pos} of {n} inputs, label_site is {lab}")
    c.check("C18", "bias", all((s.bias is not None) == kw.get("bias", True) for s in sites if s.kind == "in"), "use_bias has no effect")
    if again:
        # another instance with other sizes and another batch in between
        m2 = c.construct(c.get("torchmps", "MPS"), 2, c.size("o2"), c.size("D2"), feature_dim=2, periodic_bc=not kw.get("periodic", False),
                   parallel_eval=not kw.get("parallel", False), label_site=1)
        c.run(m2, c.tensor("z", (c.size("B2"), 2), c.fdt, c.dev))
        x3 = mps_input(c, info, "x3", B=c.size("B3"), width=width)
        y3 = c.run(m, x3)
        compare(c, y3, try_ref(c, m, info, x3), ["C17", "C12"], info)
        y1 = c.run(m, x)
        compare(c, y1, want, ["C17"], info)
        x4 = mps_input(c, info, "x4", B=1, width=width)
        y4 = c.run(m, x4)
        compare(c, y4, try_ref(c, m, info, x4), ["C17", "C12"], info)


P = "C05 C06 C07 C12 C15 C16 C17 C18"


def register():
    for n in (1, 2, 3, 4):
        for lab in [None] + list(range(n + 1)):
            for per in (False, True):
                for par in (False, True):
                    t = f"MPS n={n} label={lab}{' periodic' if per else ''}{' parallel' if par else ''}"
                    scenario(P + (" C04" if par else ""), t, mps, n=n, label=lab, periodic=per, parallel=par, embed="embedded")
    for n in (1, 2, 3):
        for per in (False, True):
            for par in (False, True):
                t = f"MPS n={n}{' periodic' if per else ''}{' parallel' if par else ''}"
                p = P + (" C04" if par else "")
                scenario(p, t + " default embedding", mps, n=n, periodic=per, parallel=par)
                scenario(p, t + " no bias", mps, n=n, periodic=per, parallel=par, bias=False, embed="embedded")
                scenario(p, t + " feature map", mps, n=n, periodic=per, parallel=par, embed="fmap", Bval=2, d=3)
                scenario(p, t + " batch of one", mps, n=n, periodic=per, parallel=par, Bval=1, embed="embedded")
    for n in (5, 6, 7):
        for per in (False, True):
            for par in (False, True):
                t = f"MPS n={n}{' periodic' if per else ''}{' parallel' if par else ''}"
                scenario(P + (" C04" if par else ""), t + " long", mps, n=n, periodic=per, parallel=par, bias=False, embed="embedded")
    for path in ([1, 0], [2, 0, 1], [0, 2, 1], [3, 0, 2], [1, 1]):
        scenario(P, f"MPS path={path}", mps, n=len(path), path=path)
        scenario(P, f"MPS path={path} embedded", mps, n=len(path), path=path, embed="embedded", label=0, periodic=True)
    scenario(P, "MPS path and feature map", mps, n=2, path=[1, 0], embed="fmap", Bval=2, d=2)
    for kw in (dict(D=1), dict(o=1), dict(D=1, o=1), dict(d=1, embed="embedded")):
        for per in (False, True):
            scenario(P, f"MPS sizes {sorted(kw.items())}{' periodic' if per else ''}", mps, n=3, periodic=per, **kw)
    for per in (False, True):
        for par in (False, True):
            t = f"MPS history{' periodic' if per else ''}{' parallel' if par else ''}"
            scenario("C17 C12 C05 C16", t, mps, n=2, periodic=per, parallel=par, again=True, label=1)
            t = f"MPS moved{' periodic' if per else ''}{' parallel' if par else ''}"
            for lab in (0, 1, 2):
                scenario(P + " C14", t + f" label={lab}", mps, n=2, periodic=per, parallel=par, moved=True, label=lab, raises="C14")
            scenario(P + " C14", t + " embedded", mps, n=3, periodic=per, parallel=par, moved=True, embed="embedded", raises="C14")
            scenario(P + " C14", t + " feature map", mps, n=1, periodic=per, parallel=par, moved=True, embed="fmap", Bval=2, d=3, raises="C14")


register()
