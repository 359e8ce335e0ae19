"""Saved state: what evaluation depends on is in the state dict and restores by name."""
from .cases import *
from .s_prob import apply_map2, weight_map
from . import s_adaptive

SV = slice(None)
HOOKS = ("get_extra_state", "set_extra_state", "_save_to_state_dict", "_load_from_state_dict", "state_dict", "load_state_dict")


def state(c, model):
    """name -> tensor object, as torch.nn.Module.state_dict lists them."""
    out = {}

    def go(m, pre):
        if not isinstance(m, Instance) or m.params is None:
            return
        for h in HOOKS:
            f, v = m.cls.lookup(h)
            if isinstance(v, FuncV):
                raise Missing(f"{m.cls.name} defines {h}")
        for k, p in m.params.items():
            if p is not None:
                out[pre + k] = p
        for k, b in m.buffers.items():
            if b is not None and k not in m.nonpersistent:
                out[pre + k] = b
        for k, x in m.modules.items():
            go(x, pre + k + ".")
    go(model, "")
    return out


def save(c, model):
    return {n: val(t) for n, t in state(c, model).items()}


def load(c, model, saved):
    new = state(c, model)
    miss, extra = sorted(set(new) - set(saved)), sorted(set(saved) - set(new))
    if miss or extra:
        c.bad("C25", "restorable", f"the state of a new model lacks {extra[:6]} and additionally has {miss[:6]}")
        raise Skip()
    for n, t in new.items():
        a, b = val(t), saved[n]
        if a.ndim != b.ndim or not all(T.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            c.bad("C25", "restorable", f"{n} has shape {list(b.shape)} in the saved state and {list(a.shape)} in a new model")
            raise Skip()
        if t.path:
            if sum(q.root is t.root for q in {id(q): q for q in new.values()}.values()) > 1:
                raise TooHard("parameters sharing memory")
            t.root, t.path = Root(a), ()
        t.root.val = b.rep(dt=a.dt, dev=a.dev, cells=b.cells)
        t.root.version += 1
    c.ok("C25", "restorable")


def same_names(c, a, b):
    """Evaluation leaves the names and shapes of the saved state alone."""
    if set(a) != set(b):
        c.bad("C25", "names unchanged", f"evaluation turns the saved names {sorted(set(a) - set(b))[:6]} into {sorted(set(b) - set(a))[:6]}")
        raise Skip()
    for n in a:
        if a[n].ndim != b[n].ndim or not all(T.dim_eq(x, y) for x, y in zip(a[n].shape, b[n].shape)):
            c.bad("C25", "names unchanged", f"evaluation turns {n} of shape {list(a[n].shape)} into {list(b[n].shape)}")
            raise Skip()
    c.ok("C25", "names unchanged")


def restore(c, make, inputs, history=(), fixed=True):
    """make() builds a model; inputs are call arguments, history holds call
    arguments or functions of the model."""
    m = c.construct(make)
    c.name_params(m)
    first = save(c, m)
    for x in history:
        x.fn(m) if isinstance(x, Native) else c.run(m, x)
    st = save(c, m)
    if fixed:
        same_names(c, first, st)
    c.allow = {"rng", "global", "mutate_param"}
    m2 = c.construct(make)
    load(c, m2, st)
    for k, x in enumerate(inputs):
        y = c.run(m, x)
        y2 = c.run(m2, x)
        c.generic()
        c.same("C25", f"same function {k + 1}", y2, y)
    return m, m2


def mk(c, mod, cls, *args, **kw):
    return lambda *_: c.run(c.get(mod, cls), *args, **kw)


def native(f):
    return Native("make", f)


def mps(c, n=3, fmap=False, hist=False, **kw):
    d = kw.pop("d", None) or c.size("f")
    D, o, B = c.size("D"), c.size("o"), c.size("B")
    make = mk(c, "torchmps", "MPS", n, o, D, feature_dim=d, **kw)
    x = c.tensor("x", (B, n, d))
    restore(c, native(make), [x], [c.tensor("h", (c.size("H"), n, d))] if hist else ())


def ti(c, n=3, hist=False, **kw):
    d = c.size("f")
    D = kw.pop("D", None) or c.size("D")
    o = kw.pop("o", None) or c.size("o")
    make = mk(c, "torchmps", "TI_MPS", o, D, feature_dim=d, **kw)
    x = c.tensor("x", (c.size("B"), n, d))
    hs = [c.tensor("h", (c.size("H"), n + 1, d))] if hist else ()
    restore(c, native(make), [x], hs)


def prob(c, unif=False, n=3, emb=None, hist=None, **kw):
    D = c.size("D")
    d = c.size("d")
    opts = dict(kw)
    if emb == "mlp":
        h = c.size("h")
        dm = c.run(c.get("embeddings", "DataDomain"), True, 1, 0)

        def make(*_):
            e = c.fn("embeddings", "init_mlp_embed", d, hidden_dims=LObj([h]), data_domain=dm)
            return c.run(c.get("prob_mps", "ProbUnifMPS" if unif else "ProbMPS"), *([d, D] if unif else [n, d, D]), embed_fun=e, **opts)
        x = c.tensor("x", (c.size("B"), n))
    else:
        if emb:
            opts["embed_fun"] = Native("embed", lambda x: TensorObj(Root(apply_map2(c, x.get(), d))))
            opts["domain"] = c.run(c.get("embeddings", "DataDomain"), False, 3)
        make = mk(c, "prob_mps", "ProbUnifMPS" if unif else "ProbMPS", *([d, D] if unif else [n, d, D]), **opts)
        x = c.ints("x", (c.size("B"), n))
    old = (c.tensor("h", (c.size("H"), n)) if emb == "mlp" else c.ints("h", (c.size("H"), n)))
    hs = {None: [], "call": [old], "loss": [native(lambda m: c.meth(m, "loss", old))], "parallel": [native(lambda m: c.run(m, old, parallel_eval=True))],
          "norm": [native(lambda m: c.meth(m, "log_norm", n) if unif else c.meth(m, "log_norm"))],
          "eval": [native(lambda m: c.meth(m, "eval")), old],
          "slim": [native(lambda m: c.run(m, old, slim_eval=True))]}[hist]
    restore(c, native(make), [x], hs)


def embedding(c, hist=None):
    o, h = c.size("o"), c.size("h")
    make = lambda *_: c.fn("embeddings", "init_mlp_embed", o, hidden_dims=LObj([h]))
    old = c.tensor("h", (c.size("H"), c.size("n")))
    hs = {None: [], "call": [old], "lamb": [native(lambda m: c.attr(m, "lamb_mat"))], "eval": [native(lambda m: c.meth(m, "eval")), old]}[hist]
    restore(c, native(make), [c.tensor("x", (c.size("B"), c.size("n")))], hs)


def adaptive(c, n, label, calls, periodic=False, D=2, o=2, d=2):
    """Save after some calls that each reach the threshold."""
    B = c.size("B")
    make = mk(c, "torchmps", "MPS", n, o, D, feature_dim=d, label_site=label, adaptive_mode=True, merge_threshold=B if calls > 1 else 3 * B,
              cutoff=Fraction(0), periodic_bc=periodic)
    x = c.tensor("x", (B, n, d))
    m = c.construct(native(make))
    c.name_params(m)
    c.allow = {"rng", "global", "mutate_param"}
    for k in range(calls):
        c.run(m, x)
        c.name_params(m, f"s{k}.")
    info = dict(path=None, embed="embedded", periodic=periodic, d=d, n=n)
    want = mps_ref(c, m, info, x)
    st = save(c, m)
    m2 = c.construct(native(make))
    load(c, m2, st)
    c.same("C25", "same function", c.run(m2, x), want)


def register():
    for n in (1, 3):
        for per in (False, True):
            for lab in (0, n):
                scenario("C25", f"saved MPS n={n} label={lab}{' periodic' if per else ''}", mps, n=n, label_site=lab, periodic_bc=per)
            scenario("C25", f"saved MPS n={n} no bias{' periodic' if per else ''}", mps, n=n, use_bias=False, periodic_bc=per, hist=True)
    scenario("C25", "saved MPS n=2 after a call", mps, n=2, hist=True)
    scenario("C25", "saved MPS n=4 parallel", mps, n=4, parallel_eval=True)
    scenario("C25", "saved MPS n=2 with path", mps, n=2, path=[1, 0])
    for o in (dict(), dict(use_bias=False), dict(fixed_bias=False), dict(parallel_eval=True)):
        scenario("C25", f"saved TI_MPS {sorted(o.items())}", ti, **o)
        scenario("C25", f"saved TI_MPS {sorted(o.items())} after a call", ti, hist=True, n=2, **o)
    scenario("C25", "saved TI_MPS fixed ends", ti, D=3, o=2, fixed_ends=True)
    for u in (False, True):
        nm = "ProbUnifMPS" if u else "ProbMPS"
        for o in (dict(), dict(use_bias=True), dict(complex_params=True), dict(init_method="normal")):
            scenario("C25", f"saved {nm} {sorted(o.items())}", prob, unif=u, n=2, **o)
        for e in ("fun", "mlp"):
            scenario("C25", f"saved {nm} {e} embedding", prob, unif=u, n=2, emb=e)
        for h in ("call", "loss", "parallel", "slim", "norm", "eval"):
            scenario("C25", f"saved {nm} after {h}", prob, unif=u, n=2, hist=h)
            if h in ("call", "norm", "eval"):
                for e in ("fun", "mlp"):
                    scenario("C25", f"saved {nm} {e} embedding after {h}", prob, unif=u, n=2, emb=e, hist=h)
    for h in (None, "call", "lamb", "eval"):
        scenario("C25", f"saved MLP embedding{' after ' + h if h else ''}", embedding, hist=h)
    for n, lab in ((2, 1), (3, 1), (1, 0), (4, 2)):
        for k in (0, 1, 2, 3):
            if n == 4 and k > 1:
                continue
            scenario("C25", f"saved adaptive n={n} label={lab} calls={k}", adaptive, n=n, label=lab, calls=k)
    scenario("C25", "saved adaptive n=3 label=2 periodic calls=1", adaptive, n=3, label=2, calls=1, periodic=True)


register()
