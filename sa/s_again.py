"""The same objects passed again (C17): every tensor and list of a scenario is
refilled in place with new content, and the function called once more.  The
second result has to be the one the new content requires, whatever was
remembered about the first call."""
from .cases import *
from .s_prob import prob_model, prob_amp, prob_norm, born, get_params
from . import scen, s_seq, s_contract, s_embed, s_utils, s_data, s_mps, s_hist, s_ti


class Store:
    """Hands out tensors and lists; on the second pass those of the first."""

    def __init__(self, c):
        self.made, self.count, self.again = {}, {}, False
        self.tensor_, self.lst_ = c.tensor, c.lst
        c.tensor, c.lst = self.tensor, self.lst

    def old(self, key):
        k = self.count[key] = self.count.get(key, -1) + 1
        l = self.made.setdefault(key, [])
        return l[k] if self.again and k < len(l) else None

    def tensor(self, name, *a, **kw):
        o = self.old(("tensor", name))
        if o is None:
            t = self.tensor_(name, *a, **kw)
            self.made["tensor", name].append(t)
            return t
        t = self.tensor_(name + "'", *a, **kw)
        v, w = val(o), val(t)
        if v.ndim != w.ndim or v.dt != w.dt or v.dev != w.dev or not all(T.dim_eq(x, y) for x, y in zip(v.shape, w.shape)):
            return t
        o.root.val = t.root.val
        o.root.version += 1
        return o

    def lst(self, items, name="list"):
        o = self.old(("list", name))
        if o is None:
            o = self.lst_(items, name)
            self.made["list", name].append(o)
        else:
            o[:] = list(items)
        return o


def twice(c, base=None, **kw):
    s = Store(c)
    base(c, **kw)
    c.checked.clear(), c.findings.clear(), c.undecided.clear()
    s.again, s.count = True, {}
    base(c, **kw)
    # whatever is wrong now is left over from the first pass
    c.checked[:] = [("C17", "again: " + n) for _, n in c.checked]
    c.findings[:] = [scen.Finding("C17", "again: " + f.oblig, f.msg, f.where) for f in c.findings]
    c.undecided[:] = [("C17", "again: " + n, m) for _, n, m in c.undecided]


def refill(c, t, name):
    """New content for an input tensor, written into its memory."""
    v = val(t)
    t.root.val = T.base_tensor(name, v.shape, v.dt, v.dev)
    t.root.version += 1


def remapped(c, kind="mps", par=False, n=2):
    """One input object under changing feature maps."""
    if kind == "mps":
        m, ps, info = mps_case(c, n, parallel=par, bias=False)
        ref = lambda e: ref_chain(chain_of(c, modules_of(c, c.attr(c.attr(m, "linear_region"), "module_list"))), e, False)
    else:
        m, ps, info = s_ti.ti_model(c, parallel_eval=par)
        ref = lambda e: s_ti.ti_ref(s_ti.parts(c, m, ps, info), e)
    x = c.tensor("x", (2, n))
    c.begin()
    c.same("C17", "default embedding", c.run(m, x), ref(default_embed(val(x))))
    for name in ("fmap", "gmap"):
        c.meth(m, "register_feature_map", opaque_map(c, 2, name))
        c.begin()
        c.same("C17", f"map {name}", c.run(m, x), ref(apply_map(c, val(x), 2, name)))
    c.meth(m, "register_feature_map", None)
    c.begin()
    c.same("C17", "default embedding again", c.run(m, x), ref(default_embed(val(x))))


def model(c, kind="mps", inputs="default", par=False, call=None, unif=False, n=2):
    """One model, one input object, whose content changes between the calls."""
    B = c.size("B")
    x = None
    if kind == "mps":
        m, ps, info = mps_case(c, n, parallel=par, embed=inputs, bias=False)
        x = mps_input(c, info, "x", B=B)
        want = lambda: mps_ref(c, m, info, x)
    elif kind == "ti":
        m, ps, info = s_ti.ti_model(c, d="f" if inputs == "embedded" else None, parallel_eval=par)
        p = lambda: s_ti.parts(c, m, ps, info)
        emb = lambda t: s_ti.embed(c, info, t, inputs if inputs != "seqs" else "default")
        if inputs == "seqs":
            x = c.lst([c.tensor(f"x{j}", (l,), batch=None) for j, l in enumerate((2, 1, 3))])
            want = lambda: T.stack([T.getitem(s_ti.ti_ref(p(), emb(T.getitem(val(t), (None,)))), (0,)) for t in x], 0)
        else:
            x = c.tensor("x", (B, n, info["d"]) if inputs == "embedded" else (B, n))
            want = lambda: s_ti.ti_ref(p(), emb(x))
    elif kind == "prob":
        m, ps, d, D = prob_model(c, n, unif)
        A, ev, bias = get_params(c, m, ps)
        x = c.tensor("x", (B, n, d)) if inputs == "embedded" else c.ints("x", (B, n))
        want = lambda: born(prob_amp(c, A, ev, bias, val(x), n, unif, inputs == "embedded"), prob_norm(c, A, ev, bias, n, unif, None))
    c.begin()

    def judge(step):
        y = c.run(m, x, **(call or {}))
        c.generic()
        c.same("C17", step, y, want())
    judge("first")
    if inputs == "seqs":
        for j, t in enumerate(x):
            refill(c, t, f"x{j}'")
        judge("refilled")
        x.reverse()
        judge("reversed list")
        x.append(c.tensor("x3", (2,), batch=None))
        judge("longer list")
        del x[0]
        judge("shorter list")
        return
    refill(c, x, "x'")
    judge("refilled")
    c.it.grad = False
    judge("same again")
    c.it.grad = True
    refill(c, x, "x''")
    judge("refilled again")
    c.name_params(m, "new.")
    if kind == "prob":
        A, ev, bias = get_params(c, m, {k: v for k, v in c.named(m)})
    c.begin()
    judge("parameters changed")


def register():
    own = (s_seq, s_contract, s_embed, s_utils, s_data)
    skip = ("raises", "malformed", "no common bond", "different bond", "bond dimension one", "moved", "strided", "large sizes")
    for s in list(scen.SCENARIOS):
        if s.driver.__module__ not in {m.__name__ for m in own} or s.moved or s.tier != "quick" or any(w in s.name for w in skip):
            continue
        if "C19" in s.props[:1]:
            continue
        scenario("C17", s.name + " again", twice, paths=s.paths, limit=s.limit, raises="C17", base=s.driver, **s.args)
    for unif in (False, True):
        for mode, call in (("default", None), ("parallel", dict(parallel_eval=True)), ("slim", dict(slim_eval=True))):
            for k in ("default", "embedded"):
                scenario("C17", f"{'ProbUnifMPS' if unif else 'ProbMPS'} {mode} {k} input object again", model, kind="prob", inputs=k, unif=unif, call=call)
    for par in (False, True):
        t = " parallel" if par else ""
        scenario("C17", f"MPS changing feature maps{t}", remapped, kind="mps", par=par)
        scenario("C17", f"TI_MPS changing feature maps{t}", remapped, kind="ti", par=par)
        for k in ("default", "embedded"):
            scenario("C17", f"MPS {k} input object again{t}", model, kind="mps", inputs=k, par=par)
            scenario("C17", f"TI_MPS {k} input object again{t}", model, kind="ti", inputs=k, par=par)
        scenario("C17", f"TI_MPS sequences again{t}", model, kind="ti", inputs="seqs", par=par)


register()
