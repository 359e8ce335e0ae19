"""Histories of calls: training and evaluation mode, gradients switched off,
parameters updated in place between calls, other batch sizes and lengths."""
from .cases import *
from .s_prob import prob_model, prob_amp, prob_norm, born, get_params, apply_map2
from .s_embed import dom, mlp_layers, mlp_ref, points_ref, gram_ref
from . import s_ti

SV = slice(None)
# (mode before the first call, mode before the second): training flag, gradients
TURNS = {"train": ((True, True), (True, True)), "eval": ((False, True), (False, True)), "no_grad": ((True, False), (True, False)),
         "frozen": ((False, False), (False, False)), "validate": ((True, True), (False, False)), "resume": ((False, False), (True, True))}


def mode(c, m, turn):
    training, grad = turn
    c.meth(m, "train" if training else "eval")
    c.it.grad = grad


def play(c, m, turns, call, ref, update, props, grad=True):
    """call(k) evaluates round k; ref(k) is what it should give now."""
    seq = list(TURNS[turns])
    seq += [seq[0]]
    for k, turn in enumerate(seq):
        mode(c, m, turn)
        # the same input again, then another one, before and after an update
        for j in (0, 1) if k else (0,):
            r = call(2 * k + j)
            y = r[0]
            c.generic()
            w = ref(2 * k + j, r)
            for p in props:
                c.same(p, f"round {k + 1}.{j + 1}", y, w)
            if turn[1] and grad:
                c.same("C15", "gradient in round " + str(k + 1), y, w, grad=True)
        if k < len(seq) - 1:
            update(f"new{k}.")
            c.begin()
    c.it.grad = True


def prob(c, unif=False, n=2, turns="train", call=None, emb=None, loss=False, both=False, **opts):
    d = D = None
    kw = dict(opts)
    if emb == "mlp":
        d = c.size("d")
        kw["embed_fun"] = c.run(c.get("embeddings", "init_mlp_embed"), d, hidden_dims=LObj([c.size("h")]))
    elif emb == "fun":
        d = c.size("d")
        fm = lambda x: apply_map2(c, x, d)
        kw["embed_fun"] = Native("embed", lambda x: TensorObj(Root(fm(x.get()))))
        kw["domain"] = c.fn("embeddings", "DataDomain", False, 3)
    m, ps, d, D = prob_model(c, n, unif, d=d, **kw)
    A, ev, bias = get_params(c, m, ps)
    cur = {}

    def step(k):
        B, L = c.size(f"B{k}"), (n if not unif or k % 2 == 0 else n + 1)
        x = c.tensor(f"x{k}", (B, L)) if emb == "mlp" else c.ints(f"x{k}", (B, L))
        opt = dict(call or {})
        if both and k % 2:
            opt = dict(parallel_eval=True)
        if both and k == 2:
            c.meth(m, "log_norm") if not unif else c.meth(m, "log_norm", L)
        y = c.meth(m, "loss", x, **opt) if loss else c.run(m, x, **opt)
        return y, x, L

    def want(k, r):
        y, x, L = r
        lam = None
        xe = val(x)
        if emb == "mlp":
            f = lambda v: mlp_ref(c, mlp_layers(c, c.attr(m, "embedding")), v)
            dm = ("cont", 0, 1)
            pts = points_ref(c, dm, 1000)
            lam = gram_ref(c, dm, f(pts), pts)
            xe = f(xe)
        elif emb:
            ip = TVal((T.axis_for(3),), {(k,): X.E(k) for k in range(3)}, I64, "C")
            lam = T.einsum([fm(ip), conj(fm(ip))], ["bi", "bj"], "ij")
            xe = fm(xe)
        w = born(prob_amp(c, A, ev, bias, xe, L, unif, bool(emb)), prob_norm(c, A, ev, bias, L, unif, lam))
        if loss:
            b = w.axes[0]
            size = val(x).shape[0]
            w = T.reduce_sum(w, [0])
            w = w.map(lambda e: -e * X.powr(X.E(P(size)), Fraction(-1)))
        return w
    play(c, m, turns, step, want, lambda pre: c.name_params(m, pre), ("C17", "C01") + (("C20",) if emb == "mlp" else ()) + (("C04",) if both else ()))


def mps(c, n=3, turns="train", update=True, **kw):
    m, ps, info = mps_case(c, n, **kw)
    if info["embed"] == "fmap":
        c.meth(m, "register_feature_map", opaque_map(c, info["d"]))
        c.begin()

    def step(k):
        x = mps_input(c, info, f"x{k}", B=(c.size(f"B{k}") if info["embed"] != "fmap" else 1 + k % 2))
        return c.run(m, x), x
    play(c, m, turns, step, lambda k, r: mps_ref(c, m, info, r[1]), lambda pre: c.name_params(m, pre), ("C17", "C12", "C05"))


def ti(c, n=2, turns="train", kind="default", d=None, seqs=False, **opts):
    m, ps, info = s_ti.ti_model(c, d=d, **opts)
    if kind == "fmap":
        c.meth(m, "register_feature_map", opaque_map(c, info["d"]))
    c.begin()
    pt = lambda: s_ti.parts(c, m, ps, info, **{k: v for k, v in opts.items() if k != "parallel_eval"})

    def step(k):
        L = n + k % 2
        if seqs:
            x = c.lst([c.tensor(f"x{k}{j}", (l, info["d"]) if kind == "embedded" else (l,), batch=None) for j, l in enumerate((L, 1) if k % 3 else (1, L, 2))])
        else:
            B = c.size(f"B{k}") if kind != "fmap" else 1 + k % 2
            x = c.tensor(f"x{k}", (B, L, info["d"]) if kind == "embedded" else (B, L))
        return c.run(m, x), x

    def want(k, r):
        p = pt()
        if seqs:
            return T.stack([T.getitem(s_ti.ti_ref(p, s_ti.embed(c, info, T.getitem(val(x), (None,)), kind)), (0,)) for x in r[1]], 0)
        return s_ti.ti_ref(p, s_ti.embed(c, info, r[1], kind))
    play(c, m, turns, step, want, lambda pre: c.name_params(m, pre), ("C17", "C12", "C13"))


def embedding(c, turns="train"):
    out, h = c.size("o"), c.size("h")
    emb = c.run(c.get("embeddings", "init_mlp_embed"), out, hidden_dims=LObj([h]))
    c.name_params(emb)
    c.begin()

    def step(k):
        x = c.tensor(f"x{k}", (c.size(f"B{k}"), c.size("n")))
        return c.run(emb, x), x

    def gram(k):
        lam = c.attr(emb, "lamb_mat") if k % 2 == 0 else c.meth(emb, "make_lambda", num_points=3)
        return lam, 1000 if k % 2 == 0 else 3

    def gref(k, r):
        dm = ("cont", 0, 1)
        pts = points_ref(c, dm, r[1])
        return gram_ref(c, dm, mlp_ref(c, mlp_layers(c, emb), pts), pts)
    play(c, emb, turns, step, lambda k, r: mlp_ref(c, mlp_layers(c, emb), r[1]), lambda pre: c.name_params(emb, pre), ("C17", "C20"))
    play(c, emb, turns, gram, gref, lambda pre: c.name_params(emb, pre + "g."), ("C17", "C20"))


def register():
    for t in TURNS:
        for unif in (False, True):
            u = "ProbUnifMPS" if unif else "ProbMPS"
            E = "C17 C01 C15 C16"
            scenario(E + " C04", f"{u} history {t}", prob, unif=unif, turns=t, both=True)
            scenario(E, f"{u} history {t} parallel", prob, unif=unif, turns=t, call=dict(parallel_eval=True))
            scenario(E, f"{u} history {t} slim", prob, unif=unif, turns=t, call=dict(slim_eval=True))
            scenario(E, f"{u} history {t} bias", prob, unif=unif, turns=t, n=1, use_bias=True)
            scenario(E, f"{u} history {t} complex", prob, unif=unif, turns=t, complex_params=True, n=1)
            scenario(E, f"{u} history {t} loss", prob, unif=unif, turns=t, loss=True, n=1)
            scenario(E + " C20", f"{u} history {t} MLP embedding", prob, unif=unif, turns=t, emb="mlp", n=1)
            scenario(E, f"{u} history {t} embedding", prob, unif=unif, turns=t, emb="fun", n=1)
        for per in (False, True):
            for par in (False, True):
                nm = f"MPS history {t}{' periodic' if per else ''}{' parallel' if par else ''}"
                M = "C17 C12 C05 C15 C16"
                scenario(M, nm, mps, turns=t, periodic=per, parallel=par, n=2)
                scenario(M, nm + " embedded", mps, turns=t, periodic=per, parallel=par, n=3, embed="embedded", bias=False)
            scenario(M, f"MPS history {t}{' periodic' if per else ''} feature map", mps, turns=t, periodic=per, n=2, embed="fmap", d=2)
        for par in (False, True):
            for sq in (False, True):
                nm = f"TI_MPS {'sequences ' if sq else ''}history {t}{' parallel' if par else ''}"
                M = "C17 C12 C13 C15 C16"
                scenario(M, nm, ti, turns=t, parallel_eval=par, seqs=sq)
                scenario(M, nm + " embedded", ti, turns=t, parallel_eval=par, kind="embedded", d="f", seqs=sq)
            scenario(M, f"TI_MPS history {t}{' parallel' if par else ''} free bias", ti, turns=t, parallel_eval=par, fixed_bias=False)
            scenario(M, f"TI_MPS history {t}{' parallel' if par else ''} feature map", ti, turns=t, parallel_eval=par, kind="fmap", d=3)
        scenario("C17 C20 C15 C16", f"MLP embedding history {t}", embedding, turns=t)


register()
