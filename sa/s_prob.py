"""ProbMPS and ProbUnifMPS: Born rule, evaluation modes, embeddings."""
from .cases import *

SV = slice(None)


def prob_model(c, n, unif=False, emb=None, domain=None, **opts):
    D = opts.pop("D", None) or c.size("D")
    d = opts.pop("d", None) or c.size("d")
    cls = c.get("prob_mps", "ProbUnifMPS" if unif else "ProbMPS")
    args = [d, D] if unif else [n, d, D]
    if emb is not None:
        opts["embed_fun"] = emb
    if domain is not None:
        opts["domain"] = domain
    m = c.run(cls, *args, **opts)
    ps = c.name_params(m)
    c.begin(m)
    return m, ps, d, D


def prob_amp(c, A, ev, bias, x, n, unif, vec):
    """(amplitude over the batch); x (b, n) indices or (b, n, i) vectors."""
    cur = None
    for i in range(n):
        core = val(A) if unif else T.getitem(val(A), (i,))
        xi = pick(x, SV, i)
        m = es("bi,ilr->blr", xi, core) if vec else T.getitem(core, (xi,))
        if bias is not None:
            m = ew(lambda p, q: p + q, m, bias)
        cur = es("l,blr->br", pick(ev, 0), m) if cur is None else es("bl,blr->br", cur, m)
    return es("br,r->b", cur, pick(ev, 1))


def prob_norm(c, A, ev, bias, n, unif, lam=None):
    dm = es("l,p->lp", pick(ev, 0), conj(pick(ev, 0)))
    for i in range(n):
        s = val(A) if unif else T.getitem(val(A), (i,))
        if bias is not None:
            s = ew(lambda p, q: p + q, s, bias)
        if lam is None:
            dm = es("ilr,lp,ipq->rq", s, dm, conj(s))
        else:
            dm = es("ij,ilr,lp,jpq->rq", lam, s, dm, conj(s))
    return es("rq,r,q->", dm, pick(ev, 1), conj(pick(ev, 1)))


def point_norm(A, ev, bias, n, unif, vv):
    """Squared norm as the sum over the points of the domain, vv (point, i)."""
    dm = es("l,p->lp", pick(ev, 0), conj(pick(ev, 0)))
    for i in range(n):
        core = val(A) if unif else T.getitem(val(A), (i,))
        m = ew(lambda p, q: p + q, es("ki,ilr->klr", vv, core), bias)
        dm = es("klr,lp,kpq->rq", m, dm, conj(m))
    return es("rq,r,q->", dm, pick(ev, 1), conj(pick(ev, 1)))


def born(amp, nrm):
    return ew(lambda a, b: X.log(X.cabs(a)) + X.log(X.cabs(a)) - X.log(X.re(b)), amp, nrm)


def get_params(c, m, ps):
    A, ev = ps.get("core_tensors"), ps.get("edge_vecs")
    for nm, t in (("core_tensors", A), ("edge_vecs", ev)):
        if t is None:
            cur = c.attr(m, nm)
            c.bad("C15", f"{nm} registered", f"{nm} is not a registered parameter")
            raise Skip()
    return A, ev, ps.get("bias_mat")


def prob(c, n=3, unif=False, call=None, emb=None, use_bias=False, complex_params=False, init_method="near_eye", B=None, loss=False):
    call = call or {}
    opts = dict(use_bias=use_bias, complex_params=complex_params, init_method=init_method)
    d = None
    fm = None
    if emb == "fun":
        d = c.size("d")
        pts, fm = 3, lambda x: apply_map2(c, x, d)
    elif emb == "cfun":
        d = c.size("d")
        pts, fm = 2, lambda x: apply_map2(c, x, d, cplx=True)
    elif emb == "weights":
        d = pts = 2
        fm = lambda x: weight_map(c, x, d)
    elif emb == "onehot":
        d = pts = 3
        fm = lambda x: weight_map(c, x, d, False)
    if emb:
        opts["embed_fun"] = Native("embed", lambda x: TensorObj(Root(fm(x.get()))))
        opts["domain"] = c.fn("embeddings", "DataDomain", False, pts)
    m, ps, d, D = prob_model(c, n, unif, d=d, **opts)
    A, ev, bias = get_params(c, m, ps)
    c.check("C15", "parameters registered", set(ps) >= {"core_tensors", "edge_vecs"} | ({"bias_mat"} if use_bias else set()),
            f"registered parameters are {sorted(ps)}")
    c.check("C18", "use_bias", ("bias_mat" in ps) == use_bias, f"use_bias={use_bias} but the parameters are {sorted(ps)}")
    for nm, w in (("input_dim", d), ("bond_dim", D)) + ((() if unif else (("seq_len", n),))):
        g = c.attr(m, nm)
        c.check("C18", nm, T.dim_eq(g, w) if isinstance(g, (int, Poly)) else None, f"{nm} is {g} instead of {w}")
    B = c.size("B") if B is None else B
    x = c.ints("x", (B, n))
    if emb == "onehot":
        X.TINFO["x"]["range"] = 3
    xe = fm(val(x)) if emb else x
    y = c.meth(m, "loss", x, **call) if loss else c.run(m, x, **call)
    c.generic()
    amp = prob_amp(c, A, ev, bias, xe, n, unif, bool(emb))
    lam = None
    if emb:
        ip = TVal((T.axis_for(pts),), {(k,): X.E(k) for k in range(pts)}, I64, "C")
        vv = fm(ip)
        if c.moved:
            vv = vv.rep(dev="M", dt=c.fdt, cells=vv.cells)
        lam = T.einsum([vv, conj(vv)], ["bi", "bj"], "ij")
    nrm = prob_norm(c, A, ev, bias, n, unif, lam)
    if emb and bias is not None:
        nrm = point_norm(A, ev, bias, n, unif, vv)
    want = born(amp, nrm)
    if emb == "fun" and bias is not None:
        # the other properties do not depend on which normaliser is right
        c.same("C01", "log probability", y, want)
        return
    mode = "default" if not call else "+".join(sorted(call))
    if loss:
        v = want.axes[0]
        want = T.reduce_sum(want, [0])
        want = want.map(lambda e: -e * X.powr(X.E(P(B)), Fraction(-1)))
    c.same("C01", "log probability", y, want)
    c.same("C15", "gradient", y, want, grad=True)
    if call:
        c.same("C04", "same function", y, want)
    if n > 1 or call.get("parallel_eval"):
        c.same("C03", "log scale", y, want)
    c.same("C12", "row independence", y, want)
    if c.moved:
        moved_result(c, y, complex_params)


def moved_result(c, y, cplx=False):
    v = val(y)
    c.check("C14", "result device", v.dev == "M", f"the result is on {v.dev}")
    c.check("C14", "result precision", v.dt.prec == "P", f"the result has dtype {T.name_dt(v.dt)} instead of the model's precision")


def weight_map(c, x, d, weights=True):
    """x -> w_x e_x for integers 0 <= x < d: a diagonal Gram matrix."""
    w = T.base_tensor("w", (d,), c.fdt, x.dev)
    cols = []
    for k in range(d):
        wk = T.getitem(w, (k,)).scalar if weights else X.ONE
        cols.append(x.map(lambda e: X.compare("eq", e, X.E(k)) * wk, dt=c.fdt))
    return T.stack(cols, x.ndim)


def apply_map2(c, x, d, name="efun", cplx=False):
    if cplx:
        r = apply_map(c, x, d, name + "R")
        i = apply_map(c, x, d, name + "I")
        r = ew(lambda a, b: a + X.number("I") * b, r, i, dt=c.cdt)
        return r.rep(dt=c.cdt, cells=r.cells)
    r = apply_map(c, x, d, name)
    return r


EV = "C01 C03 C12 C15 C16 C17 C18"
MODES = {"default": None, "parallel": dict(parallel_eval=True), "slim": dict(slim_eval=True),
         "both": dict(slim_eval=True, parallel_eval=True)}


def register():
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for mode, call in MODES.items():
            ps = EV + (" C04" if call else "")
            for n in (1, 2, 3, 5) if mode != "both" else (3,):
                scenario(ps, f"{u} n={n} {mode}", prob, n=n, unif=unif, call=call)
            scenario(ps, f"{u} n=3 {mode} complex", prob, n=3, unif=unif, call=call, complex_params=True)
            scenario(ps, f"{u} n=3 {mode} batch of one", prob, n=3, unif=unif, call=call, B=1)
            scenario(ps, f"{u} n=2 {mode} embedding", prob, n=2, unif=unif, call=call, emb="fun")
            if mode != "slim":
                for n in (1, 2, 3):
                    scenario(ps, f"{u} n={n} {mode} bias", prob, n=n, unif=unif, call=call, use_bias=True)
                for n in (1, 2):
                    scenario(ps, f"{u} n={n} {mode} bias complex", prob, n=n, unif=unif, call=call, use_bias=True, complex_params=True)
                    scenario(ps + " C14", f"{u} n={n} {mode} bias complex moved", prob, n=n, unif=unif, call=call, use_bias=True, complex_params=True, moved=True, raises="C14")
            scenario(ps + " C14", f"{u} n=2 {mode} moved", prob, n=2, unif=unif, call=call, moved=True, raises="C14")
            scenario(ps + " C14", f"{u} n=2 {mode} moved complex", prob, n=2, unif=unif, call=call, complex_params=True, moved=True, raises="C14")
            scenario(ps + " C14", f"{u} n=2 {mode} moved embedding", prob, n=2, unif=unif, call=call, emb="fun", moved=True, raises="C14")
            if mode != "slim":
                scenario(ps, f"{u} n=2 {mode} bias onehot embedding", prob, n=2, unif=unif, call=call, emb="onehot", use_bias=True)
                scenario("C01", f"{u} n=1 {mode} bias function embedding", prob, n=1, unif=unif, call=call, emb="fun", use_bias=True)
            for e in ("weights", "onehot"):
                scenario(ps, f"{u} n=2 {mode} {e} embedding", prob, n=2, unif=unif, call=call, emb=e)
        scenario(EV + " C14", f"{u} n=2 moved weights embedding", prob, n=2, unif=unif, emb="weights", moved=True, complex_params=True, raises="C14")
        scenario(EV, f"{u} n=2 complex embedding", prob, n=2, unif=unif, emb="cfun", complex_params=True)
        scenario("C01 C12 C15 C16 C17", f"{u} n=2 loss", prob, n=2, unif=unif, loss=True)


register()
