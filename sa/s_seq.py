"""Contraction of matrix sequences, matrix slices, slim evaluation, norms."""
from .cases import *
from .s_prob import prob_norm, moved_result, prob_amp

SV = slice(None)



def seq_ref(mats, left, right):
    """Ordered product with broadcasting over leading batch axes."""
    cur = None
    if left is not None:
        cur = pick(left, Ellipsis, None, SV)
    for m in mats:
        cur = val(m) if cur is None else T.matmul(cur, val(m))
    if right is not None:
        r = pick(right, Ellipsis, None)
        cur = r if cur is None else T.matmul(cur, r)
    if right is not None:
        cur = pick(cur, Ellipsis, 0)
    if left is not None:
        cur = pick(cur, Ellipsis, 0) if right is not None else pick(cur, Ellipsis, 0, SV)
    return cur


def matseq(c, n, kind="tensor", left=False, right=False, par=False, logf=False, mb=("B",), vb=(), cplx=False, dims=None, mbs=None):
    dt = c.cdt if cplx else c.fdt
    sz = lambda b: tuple(c.size(x) if isinstance(x, str) else x for x in b)
    if kind in ("tensor", "equal"):
        ds = [c.size("D")] * (n + 1)
    else:
        ds = [c.size(f"D{k}") for k in range(n + 1)] if dims is None else [c.size(x) if isinstance(x, str) else x for x in dims]
    lv = c.tensor("lv", sz(vb) + (ds[0],), dt, c.dev, batch=None, param=True) if left else None
    rv = c.tensor("rv", sz(vb) + (ds[-1],), dt, c.dev, batch=None, param=True) if right else None
    if kind == "tensor":
        M = c.tensor("M", sz(mb) + (n, ds[0], ds[0]), dt, c.dev, batch=None, param=True)
        mats = [pick(M, Ellipsis, k, SV, SV) for k in range(n)]
    else:
        mats = [c.tensor(f"M{k}", sz(mbs[k] if mbs else mb) + (ds[k], ds[k + 1]), dt, c.dev, batch=None, param=True) for k in range(n)]
        M = c.lst(mats, "matrices")
    c.begin()
    out = c.fn("mps_base", "contract_matseq", M, lv, rv, par, logf)
    if n == 0 and not left and not right:
        want = T.eye(ds[0], ds[0], dt, c.dev)
        want = T.expand(want, sz(mb) + (ds[0], ds[0]))
    else:
        want = seq_ref(mats, lv, rv)
        if not n and kind == "tensor" and mb:
            want = T.expand(want, T_broadcast(sz(mb), want.shape[:want.ndim - (1 - left) * 0 - 0], left, right, want))
    if logf:
        if not (isinstance(out, tuple) and len(out) == 2):
            c.bad("C03", "log format", f"log_format=True returns {c.it.tname(out)} instead of a pair")
            return
        p, s = val(out[0]), val(out[1])
        got = ew(lambda a, b: a * X.exp(b), p, s)
        c.same("C03", "value times exp(log scale)", got, want)
        nopen = (not left) + (not right)
        okk = s.ndim == p.ndim and all(T.dim_eq(s.shape[s.ndim - 1 - k], 1) for k in range(nopen)) and all(
            T.dim_eq(s.shape[k], p.shape[k]) or T.dim_eq(s.shape[k], 1) for k in range(p.ndim - nopen))
        c.check("C03", "one factor per batch element", okk, f"log scale of shape {list(s.shape)} for a product of shape {list(p.shape)}")
    else:
        got = out
        c.same("C03", "folded scale", got, want)
    c.same("C02", "ordered product", got, want)
    if mb:
        c.same("C12", "batch element", got, want)
    if logf and not mbs and (mb == ("B",) and not vb or not mb and vb == ("B",)):
        names = {"lv", "rv"} if vb else {"M"} | {f"M{k}" for k in range(n)}
        c.by_row("C12", "value in log format", out[0], names)
        c.by_row("C12", "log scale", out[1], names)
    c.same("C15", "gradient", got, want, grad=True)
    if c.moved:
        moved_result(c, out[0] if logf else out)
        if logf:
            moved_result(c, out[1])


def T_broadcast(mb, *_):
    raise TooHard("broadcast")


def vanishing(c, what, k=0, par=False, cplx=False):
    """Intermediate results that are exactly zero: the product is zero, not nan."""
    dt = c.cdt if cplx else c.fdt
    D, B, n = 2, c.size("B"), 3
    zero = lambda *s: TensorObj(Root(T.const_tensor(s, 0, dt, c.dev)))
    if what == "matrices":
        mats = [c.tensor(f"M{j}", (B, D, D), dt, c.dev, batch=None) if j != k else zero(D, D) for j in range(n)]
        mats[k] = TensorObj(Root(T.expand(val(mats[k]), (B, D, D))))
        lv, rv = (c.tensor(x, (D,), dt, c.dev, batch=None) for x in ("lv", "rv"))
        if k < 0:
            lv = zero(D)
        c.begin()
        out = c.fn("mps_base", "contract_matseq", c.lst(mats), lv, rv, par, True)
        want = seq_ref(mats, lv, rv)
    else:
        A = zero(n, D, D, D) if k == 0 else c.tensor("A", (n, D, D, D), dt, c.dev, batch=None)
        ev = zero(2, D) if k else c.tensor("ev", (2, D), dt, c.dev, batch=None)
        x = c.ints("x", (B, n), c.dev)
        c.begin()
        out = c.fn("mps_base", "slim_eval_fun", x, A, ev)
        want = prob_amp(c, A, ev, None, x, n, False, False)
    got = ew(lambda a, b: a * X.exp(b), out[0], out[1])
    c.same("C03", "vanishing product", got, want)
    c.same("C02", "vanishing product", got, want)


def slim(c, n, unif, vec, cplx=False, B=None):
    d, D = c.size("d"), c.size("D")
    B = c.size("B") if B is None else B
    dt = c.cdt if cplx else c.fdt
    A = c.tensor("A", ((d, D, D) if unif else (n, d, D, D)), dt, c.dev, batch=None, param=True)
    ev = c.tensor("ev", (2, D), dt, c.dev, batch=None, param=True)
    x = c.tensor("x", (B, n, d), c.fdt, c.dev) if vec else c.ints("x", (B, n), c.dev)
    c.begin()
    out = c.fn("mps_base", "slim_eval_fun", x, A, ev)
    if not (isinstance(out, tuple) and len(out) == 2):
        c.bad("C03", "pair", "slim_eval_fun does not return a value and a log scale")
        return
    want = prob_amp(c, A, ev, None, x, n, unif, vec)
    got = ew(lambda a, b: a * X.exp(b), out[0], out[1])
    c.same("C03", "value times exp(log scale)", got, want)
    c.same("C04", "slim amplitude", got, want)
    c.same("C02", "ordered product", got, want)
    c.same("C12", "batch element", got, want)
    if not isinstance(B, int):
        c.by_row("C12", "value in log format", out[0], {"x"})
        c.by_row("C12", "log scale", out[1], {"x"})
    c.same("C15", "gradient", got, want, grad=True)
    c.check("C03", "scale per batch element", T.dim_eq(val(out[1]).shape[0], B) and val(out[1]).ndim == 1,
            f"log scale of shape {list(val(out[1]).shape)}")
    if c.moved:
        moved_result(c, out[0])
        moved_result(c, out[1])


def slices(c, n, unif, vec, cplx=False, B=None):
    d, D = c.size("d"), c.size("D")
    B = c.size("B") if B is None else B
    dt = c.cdt if cplx else c.fdt
    A = c.tensor("A", ((d, D, D) if unif else (n, d, D, D)), dt, c.dev, batch=None, param=True)
    x = c.tensor("x", (B, n, d), c.fdt, c.dev) if vec else c.ints("x", (B, n), c.dev)
    c.begin()
    out = c.fn("mps_base", "get_mat_slices", x, A)
    ms = []
    for i in range(n):
        core = val(A) if unif else T.getitem(val(A), (i,))
        xi = pick(x, SV, i)
        ms.append(es("bi,ilr->blr", xi, core) if vec else T.getitem(core, (xi,)))
    want = T.stack(ms, 1)
    c.same("C02", "matrix slices", out, want)
    c.same("C12", "batch element", out, want)
    c.same("C15", "gradient", out, want, grad=True)
    if c.moved:
        moved_result(c, out)


def lognorm(c, n, unif, lam, cplx=False):
    d, D = c.size("d"), c.size("D")
    dt = c.cdt if cplx else c.fdt
    A = c.tensor("A", ((d, D, D) if unif else (n, d, D, D)), dt, c.dev, batch=None, param=True)
    ev = c.tensor("ev", (2, D), dt, c.dev, batch=None, param=True)
    L = full = None
    if lam is not None:
        L = c.tensor("lam", (d,) * lam, c.fdt, c.dev, batch=None, **({"pos": True} if lam == 0 else {}))
        eyem = T.eye(d, d, c.fdt, c.dev)
        full = {0: lambda: ew(lambda a, b: a * b, eyem, L), 1: lambda: es("i,ij->ij", L, eyem), 2: lambda: val(L)}[lam]()
    c.begin()
    out = c.fn("mps_base", "get_log_norm", A, ev, lamb_mat=L, length=n if unif else None)
    nrm = prob_norm(c, A, ev, None, n, unif, full)
    want = ew(lambda b: X.log(X.re(b)), nrm)
    if lam == 2 and cplx:
        # a real symmetric Gram matrix is not assumed: compare only moduli of real forms
        want = ew(lambda b: X.log(X.re(b)), nrm)
    c.same("C01", "log norm", out, want)
    c.same("C03", "log norm", out, want)
    c.same("C15", "gradient", out, want, grad=True)
    if c.moved:
        moved_result(c, out)


P_SEQ = "C02 C03 C12 C15 C16 C17"


def register():
    for par in (False, True):
        t = " parallel" if par else ""
        for n in (1, 2, 3, 4, 5, 6, 7):
            scenario(P_SEQ, f"contract_matseq {n} matrices, both vectors{t}", matseq, n=n, left=True, right=True, par=par)
        for n in (1, 2, 3, 5):
            for lf in (False, True):
                l = " log" if lf else ""
                scenario(P_SEQ, f"contract_matseq {n} matrices, left vector{t}{l}", matseq, n=n, left=True, par=par, logf=lf)
                scenario(P_SEQ, f"contract_matseq {n} matrices, right vector{t}{l}", matseq, n=n, right=True, par=par, logf=lf)
                scenario(P_SEQ, f"contract_matseq {n} matrices, no vector{t}{l}", matseq, n=n, par=par, logf=lf)
        scenario(P_SEQ, f"contract_matseq 3 matrices, both vectors log{t}", matseq, n=3, left=True, right=True, par=par, logf=True)
        scenario(P_SEQ, f"contract_matseq 3 matrices, no batch{t}", matseq, n=3, left=True, right=True, par=par, mb=())
        scenario(P_SEQ, f"contract_matseq 3 matrices, two batch axes{t}", matseq, n=3, left=True, par=par, mb=("A", "B"))
        scenario(P_SEQ, f"contract_matseq 3 matrices, batched vectors{t}", matseq, n=3, left=True, right=True, par=par, mb=(), vb=("B",))
        scenario(P_SEQ, f"contract_matseq 3 matrices, batched vectors log{t}", matseq, n=3, left=True, right=True, par=par, mb=(), vb=("B",), logf=True)
        scenario(P_SEQ, f"contract_matseq 3 matrices, batches 1 and B{t}", matseq, n=3, left=True, right=True, par=par, mb=(1,), vb=("B",))
        scenario(P_SEQ, f"contract_matseq 3 complex matrices{t}", matseq, n=3, left=True, right=True, par=par, cplx=True)
        for lf in (False, True):
            l = " log" if lf else ""
            for nm, k in (("left", dict(left=True)), ("right", dict(right=True)), ("no", {}), ("both", dict(left=True, right=True))):
                scenario(P_SEQ, f"contract_matseq 3 complex matrices, {nm} vector{t}{l}", matseq, n=3, par=par, logf=lf, cplx=True, **k)
                scenario(P_SEQ, f"contract_matseq list of 3 complex, {nm} vector{t}{l}", matseq, n=3, kind="list", par=par, logf=lf, cplx=True, **k)
            for nm, ds in (("narrowing", (5, 4, 3, 2)), ("widening", (2, 3, 4, 5)), ("to size one", (3, 2, 2, 1)), ("from size one", (1, 2, 2, 3))):
                for vn, k in (("left", dict(left=True)), ("right", dict(right=True)), ("no", {}), ("both", dict(left=True, right=True))):
                    scenario(P_SEQ, f"contract_matseq list {nm}, {vn} vector, complex{t}{l}", matseq, n=3, kind="list", par=par, dims=ds, logf=lf, cplx=True, **k)
        scenario(P_SEQ, f"contract_matseq list of 3 equal matrices{t}", matseq, n=3, kind="equal", left=True, right=True, par=par)
        for n in (1, 2, 4):
            scenario(P_SEQ, f"contract_matseq list of {n}, both vectors{t}", matseq, n=n, kind="list", left=True, right=True, par=par)
            scenario(P_SEQ, f"contract_matseq list of {n}, left vector{t}", matseq, n=n, kind="list", left=True, par=par)
            scenario(P_SEQ, f"contract_matseq list of {n}, right vector{t}", matseq, n=n, kind="list", right=True, par=par, logf=True)
            scenario(P_SEQ, f"contract_matseq list of {n}, no vector{t}", matseq, n=n, kind="list", par=par)
        scenario(P_SEQ, f"contract_matseq list narrowing{t}", matseq, n=3, kind="list", par=par, dims=(5, 4, 3, 2), logf=True)
        scenario(P_SEQ, f"contract_matseq list widening{t}", matseq, n=3, kind="list", par=par, dims=(2, 3, 4, 5), logf=True)
        scenario(P_SEQ, f"contract_matseq list to size one{t}", matseq, n=3, kind="list", par=par, dims=(3, 2, 2, 1), left=True)
        for k in ((True, True), (True, False), (False, False)):
            scenario(P_SEQ + " C14", f"contract_matseq moved {k}{t}", matseq, n=3, left=k[0], right=k[1], par=par, logf=True, moved=True, raises="C14")
        scenario(P_SEQ + " C14", f"contract_matseq list moved{t}", matseq, n=3, kind="list", left=True, right=False, par=par, logf=True, moved=True, raises="C14")
        scenario(P_SEQ + " C14", f"contract_matseq moved complex{t}", matseq, n=3, left=True, right=True, par=par, logf=False, cplx=True, moved=True, raises="C14")
    for par in (False, True):
        for k in (-1, 0, 1, 2):
            for cx in (False, True):
                scenario("C02 C03", f"contract_matseq vanishing {k}{' parallel' if par else ''}{' complex' if cx else ''}", vanishing, what="matrices", k=k, par=par, cplx=cx)
    for k in (0, 1):
        for cx in (False, True):
            scenario("C02 C03", f"slim_eval_fun vanishing {k}{' complex' if cx else ''}", vanishing, what="slim", k=k, cplx=cx)
    for kind in ("list", "equal"):
        for nm, mbs in (("none and B", ((), ("B",), ())), ("B last", ((), (), ("B",))), ("one and B", ((1,), ("B",), (1,))), ("A,1 and B", (("A", 1), ("B",), ("A", "B")))):
            for vn, k in (("left", dict(left=True)), ("right", dict(right=True)), ("no", {}), ("both", dict(left=True, right=True)), ("batched both", dict(left=True, right=True, vb=("B",)))):
                for par in (False, True):
                    scenario("C02 C03 C16 C21", f"contract_matseq {kind} mixed batches {nm}, {vn} vector{' parallel' if par else ''}", matseq, n=3, kind=kind, mbs=mbs, par=par, logf=True, **k)
    scenario("C02 C16", "contract_matseq of nothing, both vectors", matseq, n=0, kind="list", left=True, right=True, mb=())
    scenario("C02 C16", "contract_matseq of nothing, left vector", matseq, n=0, kind="list", left=True, mb=())
    for unif in (False, True):
        u = " uniform" if unif else ""
        for vec in (False, True):
            v = " vectors" if vec else " indices"
            for n in (1, 2, 4):
                scenario("C02 C03 C04 C12 C15 C16 C17", f"slim_eval_fun n={n}{u}{v}", slim, n=n, unif=unif, vec=vec)
            scenario("C02 C03 C04 C12 C15 C16 C17", f"slim_eval_fun n=2{u}{v} complex", slim, n=2, unif=unif, vec=vec, cplx=True)
            scenario("C02 C03 C04 C12 C15 C16 C17", f"slim_eval_fun n=2{u}{v} batch of one", slim, n=2, unif=unif, vec=vec, B=1)
            scenario("C02 C03 C12 C14 C15 C16 C17", f"slim_eval_fun moved{u}{v}", slim, n=2, unif=unif, vec=vec, moved=True, raises="C14")
            scenario("C02 C03 C12 C14 C15 C16 C17", f"slim_eval_fun moved complex{u}{v}", slim, n=2, unif=unif, vec=vec, cplx=True, moved=True, raises="C14")
            for n in (1, 3):
                scenario("C02 C12 C15 C16 C17", f"get_mat_slices n={n}{u}{v}", slices, n=n, unif=unif, vec=vec)
            scenario("C02 C12 C15 C16 C17", f"get_mat_slices n=3{u}{v} complex", slices, n=3, unif=unif, vec=vec, cplx=True)
            scenario("C02 C12 C15 C16 C17", f"get_mat_slices n=1{u}{v} batch of one", slices, n=1, unif=unif, vec=vec, B=1)
            scenario("C02 C12 C14 C15 C16 C17", f"get_mat_slices moved{u}{v}", slices, n=2, unif=unif, vec=vec, moved=True, raises="C14", cplx=True)
        for lam in (None, 0, 1, 2):
            for cx in (False, True):
                scenario("C01 C03 C15 C16 C17", f"get_log_norm lamb={lam}{u}{' complex' if cx else ''}", lognorm, n=2, unif=unif, lam=lam, cplx=cx)
            scenario("C01 C03 C14 C15 C16 C17", f"get_log_norm lamb={lam}{u} moved", lognorm, n=2, unif=unif, lam=lam, cplx=True, moved=True, raises="C14")


register()
