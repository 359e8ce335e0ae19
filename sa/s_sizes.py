"""Large sizes: every symbolic size is a multiple of 24, so that code whose
behaviour depends on a size being large, or on fractions of it, is decided."""
from .cases import *
from .s_seq import matseq, slim, slices, P_SEQ
from .s_mps import mps, P as P_MPS
from .s_prob import prob, EV
from .s_ti import batch, seqs
from .s_adaptive import initial, change, PR
from .s_deep import Q_TI


def large(c, base=None, **kw):
    c.mult = 24
    base(c, **kw)


def sc(props, name, driver, **kw):
    scenario(props, name + " large sizes", large, base=driver, **kw)


def apart(c, base=None, **kw):
    c.strided = True
    base(c, **kw)


def st(props, name, driver, **kw):
    scenario(props, name + " strided inputs", apart, base=driver, **kw)


def strided():
    """Inputs that are views of larger tensors, so not contiguous in memory."""
    for par in (False, True):
        t, p4 = (" parallel", " C04") if par else ("", "")
        for n in (1, 2, 3, 4):
            for k in (dict(left=True, right=True), dict(right=True), {}):
                st(P_SEQ, f"contract_matseq {n} matrices, {'/'.join(k) or 'no vector'}{t}", matseq, n=n, par=par, **k)
                st(P_SEQ, f"contract_matseq {n} different matrices, {'/'.join(k) or 'no vector'}{t}", matseq, n=n, kind="list", par=par, **k)
        for n, lab in ((1, 0), (3, None), (4, 0), (4, 4)):
            for emb in ("embedded", "default"):
                for per in (False, True):
                    st(P_MPS + p4, f"MPS n={n} label={lab} {emb}{' periodic' if per else ''}{t}", mps, n=n, label=lab, periodic=per, parallel=par, bias=False, embed=emb)
        st(P_MPS + p4, f"MPS n=2 bias{t}", mps, n=2, parallel=par)
        st(P_MPS + p4, f"MPS n=3 path{t}", mps, n=3, parallel=par, path=[2, 0, 1], bias=False, embed="embedded")
        st(P_MPS + p4, f"MPS n=2 feature map{t}", mps, n=2, parallel=par, embed="fmap", Bval=2, d=3)
        for kind in ("embedded", "default"):
            st(Q_TI + p4, f"TI_MPS n=3 {kind}{t}", batch, n=3, kind=kind, d="f" if kind == "embedded" else None, parallel_eval=par, use_bias=False)
            st(Q_TI + p4, f"TI_MPS n=2 {kind} bias{t}", batch, n=2, kind=kind, parallel_eval=par)
        st(Q_TI + p4, f"TI_MPS sequences{t}", seqs, lens=(1, 3, 2), kind="embedded", d="f", parallel_eval=par)
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for mode, call in (("default", None), ("parallel", dict(parallel_eval=True)), ("slim", dict(slim_eval=True))):
            for B in (None, 1):
                b = " batch of one" if B else ""
                st(EV + (" C04" if call else ""), f"{u} n=3 {mode}{b}", prob, n=3, unif=unif, call=call, B=B)
                st(EV + (" C04" if call else ""), f"{u} n=2 {mode} embedding{b}", prob, n=2, unif=unif, call=call, emb="fun", B=B)
        for vec in (False, True):
            v = " vectors" if vec else " indices"
            st("C02 C03 C04 C12 C15 C16 C17", f"slim_eval_fun n=3{' uniform' if unif else ''}{v}", slim, n=3, unif=unif, vec=vec)
            st("C02 C12 C15 C16 C17", f"get_mat_slices n=3{' uniform' if unif else ''}{v}", slices, n=3, unif=unif, vec=vec)
    for n, lab in ((1, 0), (3, 1), (4, None)):
        st(PR + " C18", f"adaptive n={n} label={lab}", initial, n=n, label=lab, d="f", D="D", o="o")
        if n < 4:
            st(PR, f"adaptive n={n} label={lab} change", change, n=n, label=lab, D=1)


def register():
    for par in (False, True):
        t, p4 = (" parallel", " C04") if par else ("", "")
        for n in (2, 5):
            for k in (dict(left=True, right=True), dict(left=True), {}):
                sc(P_SEQ, f"contract_matseq {n} matrices, {'/'.join(k) or 'no vector'}{t}", matseq, n=n, par=par, **k)
            sc(P_SEQ, f"contract_matseq {n} different matrices{t}", matseq, n=n, kind="list", left=True, right=True, par=par)
        for n, lab in ((1, 0), (3, None), (4, 0), (4, 4)):
            for per in (False, True):
                sc(P_MPS + p4, f"MPS n={n} label={lab}{' periodic' if per else ''}{t}", mps, n=n, label=lab, periodic=per, parallel=par, bias=False, embed="embedded")
        sc(P_MPS + p4, f"MPS n=2 bias{t}", mps, n=2, parallel=par)
        sc(Q_TI + p4, f"TI_MPS n=3{t}", batch, n=3, kind="embedded", d="f", parallel_eval=par, use_bias=False)
        sc(Q_TI + p4, f"TI_MPS n=2 bias{t}", batch, n=2, parallel_eval=par)
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for mode, call in (("default", None), ("parallel", dict(parallel_eval=True)), ("slim", dict(slim_eval=True))):
            sc(EV + (" C04" if call else ""), f"{u} n=4 {mode}", prob, n=4, unif=unif, call=call)
            sc(EV + (" C04" if call else ""), f"{u} n=2 {mode} embedding", prob, n=2, unif=unif, call=call, emb="fun")
            if mode != "slim":
                sc(EV + (" C04" if call else ""), f"{u} n=2 {mode} bias", prob, n=2, unif=unif, call=call, use_bias=True)
    for n, lab in ((1, 0), (3, 1), (4, None)):
        for per in (False, True):
            sc(PR + " C18", f"adaptive n={n} label={lab}{' periodic' if per else ''}", initial, n=n, label=lab, periodic=per, d="f", D="D", o="o")


register()
strided()


def derived():
    """Strided versions of scenarios of other modules."""
    from . import scen, s_contract, s_embed, s_utils, s_data
    own = {s_contract.product, s_contract.region_reduce, s_contract.plain_reduce, s_contract.reduce_list, s_embed.onehot, s_embed.trig,
           s_utils.svd, s_utils.batch_bc, s_utils.batch_to, s_utils.bundle, s_data.shuffle, s_data.onehot, s_embed.fixed}
    for s in list(scen.SCENARIOS):
        if s.driver in own and not s.moved and s.tier == "quick" and not any(w in s.name for w in ("batch of one", "unbatched", "cutoff", "sv_vec")):
            scenario(" ".join(s.props), s.name + " strided inputs", apart, paths=s.paths, limit=s.limit, raises=s.raises, base=s.driver, **s.args)


derived()
