"""Longer chains and histories than the other modules enumerate."""
from .cases import *
from .s_seq import matseq, slim, slices, P_SEQ
from .s_mps import mps, P as P_MPS
from .s_prob import prob, EV
from .s_ti import batch, seqs
from .s_adaptive import initial, change, schedule, merging, PR

Q_TI = "C06 C07 C12 C13 C15 C16 C17 C18"
EVALS = {"eval": ((False, True),), "no_grad": ((True, False),), "validation": ((True, True), (False, False))}


def register():
    for par in (False, True):
        t = " parallel" if par else ""
        for n, tier in ((8, "quick"), (9, "quick"), (11, "quick"), (13, "quick"), (16, "quick"), (17, "quick"), (31, "quick"), (33, "quick"), (64, "thorough"), (65, "thorough")):
            for nm, k in (("both vectors", dict(left=True, right=True)), ("right vector", dict(right=True)), ("no vector", {})):
                if tier == "quick" and n > 9 and nm != "both vectors":
                    continue
                for lf in (False, True):
                    if tier == "quick" and (lf == (n % 2 == 0)):
                        continue
                    scenario(P_SEQ, f"contract_matseq {n} matrices, {nm}{t}{' log' if lf else ''} deep", matseq, n=n, par=par, logf=lf, tier=tier, **k)
        for n, tier in ((8, "quick"), (9, "quick"), (12, "quick"), (17, "quick"), (32, "thorough"), (33, "thorough")):
            for per in (False, True):
                scenario(P_MPS + (" C04" if par else ""), f"MPS n={n}{' periodic' if per else ''}{t} deep", mps, n=n, periodic=per, parallel=par, bias=False, embed="embedded", tier=tier)
                scenario(P_MPS + (" C04" if par else ""), f"MPS n={n}{' periodic' if per else ''}{t} first site deep", mps, n=n, label=0, periodic=per, parallel=par, bias=False, embed="embedded", tier=tier)
                scenario(P_MPS + (" C04" if par else ""), f"MPS n={n}{' periodic' if per else ''}{t} last site deep", mps, n=n, label=n, periodic=per, parallel=par, bias=False, embed="embedded", tier=tier)
        for n in (5, 6, 7, 8, 9):
            for lab in range(n + 1):
                for per in (False, True):
                    scenario(P_MPS + (" C04" if par else ""), f"MPS n={n} label={lab}{' periodic' if per else ''}{t} deep", mps, n=n, label=lab, periodic=per, parallel=par, bias=False, embed="embedded", tier="quick" if n < 8 else "thorough")
        for n in (16, 17):
            scenario(Q_TI + (" C04" if par else ""), f"TI_MPS n={n}{t} deep", batch, n=n, kind="embedded", d="f", parallel_eval=par, use_bias=False)
        for lens in ((4, 1), (1, 5, 2), (2, 2, 3, 1)):
            scenario(Q_TI + (" C04" if par else ""), f"TI_MPS sequences {lens}{t} deep", seqs, lens=lens, kind="embedded", d="f", parallel_eval=par)
    for unif in (False, True):
        u = "ProbUnifMPS" if unif else "ProbMPS"
        for mode, call in (("default", None), ("parallel", dict(parallel_eval=True)), ("slim", dict(slim_eval=True))):
            for n, tier in ((7, "quick"), (8, "quick"), (9, "quick"), (12, "quick"), (17, "thorough"), (24, "thorough")):
                scenario(EV + (" C04" if call else ""), f"{u} n={n} {mode} deep", prob, n=n, unif=unif, call=call, tier=tier, limit=600)
            if mode != "slim":
                scenario(EV + (" C04" if call else ""), f"{u} n=4 {mode} bias deep", prob, n=4, unif=unif, call=call, use_bias=True, limit=600)
            scenario(EV + (" C04" if call else ""), f"{u} n=3 {mode} embedding deep", prob, n=3, unif=unif, call=call, emb="fun", limit=600)
        for vec in (False, True):
            v = " vectors" if vec else " indices"
            scenario("C02 C03 C04 C12 C15 C16 C17", f"slim_eval_fun n=9{' uniform' if unif else ''}{v} deep", slim, n=9, unif=unif, vec=vec)
            scenario("C02 C12 C15 C16 C17", f"get_mat_slices n=9{' uniform' if unif else ''}{v} deep", slices, n=9, unif=unif, vec=vec)
    for nm, md in EVALS.items():
        for n, lab in ((1, 0), (2, 1), (3, 0), (3, 2)):
            scenario(PR, f"adaptive n={n} label={lab} change in {nm}", change, n=n, label=lab, turns=2, D=1 if n > 2 else 2, mode=md)
        scenario(PR, f"adaptive n=3 label=1 periodic change in {nm}", change, n=3, label=1, periodic=True, turns=2, D=1, mode=md)
        S = "C10 C09 C17 C18"
        for th, bs in ((1, (1, 1, 1)), (3, (2, 2, 2, 2, 2)), (5, (7, 1, 2, 3, 1))):
            scenario(S, f"schedule threshold={th} batches={bs} in {nm}", schedule, threshold=th, batches=bs, mode=md)
    for n in (5, 6, 7, 8):
        for lab in range(n + 1):
            for per in (False, True):
                scenario(PR + " C18", f"adaptive n={n} label={lab}{' periodic' if per else ''} deep", initial, n=n, label=lab, periodic=per, d="f", D="D", o="o", tier="quick" if n < 7 else "thorough")
                scenario(PR, f"adaptive n={n} label={lab}{' periodic' if per else ''} change deep", change, n=n, label=lab, periodic=per, D=1, tier="quick" if n == 5 else "thorough", limit=600)
    for n in (7, 8, 9, 10, 11):
        for lab in range(n + 1):
            scenario("C08 C05", f"merging n={n} label={lab} deep", merging, n=n, label=lab, d="f", D="D", o="o", tier="quick" if n < 9 else "thorough")
            scenario("C08 C05", f"merging n={n} label={lab} periodic deep", merging, n=n, label=lab, d="f", D="D", o="o", periodic=True, tier="thorough")
    for n, lab in ((1, 0), (2, 1), (3, 2), (4, 2), (5, 2)):
        scenario(PR, f"adaptive n={n} label={lab} six changes", change, n=n, label=lab, turns=6, D=1, tier="thorough", limit=800)
    for n, lab in ((2, 0), (2, 2), (3, 1), (4, 3)):
        for cut in (0, "cut"):
            scenario(PR + " C18", f"adaptive n={n} label={lab} four changes cutoff={cut}", change, n=n, label=lab, turns=4, D=1 if n > 2 else 2, cutoff=cut, paths=96, tier="quick" if n < 4 else "thorough", limit=800)


register()
