"""Adaptive MPS: merging, splitting, schedule, bookkeeping."""
from .cases import *
from .s_prob import moved_result
from .interp import Undec

SV = slice(None)
CORES = {"in": 1, "in2": 2, "out": 1, "outL": 2, "outR": 2}
INPUTS = {"in": 1, "in2": 2, "out": 0, "outL": 1, "outR": 1}


def cutoff_of(c, cutoff):
    if cutoff == "cut":
        X.TINFO["cut"] = {"real": True, "pos": True}
        return snum(X.T("cut")), X.T("cut")
    return Fraction(cutoff), X.E(Fraction(cutoff))


def split(c, site, D, cut):
    """Truncated SVD of a merged core: (sites, kept, singular values) for the core
    replaced by its two neighbours; cut is an Expr."""
    v = site.t.map(X.undetach)
    if site.kind == "in2":
        rows, cols, init, lt, rt = "li", "rj", "lrij", "lui", "urj"
    elif site.kind == "outL":
        rows, cols, init, lt, rt = "ol", "ri", "olri", "olu", "uri"
    else:
        rows, cols, init, lt, rt = "or", "li", "olri", "our", "lui"
    m = es(f"{init}->{rows + cols}", v)
    rs, cs = m.shape[:2], m.shape[2:]
    u, s, w = c.it.lib._svd(T.reshape(m, [T.dims_prod(rs), T.dims_prod(cs)]))
    r = s.shape[0]
    if isinstance(r, int) and isinstance(D, int):
        top = min(r, D)
        k = 0
        while k < top and not ask(c, X.compare("lt", T.getitem(s, (k,)).scalar, cut)):
            k += 1
        svs = [T.getitem(s, (q,)) for q in range(top)]
        zero = svs[0].map(lambda e: X.ZERO)
        svs = T.stack(svs + [zero] * (D - top), 0)
        kept = k
        U, S, W = (T.getitem(u, (SV, slice(0, k))), T.getitem(s, (slice(0, k),)), T.getitem(w, (SV, slice(0, k))))
    else:
        if not (cut == X.ZERO):
            raise TooHard("symbolic number of singular values")
        kept = D if not c.it.truth(c.it.num_cmp("lt", r, D)) else r
        sl = lambda t, ax: T.getitem(t, (SV,) * ax + (slice(0, kept),)) if not T.dim_eq(kept, r) else t
        U, S, W = sl(u, 1), sl(s, 0), sl(w, 1)
        svs = S if T.dim_eq(kept, D) else None
    if isinstance(kept, int) and kept == 0:
        raise Skip()
    prod = es("au,u,bu->ab", U, S, W)
    full = es(f"{rows + cols}->{init}", T.reshape(prod, list(rs) + list(cs)))
    return Site(site.kind, full), kept, svs


def ask(c, e):
    return e == X.ONE if e.is_const else c.it.truth(Undec(("truth", e), "reference"))


def kinds(sites):
    return [s.kind for s in sites]


def state_kinds(n, label, offset):
    """Merge state: which cores are merged when pairs start at even (0) or odd
    (1) positions of the chain of n + 1 cores; inner input pairs only merge
    completely inside an input region."""
    cores = ["in"] * label + ["out"] + ["in"] * (n - label)
    out, k = [], offset
    if offset:
        out.append(cores[0])
    while k < len(cores):
        pair = cores[k:k + 2]
        if len(pair) == 1:
            out.append(pair[0])
        elif pair == ["in", "in"]:
            out.append("in2")
        else:
            out.append("outL" if pair[0] == "out" else "outR")
        k += 2
    return out


def registered(c, m):
    return [p for _, p in c.named(m)]


def active(c, m):
    return chain_of(c, modules_of(c, c.attr(c.attr(m, "linear_region"), "module_list")))


def active_params(c, m):
    return [c.attr(x, "tensor") for x in modules_of(c, c.attr(c.attr(m, "linear_region"), "module_list"))]


def build(c, n, label=None, cutoff=0, threshold=None, o=2, D=2, d=2, embed="embedded", **kw):
    cv, ce = cutoff_of(c, cutoff)
    opts = dict(cutoff=cv)
    if threshold is not None:
        opts["merge_threshold"] = threshold
    opts.update(kw.pop("kw", {}))
    m, ps, info = mps_case(c, n, label=label, adaptive=True, embed=embed, o=sz(c, o), D=sz(c, D), d=sz(c, d) if d is not None else None, kw=opts, **kw)
    c.allow = {"mutate_param"}
    info["label"] = n // 2 if label is None else label
    return m, info, ce


def sz(c, s):
    return c.size(s) if isinstance(s, str) else s


def expected_bond(sites):
    """bond index of the inner bond of every merged core"""
    k, out = 0, {}
    for q, s in enumerate(sites):
        if CORES[s.kind] == 2:
            out[q] = k + 1
        k += CORES[s.kind]
    return out


def transition(c, m, info, x, ce, rows=None, tag=""):
    """Call the model where a merge-state change is due, check everything."""
    n, D = info["n"], info["D"]
    old = active(c, m)
    for k, s in enumerate(old):
        old[k] = Site(s.kind, s.t.map(lambda e: e))
    regs = registered(c, m)
    bl, sl = val(c.attr(m, "bond_list")), val(c.attr(m, "sv_list"))
    try:
        y = c.run(m, x)
    except AbsRaise as ex:
        if ex.name == "RuntimeError" and not ce.is_const and "cutoff" in " ".join(map(str, ex.eargs)):
            raise Skip()        # every value below the cutoff: rejected
        raise
    # before the transition there are no value-dependent decisions; the
    # reference below asks the same questions and so gets the same answers
    ref, bonds = [], {}
    where = expected_bond(old)
    for q, s in enumerate(old):
        if q in where:
            r, kept, svs = split(c, s, D, ce)
            ref.append(r)
            bonds[where[q]] = (kept, svs)
        else:
            ref.append(s)
    new = active(c, m)
    want = mps_ref(c, m, info, x, ref)
    c.check("C10", "plain output" + tag, isinstance(y, TensorObj), f"a call that changes the merge state returns {c.it.tname(y)}")
    if not isinstance(y, TensorObj):
        return y
    c.same("C08", "chain preserved" + tag, y, want)
    if not ce.is_const:
        c.same("C18", "cutoff" + tag, y, want)
    c.same("C05", "routing after a change" + tag, y, want)
    c.same("C12", "row independence" + tag, y, want)
    c.same("C06", "boundary" + tag, y, want)
    if c.moved:
        moved_result(c, y)
        for k, s in enumerate(new):
            c.check("C14", "core after a change", s.t.dev == "M" and s.t.dt.prec == "P", f"core {k} is {T.name_dt(s.t.dt)} on {s.t.dev} after a change")
    try:
        c.same("C09", "evaluates registered cores" + tag, y, mps_ref(c, m, info, x, new))
    except ValueError as ex:
        c.bad("C09", "evaluates registered cores" + tag, str(ex))
    now = registered(c, m)
    a = [p for p in regs if not any(p is q for q in now)]
    b = [p for p in now if not any(p is q for q in regs)]
    c.check("C09", "same parameter objects" + tag, not a and not b, f"a change of merge state replaces {len(a)} registered parameters and adds {len(b)}")
    for k, p in enumerate(active_params(c, m)):
        c.check("C09", f"active core {k} registered at construction" + tag, any(p is q for q in regs), f"the core of module {k} is not one of the parameters registered at construction")
    c.check("C08", "inputs" + tag, sum(INPUTS[s.kind] for s in new) == n, "the number of input sites changes")
    c.check("C08", "cores" + tag, sum(CORES[s.kind] for s in new) == n + 1, "the number of cores changes")
    lr = c.attr(m, "linear_region")
    c.check("C08", "reported length" + tag, c.it.lib_len(lr) == n if hasattr(c.it, "lib_len") else True, "len() differs from the number of inputs")
    # bond list
    nb, ns = val(c.attr(m, "bond_list")), val(c.attr(m, "sv_list"))
    for k in range(n + 2):
        g, s = T.getitem(nb, (k,)), T.getitem(ns, (k,))
        if k in bonds:
            kept, svs = bonds[k]
            c.same("C10", f"bond dimension of bond {k}" + tag, g, T.const_tensor((), 0, g.dt, g.dev).map(lambda e: num(kept)))
            if svs is not None:
                c.same("C10", f"singular values of bond {k}" + tag, s, svs)
        else:
            c.same("C10", f"untouched bond {k}" + tag, g, T.getitem(bl, (k,)))
            c.same("C10", f"untouched singular values {k}" + tag, s, T.getitem(sl, (k,)))
    return y


def num(k):
    return X.E(k) if isinstance(k, int) else X.E(P(k))


def quiet_call(c, m, info, x, tag=""):
    """Call where no change is due: same chain, registered parameters untouched."""
    regs = registered(c, m)
    old = active(c, m)
    before = [(p.root, p.root.version) for p in regs]
    bl, sl = val(c.attr(m, "bond_list")), val(c.attr(m, "sv_list"))
    c.allow = set()
    y = c.run(m, x)
    c.allow = {"mutate_param"}
    if not isinstance(y, TensorObj):
        c.bad("C10", "plain output" + tag, f"returns {c.it.tname(y)}")
        return y
    c.ok("C10", "plain output" + tag)
    want = mps_ref(c, m, info, x, old)
    for p, o in (("C10", "no change yet"), ("C09", "evaluates registered cores"), ("C05", "routing"), ("C17", "history"), ("C06", "boundary")):
        c.same(p, o + tag, y, want)
    c.same("C15", "gradient" + tag, y, want, grad=True)
    c.check("C16", "parameters untouched" + tag, all(r.version == v for r, v in before), "evaluation without a change writes to parameters")
    c.check("C10", "state kept" + tag, kinds(active(c, m)) == kinds(old), "the merge state changes although it is not due")
    c.same("C10", "bond_list kept" + tag, c.attr(m, "bond_list"), bl)
    c.same("C10", "sv_list kept" + tag, c.attr(m, "sv_list"), sl)
    now = registered(c, m)
    c.check("C09", "same parameter objects" + tag, len(now) == len(regs) and all(any(p is q for q in now) for p in regs), "evaluation replaces parameters")
    return y


# --------------------------------------------------------------------- drivers
def initial(c, n, label=None, periodic=False, parallel=False, **kw):
    """State after construction, first evaluation."""
    m, info, ce = build(c, n, label, periodic=periodic, parallel=parallel, **kw)
    lab = info["label"]
    c.check("C08", "initial merge state", sum(INPUTS[s.kind] for s in active(c, m)) == n and sum(CORES[s.kind] for s in active(c, m)) == n + 1,
            f"cores {kinds(active(c, m))} for {n} inputs")
    c.check("C10", "initial merge state", kinds(active(c, m)) == state_kinds(n, lab, 0), f"the first merge state is {kinds(active(c, m))} instead of {state_kinds(n, lab, 0)}")
    regs = registered(c, m)
    for k, p in enumerate(active_params(c, m)):
        c.check("C15", f"core {k} registered", any(p is q for q in regs), "an active core is not a registered parameter")
    bl, sl = val(c.attr(m, "bond_list")), val(c.attr(m, "sv_list"))
    c.check("C18", "bond_list length", T.dim_eq(bl.shape[0], n + 2) and T.dim_eq(sl.shape[0], n + 2), "bond_list does not list every bond")
    for k in range(n + 2):
        w = 1 if k in (0, n + 1) and not periodic else info["D"]
        c.same("C18", f"initial bond dimension {k}", T.getitem(bl, (k,)), T.const_tensor((), 0, bl.dt, bl.dev).map(lambda e: num(w)))
        c.same("C10", f"initial bond dimension {k}", T.getitem(bl, (k,)), T.const_tensor((), 0, bl.dt, bl.dev).map(lambda e: num(w)))
    x = mps_input(c, info)
    quiet_call(c, m, info, x)
    if c.moved:
        moved_result(c, c.run(m, x))


def merging(c, n, label, D=2, o=2, d=2, periodic=False):
    """Building both merge states from given cores contracts neighbours."""
    D, o, d = sz(c, D), sz(c, o), sz(c, d)
    mod = lambda nm: c.get("torchmps", nm)
    mods, sites = [], []
    if label:
        t = c.tensor("A", (label, D, D, d), batch=None)
        mods.append(c.construct(mod("InputRegion"), t, use_bias=False))
        sites += [Site("in", pick(t, k)) for k in range(label)]
    t = c.tensor("C", (o, D, D), batch=None)
    mods.append(c.construct(mod("OutputSite"), t))
    sites.append(Site("out", val(t)))
    if label < n:
        t = c.tensor("Z", (n - label, D, D, d), batch=None)
        mods.append(c.construct(mod("InputRegion"), t, use_bias=False))
        sites += [Site("in", pick(t, k)) for k in range(n - label)]
    c.begin()
    lr = c.construct(mod("MergedLinearRegion"), LObj(mods), periodic_bc=periodic, merge_threshold=1, cutoff=Fraction(0))
    c.report_events = False
    x = c.tensor("x", (c.size("B"), n, d))
    want = ref_chain(sites, val(x), periodic)
    seen = []
    for off in (0, 1):
        ml = None
        try:
            ml = c.attr(lr, f"module_list_{off}")
        except AbsRaise:
            c.und("C08", f"merge state {off}", "no such list")
            continue
        ss = chain_of(c, modules_of(c, ml))
        seen.append(kinds(ss))
        c.check("C08", f"merge state {off}", kinds(ss) == state_kinds(n, label, off), f"merged as {kinds(ss)} instead of {state_kinds(n, label, off)}")
        try:
            got = ref_chain(ss, val(x), periodic)
        except ValueError as ex:
            c.bad("C08", f"cores of merge state {off}", str(ex))
            continue
        c.same("C08", f"chain of merge state {off}", got, want)
    # evaluation of the first state
    y = c.run(lr, x)
    c.same("C08", "evaluation", y, want)
    c.same("C05", "evaluation", y, want)
    c.check("C08", "core count", c.meth(lr, "core_len") == n + 1, f"core_len() is {c.meth(lr, 'core_len')} for {n + 1} cores")


def switch(c, m, turn):
    """(training mode, gradients enabled)"""
    c.meth(m, "train" if turn[0] else "eval")
    c.it.grad = turn[1]


def change(c, n, label=None, periodic=False, parallel=False, turns=1, cutoff=0, mode=None, **kw):
    """A change of merge state at every call after the first."""
    B = c.size("B")
    m, info, ce = build(c, n, label, cutoff=cutoff, threshold=B, periodic=periodic, parallel=parallel, B=B, **kw)
    lab = info["label"]
    x = mps_input(c, info)
    if mode:
        switch(c, m, mode[0])
    c.run(m, x)
    for k in range(turns):
        if mode:
            switch(c, m, mode[(k + 1) % len(mode)])
        tag = f" (change {k + 1})" if turns > 1 else ""
        transition(c, m, info, x, ce, tag=tag)
        c.check("C10", f"alternation {k + 1}", kinds(active(c, m)) == state_kinds(n, lab, (k + 1) % 2),
                f"after change {k + 1} the merge state is {kinds(active(c, m))} instead of {state_kinds(n, lab, (k + 1) % 2)}")
        # an optimizer step: arbitrary new content of the registered parameters
        c.name_params(m, f"s{k}.")


def trained(c, n, label=None, **kw):
    """After a change, parameters are trained and evaluated without a change."""
    B = c.size("B")
    m, info, ce = build(c, n, label, threshold=2 * B, B=B, **kw)
    x = mps_input(c, info)
    quiet_call(c, m, info, x, " (1)")
    c.run(m, x)
    transition(c, m, info, x, ce)
    c.name_params(m, "s.")
    quiet_call(c, m, info, x, " (after training)")


def schedule(c, threshold, batches, n=2, label=1, default=False, mode=None, **kw):
    m, info, ce = build(c, n, label, threshold=None if default else threshold, **kw)
    count, off = 0, 0
    for k, b in enumerate(batches):
        x = c.tensor(f"x{k}", (b, n, info["d"]), c.fdt, c.dev)
        if mode:
            switch(c, m, mode[k % len(mode)])
        if count >= threshold:
            count -= threshold
            off = 1 - off
            y = c.run(m, x)
        else:
            y = c.run(m, x)
        count += b
        tag = f"call {k + 1}"
        got = kinds(active(c, m))
        want = state_kinds(n, label, off)
        c.check("C10", "schedule " + tag, got == want, f"merge_threshold={threshold}, batches {batches}: in call {k + 1} the merge state is {got} instead of {want}")
        c.check("C18", "merge_threshold " + tag, got == want, f"merge_threshold={threshold}, batches {batches}: in call {k + 1} the merge state is {got} instead of {want}")
        c.check("C10", "plain output " + tag, isinstance(y, TensorObj), f"returns {c.it.tname(y)}")
        try:
            c.same("C09", "evaluates registered cores " + tag, y, mps_ref(c, m, info, x))
        except ValueError as ex:
            c.bad("C09", "evaluates registered cores " + tag, str(ex))
        c.name_params(m, f"s{k}.")


def symbolic_schedule(c):
    """Threshold 2B, three calls of B: the third one changes the state."""
    B = c.size("B")
    m, info, ce = build(c, 2, 1, threshold=2 * B, B=B)
    x = mps_input(c, info)
    quiet_call(c, m, info, x, " (1)")
    quiet_call(c, m, info, x, " (2)")
    transition(c, m, info, x, ce)


def two_models(c):
    """Counters, offsets and bond lists belong to each model."""
    B = c.size("B")
    m, info, ce = build(c, 2, 1, threshold=B, B=B)
    m2, info2, ce2 = build(c, 2, 1, threshold=3 * B, B=B)
    c.name_params(m2, "m2.")
    x = mps_input(c, info)
    quiet_call(c, m2, info2, x, " (second model)")
    quiet_call(c, m, info, x, " (first model)")
    kept = {k: val(c.attr(m2, k)) for k in ("bond_list", "sv_list")}
    made = {k: c.attr(m2, k).root.version for k in kept}
    transition(c, m, info, x, ce)
    for k, v in kept.items():
        # the numbers may agree by chance here, a write never is the other's
        c.check("C17", f"{k} of the other model written", c.attr(m2, k).root.version == made[k], f"a change of merge state of one model writes to {k} of another model")
        c.same("C17", f"{k} of the other model", c.attr(m2, k), v)
        c.same("C10", f"{k} of the other model", c.attr(m2, k), v)
    m3, info3, ce3 = build(c, 2, 1, threshold=3 * B, B=B)
    c.name_params(m3, "m3.")
    for k in ("bond_list", "sv_list"):
        c.same("C17", f"initial {k} of a third model", c.attr(m3, k), kept[k])
        c.same("C10", f"initial {k} of a third model", c.attr(m3, k), kept[k])
    quiet_call(c, m3, info3, x, " (third model)")
    quiet_call(c, m2, info2, x, " (second model again)")


PR = "C05 C06 C08 C09 C10 C12 C15 C16 C17"


def register():
    for n in range(1, 7):
        for lab in range(n + 1):
            scenario("C08 C05", f"merging n={n} label={lab}", merging, n=n, label=lab, d="f", D="D", o="o")
            scenario("C08 C05", f"merging n={n} label={lab} periodic", merging, n=n, label=lab, d="f", D="D", o="o", periodic=True)
    for n in (1, 2, 3, 4):
        for lab in [None] + list(range(n + 1)):
            for per in (False, True):
                t = f"adaptive n={n} label={lab}{' periodic' if per else ''}"
                scenario(PR + " C18", t, initial, n=n, label=lab, periodic=per, d="f", D="D", o="o")
                for par in (False, True):
                    p = PR + (" C04" if par else "")
                    scenario(p, f"{t} change{' parallel' if par else ''}", change, n=n, label=lab, periodic=per, parallel=par, D=1 if n > 3 else 2)
    for n, lab in ((1, 0), (2, 1), (2, 0), (3, 1), (3, 2)):
        scenario(PR + " C18", f"adaptive n={n} label={lab} change with cutoff", change, n=n, label=lab, cutoff="cut", paths=64)
        scenario(PR, f"adaptive n={n} label={lab} two changes", change, n=n, label=lab, turns=2)
        scenario(PR, f"adaptive n={n} label={lab} three changes D=1", change, n=n, label=lab, turns=3, D=1)
        scenario(PR, f"adaptive n={n} label={lab} trained", trained, n=n, label=lab)
        scenario(PR + " C14", f"adaptive n={n} label={lab} moved", change, n=n, label=lab, moved=True, raises="C14")
        scenario(PR + " C14", f"adaptive n={n} label={lab} initial moved", initial, n=n, label=lab, moved=True, raises="C14")
        scenario(PR, f"adaptive n={n} label={lab} change large bond", change, n=n, label=lab, D="D", d="f", o="o")
    S = "C10 C09 C17 C18"
    for th, bs in ((1, (1, 1, 1)), (2, (1, 1, 1, 1, 1)), (3, (2, 2, 2, 2, 2)), (5, (7, 1, 2, 3, 1)), (4, (3, 1, 2, 2, 3)), (2, (5, 1, 1, 1, 1)), (6, (2, 2, 2, 2, 2, 2, 2)), (3, (3, 2, 1, 3))):
        scenario(S, f"schedule threshold={th} batches={bs}", schedule, threshold=th, batches=bs)
    scenario(S, "schedule default threshold", schedule, threshold=2000, batches=(1999, 1, 1), default=True)
    scenario(S, "schedule default threshold not reached", schedule, threshold=2000, batches=(1000, 999, 1), default=True)
    scenario(S + " C08", "schedule symbolic", symbolic_schedule)
    scenario(S + " C08", "schedule of two models", two_models)


register()
