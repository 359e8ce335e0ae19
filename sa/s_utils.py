"""SVD splitting, batch helpers, initialisers."""
from .cases import *
from .s_contract import raising

SV = slice(None)


# ------------------------------------------------------------------ svd_flex
def split_string(s):
    s = s.replace(" ", "")
    init, post = s.split("->")
    left, right = post.split(",")
    bond = (set(left) & set(right)).pop()
    return init, left, right, bond, left.replace(bond, ""), right.replace(bond, "")


def svd_ref(c, t, string):
    """(U, S, V, left sizes, right sizes) of the matrix the string asks for."""
    init, left, right, bond, lp, rp = split_string(string)
    v = es(f"{init}->{lp + rp}", t)
    ls, rs = v.shape[:len(lp)], v.shape[len(lp):]
    m = T.reshape(v, [T.dims_prod(ls), T.dims_prod(rs)])
    u, s, w = c.it.lib._svd(m)
    return u, s, w, ls, rs


def keep(v, t, axis):
    """v with entries >= t (an int) along `axis` (enumerated or size one) set to zero."""
    n = v.shape[axis]
    parts = []
    for k in range(n):
        x = T.getitem(v, (SV,) * axis + (k,))
        parts.append(x if k < t else x.map(lambda e: X.ZERO))
    return T.stack(parts, axis)


def resize(v, n, axis):
    m = v.shape[axis]
    parts = [T.getitem(v, (SV,) * axis + (k,)) for k in range(min(m, n))]
    zero = parts[0].map(lambda e: X.ZERO)
    return T.stack(parts + [zero] * (n - len(parts)), axis)


def svd(c, string, shape, max_D=None, cutoff="cut", sv_right=None, sv_vec=False, default=False):
    init, left, right, bond, lp, rp = split_string(string)
    sh = tuple(c.size(s) if isinstance(s, str) else s for s in shape)
    t = c.tensor("A", sh, c.fdt, c.dev, batch=None)
    u, s, w, ls, rs = svd_ref(c, t, string)
    r = s.shape[0]
    if not isinstance(r, int):
        raise TooHard("symbolic rank")
    kw = {}
    if cutoff == "cut":
        cv = X.T("cut")
        X.TINFO["cut"] = {"real": True, "pos": True}
        kw["cutoff"] = snum(cv)
    elif isinstance(cutoff, tuple):
        cv = T.getitem(s, (cutoff[1],)).scalar
        kw["cutoff"] = snum(cv)
    elif cutoff is not None:
        cv = X.E(Fraction(cutoff))
        kw["cutoff"] = Fraction(cutoff)
    else:
        cv = X.E(Fraction(1, 10 ** 10))
    if max_D is not None:
        kw["max_D"] = max_D
    if sv_right is not None:
        kw["sv_right"] = sv_right
    vec = None
    N = max_D or r
    if sv_vec:
        vec = c.tensor("svv", (N,), c.fdt, c.dev, batch=None, owner=False)
        kw["sv_vec"] = vec
    c.begin()
    svals = [T.getitem(s, (k,)).scalar for k in range(r)]
    below = lambda k: X.compare("lt", svals[k], cv)
    try:
        out = c.fn("utils", "svd_flex", t, string, **kw)
    except AbsRaise as ex:
        cs = c.conds()
        if cs is None:
            c.und("C11", "cutoff", "conditions not evaluable")
            return
        if ex.name == "RuntimeError" and "cutoff" in " ".join(map(str, ex.eargs)):
            f = satisfiable(cs + [(below(0), False)], c.it.lib)
            c.check("C11", "cutoff", not f, "raises although the largest singular value is at least the cutoff", ex.where)
            return
        raise
    if not (isinstance(out, tuple) and len(out) == 3):
        c.bad("C11", "result", f"svd_flex returns {c.it.tname(out)}")
        return
    L, R, k = val(out[0]), val(out[1]), out[2]
    if not isinstance(k, int):
        c.bad("C11", "bond dimension", f"returned dimension {k}")
        return
    top = min(r, N)
    cs = c.conds()
    if cs is None:
        c.und("C11", "cutoff", "conditions not evaluable")
        return
    if k < 1 or k > N:
        f = satisfiable(cs + ([(below(0), False)] if k < 1 else []), c.it.lib)
        c.check("C11", "cutoff", not f, f"returns the bond dimension {k}")
        return
    # the smallest kept value is at least the cutoff, the largest dropped one below it
    if k > r:
        f = satisfiable(cs + ([(X.compare("gt", cv, X.ZERO), True)]), c.it.lib)
        c.check("C11", "cutoff", not f, f"keeps {k} values of only {r}")
        return
    f = satisfiable(cs + [(below(k - 1), True)], c.it.lib)
    c.check("C11", "cutoff keeps", f is None and None or not f, f"keeps singular value number {k} although it is below the cutoff")
    if k < top:
        f = satisfiable(cs + [(below(k), False)], c.it.lib)
        c.check("C11", "cutoff drops", f is None and None or not f, f"drops singular value number {k + 1} although it is not below the cutoff")
    n = max_D or k
    sr = True if sv_right is None else sv_right
    U = resize(keep(resize(u, max(n, min(r, n)), 1), k, 1), n, 1)
    S = resize(keep(resize(s, n, 0), k, 0), n, 0)
    W = resize(keep(resize(w, n, 1), k, 1), n, 1)
    lt = es("ik,k->ik", U, S) if not sr else U
    rt = es("jk,k->kj", W, S) if sr else es("jk->kj", W)
    lt = T.reshape(lt, list(ls) + [n])
    rt = T.reshape(rt, [n] + list(rs))
    lt = es(f"{lp + bond}->{left}", lt)
    rt = es(f"{bond + rp}->{right}", rt)
    full = es(f"{left},{right}->{init}", lt, rt)
    okl = L.ndim == lt.ndim and all(T.dim_eq(a, b) for a, b in zip(L.shape, lt.shape))
    okr = R.ndim == rt.ndim and all(T.dim_eq(a, b) for a, b in zip(R.shape, rt.shape))
    c.check("C11", "left axes", okl, f"left tensor of shape {list(L.shape)}, {left} requires {list(lt.shape)}")
    c.check("C11", "right axes", okr, f"right tensor of shape {list(R.shape)}, {right} requires {list(rt.shape)}")
    if okl and okr:
        c.same("C11", "contraction", es(f"{left},{right}->{init}", L, R), full)
        # column signs are a free choice of the SVD
        c.same("C11", "left factor", L.map(X.cabs), lt.map(X.cabs))
        c.same("C11", "right factor", R.map(X.cabs), rt.map(X.cabs))
        for p in ("C18",):
            c.same(p, "options", es(f"{left},{right}->{init}", L, R), full)
    if vec is not None:
        c.same("C11", "singular values", vec, resize(s, N, 0))
    if c.moved:
        for x in (L, R):
            c.check("C14", "device and precision", x.dev == "M" and x.dt.prec == "P", f"factor is {T.name_dt(x.dt)} on {x.dev}")


def svd_bad(c, what):
    f = c.get("utils", "svd_flex")
    t = c.tensor("A", (2, 3), batch=None)
    run = lambda *a, **k: (lambda: c.run(f, *a, **k))
    if what == "strings":
        for s in ("ab->ac,b", "ab->ac,bd", "ab->acd,bcd", "ab->aC,Cb", "ab->abc,bc", "ab->ac", "abd->ac,cb", "aab->ac,cb"):
            raising(c, run(t, s), f"svd_string {s!r} for a matrix")
    elif what == "order":
        raising(c, run(t, "abd->ac,cbd"), "a string with three indices for a matrix")
        raising(c, run(c.tensor("A3", (2, 3, 2), batch=None), "ab->ac,cb"), "a string with two indices for three axes")
    elif what == "sv_vec":
        raising(c, run(t, "ab->ac,cb", sv_vec=c.tensor("sv", (3,), batch=None)), "sv_vec of a wrong length")
        raising(c, run(t, "ab->ac,cb", max_D=4, sv_vec=c.tensor("sv", (2,), batch=None)), "sv_vec shorter than max_D")


# -------------------------------------------------------------- batch helpers
def bshape(shapes):
    """Standard broadcasting; None if there is no common shape."""
    n = max(len(s) for s in shapes)
    out = [1] * n
    for s in shapes:
        for k, x in enumerate(s, n - len(s)):
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(out[k], int) and out[k] == 1:
                out[k] = x
            elif not T.dim_eq(out[k], x):
                return None
    return tuple(out)


def sz(c, s):
    return tuple(c.size(x) if isinstance(x, str) else x for x in s)


def shape_bc(c, shapes):
    ss = [sz(c, s) for s in shapes]
    want = bshape(ss)
    try:
        got = c.fn("utils2", "shape_broadcast", LObj(ss))
    except AbsRaise as ex:
        if want is None:
            c.check("C21", "incompatible shapes", ex.name == "ValueError", f"raises {ex.name} instead of ValueError for {shapes}", ex.where)
            c.ok("C19", "incompatible shapes")
            return
        raise
    if want is None:
        c.bad("C21", "incompatible shapes", f"shapes {shapes} broadcast to {got}")
        return
    g = tuple(got)
    c.check("C21", "common shape", len(g) == len(want) and all(T.dim_eq(a, b) for a, b in zip(g, want)), f"{shapes} broadcast to {g} instead of {want}")


def batch_bc(c, shapes, nnb, tup=False, again=False):
    ts = [c.tensor(f"t{k}", sz(c, s), c.fdt, c.dev, batch=None) for k, s in enumerate(shapes)]
    bs = [sz(c, s)[:len(s) - n] for s, n in zip(shapes, nnb)]
    want = bshape(bs)
    arg = tuple(ts) if tup else c.lst(ts, "tens_list")
    try:
        out = c.fn("utils2", "batch_broadcast", arg, tuple(nnb) if tup else LObj(nnb))
    except AbsRaise as ex:
        if want is None:
            c.check("C21", "incompatible batches", ex.name == "ValueError", f"raises {ex.name} instead of ValueError", ex.where)
            return
        raise
    if want is None and len(ts) > 1:
        c.bad("C21", "incompatible batches", f"batch shapes {bs} are broadcast")
        return
    out = list(c.it.iterate(out))
    if len(out) != len(ts):
        c.bad("C21", "count", f"{len(out)} tensors returned for {len(ts)}")
        return
    for k, (g, t) in enumerate(zip(out, ts)):
        v = val(t)
        w = T.expand(v if len(ts) < 2 or v.ndim - nnb[k] == len(want) else T.getitem(v, (None,) * (len(want) - v.ndim + nnb[k])),
                     v.shape if len(ts) < 2 else tuple(want) + tuple(v.shape[v.ndim - nnb[k]:]))
        c.same("C21", f"tensor {k}", g, w)
        if c.moved and isinstance(g, TensorObj):
            c.check("C14", "device", g.get().dev == "M" and g.get().dt.prec == "P", "broadcasting moves or casts a tensor")


def batch_to(c, shape, batch, nnb):
    t = c.tensor("t", sz(c, shape), c.fdt, c.dev, batch=None)
    v = val(t)
    bsh = sz(c, batch)
    want = bshape([v.shape[:v.ndim - nnb], bsh])
    try:
        out = c.fn("utils2", "batch_to", t, tuple(bsh), nnb)
    except AbsRaise as ex:
        if want is None:
            c.check("C21", "incompatible batches", ex.name == "ValueError", f"raises {ex.name} instead of ValueError", ex.where)
            return
        raise
    if want is None:
        c.bad("C21", "incompatible batches", "incompatible batch shapes are broadcast")
        return
    w = T.expand(T.getitem(v, (None,) * (len(want) - v.ndim + nnb)), tuple(want) + tuple(v.shape[v.ndim - nnb:]))
    c.same("C21", "batch_to", out, w)


def bundle(c, shapes, dim, tup=False):
    ts = [c.tensor(f"t{k}", sz(c, s), c.fdt, c.dev, batch=None) for k, s in enumerate(shapes)]
    arg = tuple(ts) if tup else c.lst(ts, "tensors")
    args = [arg] + ([] if dim is None else [dim])
    out = c.fn("utils2", "bundle_tensors", *args)
    d = 0 if dim is None else dim
    same = len(ts) > 0 and all(len(s) == len(shapes[0]) and all(T.dim_eq(a, b) for a, b in zip(sz(c, s), sz(c, shapes[0]))) for s in shapes)
    if same:
        n = len(shapes[0]) + 1
        c.same("C21", "stack", out, T.stack([val(t) for t in ts], d % n))
    else:
        items = None if isinstance(out, TensorObj) else list(c.it.iterate(out))
        ok = items is not None and len(items) == len(ts) and all(isinstance(a, TensorObj) and a.root is b.root for a, b in zip(items, ts))
        c.check("C21", "unchanged", ok, "tensors of different shapes are not returned unchanged")


def bundle_single(c):
    t = c.tensor("t", (c.size("a"), c.size("b")), batch=None)
    out = c.fn("utils2", "bundle_tensors", t)
    c.same("C21", "tensor unchanged", out, t)


def batch_bad(c, what):
    f = c.get("utils2", "batch_broadcast")
    a, b = c.tensor("a", (c.size("x"), 2), batch=None), c.tensor("b", (c.size("y"), 2), batch=None)
    if what == "tensor":
        raising(c, lambda: c.run(f, a, LObj([1, 1])), "a single tensor")
    elif what == "length":
        raising(c, lambda: c.run(f, LObj([a, b]), LObj([1])), "fewer axis counts than tensors")
    elif what == "negative":
        raising(c, lambda: c.run(f, LObj([a, b]), LObj([1, -1])), "a negative number of axes")
    elif what == "too many":
        raising(c, lambda: c.run(f, LObj([a, b]), LObj([1, 3])), "more non-batch axes than axes")


# --------------------------------------------------------------- initialisers
def init(c, shape, bond, method, centre, std):
    sh = tuple(c.size(s) if isinstance(s, str) else s for s in shape)
    c.begin()
    c.report_events = False
    m = method if isinstance(method, str) else tuple(Fraction(x) if isinstance(x, str) and x[0].isdigit() else x for x in method)
    out = c.fn("utils", "init_tensor", LObj(sh), bond, m)
    centred(c, "C23", out, sh, bond, centre, std)
    centred(c, "C18", out, sh, bond, centre, std)


def centred(c, prop, out, sh, bond, centre, std, cplx=False):
    """out = centre + std * Z with Z standard normal of the whole shape."""
    v = val(out)
    if v.ndim != len(sh) or not all(T.dim_eq(a, b) for a, b in zip(v.shape, sh)):
        c.bad(prop, "shape", f"the tensor has shape {list(v.shape)} instead of {list(sh)}")
        return
    names = set()
    for e in v.cells.values():
        names |= {n for n, *_ in X.base_tensors(e) if X.TINFO.get(n, {}).get("rand")}
    if std == 0:
        names = set()
    else:
        c.check(prop, "fresh noise", len(names) >= 1, "no noise is added")
        if not names:
            return
    ns = sorted(names)
    # value without noise
    c0 = v.map(lambda e: strip(e, names))
    want = centre_tensor(c, sh, bond, centre)
    c.same(prop, "centre", c0, want)
    if std:
        rest = ew(lambda a, b: a - b, v, c0)
        if len(ns) != 1:
            c.und(prop, "noise", f"noise built of {len(ns)} random tensors")
            return
        kind = X.TINFO[ns[0]]["rand"]
        z = T.base_tensor(ns[0], v.shape, v.dt, v.dev, **X.TINFO[ns[0]])
        if kind != "randn":
            c.bad(prop, "noise", f"the noise is drawn by {kind} instead of a normal distribution")
            return
        c.same(prop, "noise", rest, z.map(lambda e: X.mul(e, X.E(Fraction(std)) if not isinstance(std, X.Expr) else std)))


def strip(e, names):
    """e with every factor of the named tensors set to zero."""
    d = {}
    res = X.ZERO
    for mono, k in e.d.items():
        term = X.Expr({mono: k})
        if {n for n, *_ in X.base_tensors(term)} & names:
            continue
        res = res + term
    return res


def centre_tensor(c, sh, bond, centre):
    if centre == "zero":
        return T.const_tensor(sh, 0)
    li, ri = bond.index("l"), bond.index("r")
    e = T.eye(sh[li], sh[ri], FD, "C")
    if centre[0] == "eye":
        k = None
    else:
        k = centre[1]
        dl, dr = sh[li], sh[ri]
        if not (isinstance(dl, int) and isinstance(dr, int)):
            # the identity truncated to the first k entries
            raise TooHard("truncated identity of symbolic size")
        if k <= dl and k <= dr:
            pass
        else:
            k = min(dl, dr)
        cells = {}
        e = TVal((T.axis_for(dl), T.axis_for(dr)), {p: X.ZERO for p in T.positions(T.enums((T.axis_for(dl), T.axis_for(dr))))})
        for p in list(e.cells):
            full = list(p)
            a = full.pop(0) if dl != 1 else 0
            b = full.pop(0) if dr != 1 else 0
            e.cells[p] = X.ONE if a == b and a < k else X.ZERO
    # place on the bond axes, constant elsewhere
    m = e
    if li > ri:
        m = T.permute(m, [1, 0])
    idx = tuple(SV if k in (li, ri) else None for k in range(len(sh)))
    return T.expand(T.getitem(m, idx), sh)


def near_eye(c, shape, cplx=False, noise=None, normal=False, device=False):
    sh = tuple(c.size(s) if isinstance(s, str) else s for s in shape)
    c.begin()
    c.report_events = False
    kw = {}
    if cplx:
        kw["is_complex"] = True
    if noise is not None:
        kw["rel_std" if normal else "noise"] = Fraction(noise)
    f = "normal_init" if normal else "near_eye_init"
    out = c.fn("mps_base", f, tuple(sh), **kw)
    bond = "s" * 0 + "".join(chr(ord("a") + k) for k in range(len(sh) - 2)) + "lr"
    v = val(out)
    for prop in ("C23", "C18"):
        if v.ndim != len(sh) or not all(T.dim_eq(a, b) for a, b in zip(v.shape, sh)):
            c.bad(prop, "shape", f"shape {list(v.shape)} instead of {list(sh)}")
            continue
        c.check(prop, "complex", (v.dt.kind == "c") == cplx, f"is_complex={cplx} gives {T.name_dt(v.dt)}")
        names = set()
        for e in v.cells.values():
            names |= {n for n, *_ in X.base_tensors(e) if X.TINFO.get(n, {}).get("rand")}
        zs = sorted(n for n in names if X.TINFO[n]["rand"] == "randn")
        us = sorted(n for n in names if X.TINFO[n]["rand"] != "randn")
        if len(zs) != 1 or not (cplx or not us):
            c.und(prop, "noise", f"random tensors {sorted((n, X.TINFO[n]['rand']) for n in names)}")
            continue
        num = lambda x: X.E(x if isinstance(x, int) else P(x))
        if normal:
            std = X.mul(X.E(Fraction(noise or 1)), X.inv(num(sh[-1])))
            ctr = "zero"
        else:
            std = X.mul(X.E(Fraction(noise or "1/1000")), X.powr(X.mul(num(sh[-2]), num(sh[-1])), Fraction(-1, 2)))
            ctr = ("eye",)
        z = T.base_tensor(zs[0], v.shape, FD, v.dev, **X.TINFO[zs[0]])
        nz = z.map(lambda e: X.mul(e, std))
        if cplx and len(us) != 1:      # another way to draw phases: the size of the noise is what is documented
            size = lambda t: t.map(lambda e: X.cabs(e))
            c.same(prop, "size of the noise", size(ew(lambda a, b: a - b, v, centre_tensor(c, sh, bond, ctr))), size(nz))
            continue
        if cplx:
            w = T.base_tensor(us[0], v.shape, FD, v.dev, **X.TINFO[us[0]])
            ph = w.map(lambda e: X.exp(X.mul(X.mul(X.E(2), X.number("I")), X.mul(X.number("pi"), e))), dt=v.dt)
            nz = ew(lambda a, b: X.mul(a, b), nz, ph)
        want = ew(lambda a, b: a + b, centre_tensor(c, sh, bond, ctr), nz)
        c.same(prop, "centre and noise", v, want)


def init_bad(c, what):
    c.allow = {"rng"}
    f = c.get("utils", "init_tensor")
    if what == "method":
        raising(c, lambda: c.run(f, LObj([2, 3, 3]), "olr", "random_one"), "an unknown initialisation method")
    elif what == "lengths":
        raising(c, lambda: c.run(f, LObj([2, 3, 3]), "lr", "random_eye"), "a bond string shorter than the shape")
    elif what == "repeated":
        raising(c, lambda: c.run(f, LObj([2, 3, 3]), "llr", "random_eye"), "a bond string with a repeated index")
    elif what == "no bonds":
        raising(c, lambda: c.run(f, LObj([2, 3, 3]), "oab", "random_eye"), "an identity without bond axes")


def register():
    Q = "C11 C16 C17 C18"
    strings = [("ab->ac,cb", (2, 3)), ("ab->ac,cb", (3, 2)), ("ab->ac,cb", (2, 2)), ("ab->ca,bc", (2, 3)), ("ab->bc,ca", (2, 3)),
               ("ab -> ac, cb", (2, 2)), ("abd->ac,cbd", (2, 2, 2)), ("abd->adc,bc", (2, 2, 2)), ("abd->cbd,ac", (1, 2, 2)),
               ("lrij->lui,urj", (2, 2, 2, 1)), ("lrij->lui,urj", (2, 3, 1, 2)), ("olri->olu,uri", (1, 2, 2, 2)), ("olri->our,lui", (2, 2, 1, 2)),
               ("abd->dac,bc", ("n", 2, 1)), ("ab->ac,cb", (1, "n")), ("ab->ac,cb", (2, 1)), ("ab->ac,cb", (1, 1))]
    for s, sh in strings:
        for mD in (None, 1, 2, 4):
            scenario(Q, f"svd_flex {s} {sh} max_D={mD}", svd, string=s, shape=sh, max_D=mD)
    for s, sh in strings[:8]:
        for mD in (None, 2, 3):
            scenario(Q, f"svd_flex {s} {sh} max_D={mD} sv_left", svd, string=s, shape=sh, max_D=mD, sv_right=False)
            scenario(Q, f"svd_flex {s} {sh} max_D={mD} sv_vec", svd, string=s, shape=sh, max_D=mD, sv_vec=True)
    for k in (0, 1):
        for mD in (None, 2, 3):
            scenario(Q, f"svd_flex cutoff equal to value {k} max_D={mD}", svd, string="ab->ac,cb", shape=(2, 3), max_D=mD, cutoff=("sv", k))
    for cut in (None, "1/10", 0):
        scenario(Q, f"svd_flex cutoff {cut}", svd, string="ab->ac,cb", shape=(2, 3), cutoff=cut)
        scenario(Q, f"svd_flex cutoff {cut} max_D=3", svd, string="ab->ac,cb", shape=(2, 3), cutoff=cut, max_D=3)
    for mD in (None, 1, 3):
        scenario(Q + " C14", f"svd_flex moved max_D={mD}", svd, string="abd->adc,bc", shape=(2, 2, 1), max_D=mD, sv_vec=True, moved=True, raises="C14")
    for w in ("strings", "order", "sv_vec"):
        scenario("C19", f"malformed svd_flex: {w}", svd_bad, what=w)
    B = "C21 C16 C17"
    shs = [[()], [(3,)], [(3,), (3,)], [(3,), (1,)], [(1,), (3,)], [(), (3,)], [(3,), ()], [(2, 3), (3,)], [(3,), (2, 3)], [(2, 1), (3,)], [(3,), (2, 1)],
           [(2, 3), (2,)], [(2,), (3,)], [(1, 3), (2, 1)], [(1, 3), (2, 1), (2, 3)], [(1,), (1,), (4,)], [(2, 1, 3), (5, 1), (1,)], [(4,), (1,), (3,)],
           [("a",), ("a",)], [("a",), (1,)], [(1,), ("a",)], [("a", 1), ("b",)], [("a", "b"), ("b",)], [("a", "b"), (1, "b"), ("a", 1)], [(1, 1), (1,)],
           [(2, 3), (1, 1, 1)], [(2,), (1, 2), (1, 1, 2)], [(1, 2), (3, 1), (2,)], [(1, 1), (2, 3), (3,)], [(2, 1), (2, 3), (2, 2)]]
    for s in shs:
        scenario("C21 C16 C17", f"shape_broadcast {s}", shape_bc, shapes=s)
    cases = [([(3, 2)], (1,)), ([("a", 2), ("a", 4)], (1, 1)), ([("a", "d"), ("d",)], (1, 1)), ([("d",), ("a", "d")], (1, 1)), ([("a", "d", "e"), ("f",)], (2, 1)),
             ([("f",), ("a", "d", "e")], (1, 2)), ([("a", 1, "d"), ("b", "e")], (1, 1)), ([(1, "d"), ("a", "d")], (1, 1)), ([("a", "d"), (1, "d"), ("e", "f")], (1, 1, 2)),
             ([("d",), ("e",)], (1, 1)), ([("a",), ("d",)], (0, 1)), ([("a", "b"), ("b", "d"), ("d", "e")], (0, 1, 2)), ([(2, "d"), (3, "d")], (1, 1)),
             ([(2, 3), (3, 2)], (0, 1)), ([("a", 3, "d"), (3, "e", "f"), ("a", 1, "g")], (1, 2, 1)), ([(), ("a", "d")], (0, 1)), ([(1, 1, "d"), ("a", "e")], (1, 1)),
             ([("a", 2, 2), ("a", 2, 2), ("a", 2, 2)], (2, 2, 2)), ([(2, 3, 4), (2, 1, 4), (3, 4)], (1, 1, 1)), ([(2, "d"), ("d",), (4, 1, "e")], (1, 1, 1))]
    for s, n in cases:
        for tup in (False, True):
            scenario(B, f"batch_broadcast {s} {n}{' tuple' if tup else ''}", batch_bc, shapes=s, nnb=n, tup=tup)
        scenario(B + " C14", f"batch_broadcast {s} {n} moved", batch_bc, shapes=s, nnb=n, moved=True, raises="C14")
    for s, b, n in (((3, "d"), (3,), 1), (("d",), ("a",), 1), (("d",), ("a", "b"), 1), (("d", "e"), ("a",), 2), (("d",), (), 1), ((1, "d"), ("a",), 1), ((2, "d"), (3,), 1),
                    (("a", "d"), ("b", "a"), 1), ((), ("a",), 0), (("a",), ("b", 1), 0), (("a", 1, "d"), ("b",), 1)):
        scenario("C21 C16 C17", f"batch_to {s} {b} {n}", batch_to, shape=s, batch=b, nnb=n)
    for s in ([("a", "b")], [("a", "b"), ("a", "b")], [("a",), ("a",), ("a",)], [("a", "b"), ("b", "a")], [("a",), (1,)], [("a",), ("a", "b")], [(2, 3), (3, 2)],
              [(2, 2), (2, 2)], [(), ()], [(1, "a"), ("a",)], [], [("a",), ("a",), ("b",)], [("a", "b", "d"), (1, "b", "d")], [("d", "b", "a"), ("d", "b", 1)],
              [("a", 3, "d"), ("a", 2, "d")], [("a", "b", "d"), ("b", "d")], [("a", "b", "d"), ("b", "a", "d")], [("a", "a"), ("a", "a"), ("a", "b")],
              [("a", "b", 3, "d"), ("b", "a", 3, "d")]):
        for dim in (None, 0, 1, -1, -2) if s and len(s[0]) else (None,):
            scenario("C21 C16 C17", f"bundle_tensors {s} dim={dim}", bundle, shapes=s, dim=dim)
        scenario("C21 C16 C17", f"bundle_tensors {s} tuple", bundle, shapes=s, dim=None, tup=True)
    scenario("C21 C16", "bundle_tensors of a tensor", bundle_single)
    for w in ("tensor", "length", "negative", "too many"):
        scenario("C19 C21", f"malformed batch_broadcast: {w}", batch_bad, what=w)
    R = "C23 C18"
    for sh, b in (((2, 3, 3), "olr"), (("o", "D", "D"), "olr"), (("n", "D", "D", "f"), "slri"), ((2, 3, 3, 2), "slri"), (("D", "D", "f"), "lri"), ((3, 3), "lr"), (("D", "D"), "lr"),
                  ((2, 3), "lr"), ((3, 2, 2), "rol"), ((2, 3, 2), "lor"), (("D", "E"), "lr"), ((1, 3), "lr"), ((2, "o", 3), "rol"), ((3, 2, 3, 1), "lirs"), ((3, 2), "rl")):
        t = f"init_tensor {sh} {b}"
        scenario(R, t + " random_eye", init, shape=sh, bond=b, method="random_eye", centre=("eye",), std="1/1000000000")
        scenario(R, t + " random_eye std", init, shape=sh, bond=b, method=("random_eye", "1/4"), centre=("eye",), std="1/4")
        scenario(R, t + " random_zero", init, shape=sh, bond=b, method="random_zero", centre="zero", std="1/1000000000")
        scenario(R, t + " random_zero std", init, shape=sh, bond=b, method=("random_zero", "1/4"), centre="zero", std="1/4")
        scenario(R, t + " random_zero without noise", init, shape=sh, bond=b, method=("random_zero", "0"), centre="zero", std=0)
        if all(isinstance(sh[b.index(x)], int) for x in "lr"):
            for k in (1, 2, 3, 4):
                scenario(R, t + f" min_random_eye {k}", init, shape=sh, bond=b, method=("min_random_eye", "1/4", k), centre=("min", k), std="1/4")
    for sh in (("d", "D", "D"), ("n", "d", "D", "D"), (2, 3, 3), (2, 3, 2), (1, 2, 3, 2), (2, 2, 3, 3), (1, 3, 3), (2, 1, 1)):
        for cplx in (False, True):
            t = f"{sh}{' complex' if cplx else ''}"
            scenario(R, "near_eye_init " + t, near_eye, shape=sh, cplx=cplx)
            scenario(R, "near_eye_init " + t + " noise", near_eye, shape=sh, cplx=cplx, noise="1/7")
            scenario(R, "normal_init " + t, near_eye, shape=sh, cplx=cplx, normal=True)
            scenario(R, "normal_init " + t + " std", near_eye, shape=sh, cplx=cplx, normal=True, noise="1/7")
    for w in ("method", "lengths", "repeated", "no bonds"):
        scenario("C19 C23", f"malformed init_tensor: {w}", init_bad, what=w)


register()
