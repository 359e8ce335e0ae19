"""Contractables: products, reflected products, reductions of lists."""
import ast
from .cases import *
from .s_prob import moved_result

SV = slice(None)

# kind -> (class, labels)
KINDS = {"vecL": ("EdgeVec", "br"), "vecR": ("EdgeVec", "bl"), "mat": ("SingleMat", "blr"), "core": ("OutputCore", "bolr"),
         "region": ("MatRegion", "bslr"), "outR": ("OutputMat", "blo"), "outL": ("OutputMat", "bro"), "scalar": ("Scalar", "b"),
         "gen": ("Contractable", "bqlr"), "gen0": ("Contractable", "bxyl"), "geno": ("Contractable", "bor")}


class Op:
    """An operand: repository object, reference tensor, labels (region: list of matrices)."""

    def __init__(self, obj, v, lab, mats=None):
        self.obj, self.v, self.lab, self.mats = obj, v, lab, mats


def operand(c, kind, name, B, l=None, r=None, n=2, batched=True, osize=None):
    cls, lab = KINDS[kind]
    dims = {"b": B, "l": l or c.size("D"), "r": r or c.size("D"), "s": n}
    shape = []
    for x in lab:
        if x not in dims:
            dims[x] = osize or c.size(f"{x}{name}")
        if x != "b" or batched:
            shape.append(dims[x])
    t = c.tensor(name, tuple(shape), c.fdt, c.dev, batch=0 if batched else None)
    args = [t]
    if cls == "EdgeVec":
        args.append(kind == "vecL")
    elif cls == "OutputMat":
        args.append(kind == "outL")
    elif cls == "Contractable":
        args.append(lab if batched or kind == "gen" else lab[1:])
    obj = c.run(c.get("contractables", cls), *args)
    v = val(t)
    if not batched:
        one = T.expand(T.getitem(v, (None,)), (B,) + tuple(shape))
        v = one
    mats = [pick(v, SV, k) for k in range(n)] if kind == "region" else None
    return Op(obj, v, lab, mats)


def prod_ref(x, y):
    """Reference product: (tensor, labels) with every non-special axis made unique."""
    if "s" in x.lab and x.mats:
        cur, lab = y.v, y.lab
        for m in x.mats[::-1]:
            rest = lab.replace("b", "").replace("l", "")
            cur = es(f"blz,bz{rest}->bl{rest}", m, es(f"{lab}->bl{rest}", cur))
            lab = "bl" + rest
        return cur, lab
    if "s" in y.lab and y.mats:
        cur, lab = x.v, x.lab
        for m in y.mats:
            rest = lab.replace("b", "").replace("r", "")
            cur = es(f"b{rest}z,bzr->b{rest}r", es(f"{lab}->b{rest}r", cur), m)
            lab = f"b{rest}r"
        return cur, lab
    if x.lab == "b" or y.lab == "b":
        s, o = (x, y) if x.lab == "b" else (y, x)
        return es(f"b,{o.lab}->{o.lab}", s.v, o.v), o.lab
    a, b = x.lab, y.lab
    for ch in b[1:]:
        if ch in a and ch not in "lr":
            b = b.replace(ch, {"o": "O", "q": "Q", "x": "X", "y": "Y"}[ch])
    a2, b2 = a.replace("r", "z"), b.replace("l", "z")
    out = "b" + "".join(ch for ch in a2 + b2 if ch not in "bzlr") + ("l" if "l" in a2 else "") + ("r" if "r" in b2 else "")
    al = {ch: chr(ord("e") + k) if ch.isupper() else ch for k, ch in enumerate("OQXY")}
    tr = lambda s: "".join(al.get(ch, ch) for ch in s)
    return es(f"{tr(a2)},{tr(b2)}->{tr(out)}", x.v, y.v), out


def result(c, prop, name, got, want, lab):
    """Compare a contractable with the reference, axis by axis label."""
    if not isinstance(got, Instance):
        c.bad(prop, name, f"the product is {c.it.tname(got)}, not a contractable")
        return
    bs = c.attr(got, "bond_str")
    t = c.attr(got, "tensor")
    own = [ch for ch in lab if not ch.isupper()]
    extra = [ch for ch in lab if ch.isupper()]
    if not isinstance(bs, str) or len(bs) != len(lab) or len(set(bs)) != len(bs) or any(ch not in bs for ch in own):
        c.bad(prop, name + " labels", f"the result has bonds {bs!r} instead of {lab!r}")
        return
    if val(t).ndim != len(bs):
        c.bad(prop, name + " labels", f"bond string {bs!r} for a tensor of {val(t).ndim} axes")
        return
    rest = [ch for ch in bs if ch not in own]
    if not extra:
        w = es(f"{lab}->{bs}", want)
    else:
        ren = dict(zip(extra, rest))
        w = es("{}->{}".format("".join(ren.get(ch, ch) for ch in lab), bs), want)
    for p in ("C07", "C12") if prop == "C07" else (prop,):
        c.same(p, name, t, w)
    c.same("C15", name + " gradient", t, w, grad=True)
    if c.moved:
        moved_result(c, t)


def product(c, a, b, na=2, nb=2, ba=True, bb=True, B=None, osame=False, first="x"):
    B = c.size("B") if B is None else B
    if not (ba and bb):
        c.run(c.get("contractables", "Scalar"), c.tensor("s0", (B,), c.fdt, c.dev))
    o = c.size("oo") if osame else None
    D = [c.size("D0"), c.size("D1"), c.size("D2")]
    if a == "region":
        D[0] = D[1]
    if b == "region":
        D[2] = D[1]
    x = operand(c, a, "x", B, D[0], D[1], na, ba, o)
    y = operand(c, b, "y", B, D[1], D[2], nb, bb, o)
    c.begin()
    got = c.it.binop(ast.Mult(), x.obj, y.obj)
    if {a, b} == {"scalar", "region"}:
        # the region stands for the product of its matrices
        t = val(c.attr(got, "tensor"))
        n = na if a == "region" else nb
        want, lab = whole([Op(None, (x if a == "region" else y).v, "blr", [pick((x if a == "region" else y).v, SV, k) for k in range(n)])])
        want = es("b,blr->blr", (x if a == "scalar" else y).v, want)
        gv, _ = whole([Op(None, t, "bslr", [pick(t, SV, k) for k in range(t.shape[1])])])
        c.same("C07", "scaled region", gv, want)
        return
    want, lab = prod_ref(x, y)
    result(c, "C07", "product", got, want, lab)


def bad_product(c, a, b, ones=False):
    B = c.size("B")
    E, F = c.size("E"), 1 if ones else c.size("F")
    x = operand(c, a, "x", B, E if a == "region" else c.size("Da"), E, 2)
    y = operand(c, b, "y", B, F, F if b == "region" else c.size("Db"), 2)
    c.begin()
    try:
        got = c.it.binop(ast.Mult(), x.obj, y.obj)
    except AbsRaise as ex:
        c.ok("C19", "rejected")
        return
    c.bad("C19", "rejected", f"{a} * {b} without a common bond is evaluated instead of rejected")


def scalar_product(c, other, shape, side):
    """A scalar given without a batch axis (or with one of size one), once a batch size has been set."""
    B, D = c.size("B"), c.size("D")
    y = operand(c, other, "y", B, D, D)
    t = c.tensor("s", shape, c.fdt, c.dev, batch=None)
    c.begin()
    s = c.run(c.get("contractables", "Scalar"), t)
    got = c.it.binop(ast.Mult(), *((s, y.obj) if side == "left" else (y.obj, s)))
    v = val(t) if shape == () else pick(val(t), 0)
    if other == "region":
        gv, _ = whole([Op(None, val(c.attr(got, "tensor")), "bslr", [pick(val(c.attr(got, "tensor")), SV, k) for k in range(2)])])
        c.same("C07", "scaled region", gv, es(",blr->blr", v, whole([y])[0]))
        return
    result(c, "C07", "product", got, es(f",{y.lab}->{y.lab}", v, y.v), y.lab)


def build(c, spec, B):
    ops = []
    bonds = []
    D = c.size("D")
    for k, item in enumerate(spec):
        kind, _, n = item.partition(":")
        ops.append(operand(c, kind, f"t{k}", B, D, D, int(n or 2)))
    return ops


def whole(ops):
    """Ordered product of a chain of operands (left to right)."""
    cur = None
    for o in ops:
        if cur is None:
            if o.mats:
                v, lab = o.mats[0], "blr"
                cur = Op(None, v, lab)
                for m in o.mats[1:]:
                    v, lab = prod_ref(cur, Op(None, m, "blr"))
                    cur = Op(None, v, lab)
            else:
                cur = o
        elif o.mats:
            for m in o.mats:
                v, lab = prod_ref(cur, Op(None, m, "blr"))
                cur = Op(None, v, lab)
        else:
            v, lab = prod_ref(cur, o)
            cur = Op(None, v, lab)
    return cur.v, cur.lab


def reduce_list(c, spec, par=False, B=None, twice=False):
    B = c.size("B") if B is None else B
    ops = build(c, spec, B)
    c.begin()
    lst = c.lst([o.obj for o in ops], "contractable_list")
    cl = c.run(c.get("contractables", "ContractableList"), lst)
    got = c.meth(cl, "reduce", parallel_eval=par)
    want, lab = whole(ops)
    result(c, "C07", "reduce", got, want, lab)
    if par:
        result(c, "C04", "parallel reduce", got, want, lab)
    if twice:
        got = c.meth(cl, "reduce", parallel_eval=not par)
        result(c, "C17", "second reduce", got, want, lab)
        other = build2(c, spec, "u", c.size("B2"))
        cl = c.run(c.get("contractables", "ContractableList"), c.lst([o.obj for o in other], "contractable_list"))
        got = c.meth(cl, "reduce", parallel_eval=par)
        want, lab = whole(other)
        result(c, "C17", "another batch size", got, want, lab)


def build2(c, spec, pre, B):
    ops = []
    D = c.size("D")
    for k, item in enumerate(spec):
        kind, _, n = item.partition(":")
        ops.append(operand(c, kind, f"{pre}{k}", B, D, D, int(n or 2)))
    return ops


def list_product(c, spec, other, side):
    B = c.size("B")
    ops = build(c, spec, B)
    y = operand(c, other, "y", B, c.size("D"), c.size("D"))
    c.begin()
    cl = c.run(c.get("contractables", "ContractableList"), c.lst([o.obj for o in ops], "contractable_list"))
    if side == "left":
        got = c.it.binop(ast.Mult(), y.obj, cl)
        want, lab = whole([y] + ops)
    else:
        got = c.it.binop(ast.Mult(), cl, y.obj)
        want, lab = whole(ops + [y])
    result(c, "C07", "list product", got, want, lab)


def region_reduce(c, n, B=None, batched=True):
    B = c.size("B") if B is None else B
    if not batched:
        c.run(c.get("contractables", "Scalar"), c.tensor("s0", (B,), c.fdt, c.dev))
    x = operand(c, "region", "x", B, c.size("D"), c.size("D"), n, batched)
    c.begin()
    got = c.meth(x.obj, "reduce")
    want, lab = whole([x])
    result(c, "C07", "region reduce", got, want, lab)
    result(c, "C02", "ordered product", got, want, lab)


def plain_reduce(c, kind):
    x = operand(c, kind, "x", c.size("B"))
    got = c.meth(x.obj, "reduce")
    result(c, "C07", "reduce of a single contractable", got, x.v, x.lab)


def raising(c, f, msg, prop="C19"):
    try:
        r = f()
    except AbsRaise as ex:
        c.ok(prop, "rejected")
        return
    c.bad(prop, "rejected", f"{msg} is accepted (result {c.it.tname(r)})")


def malformed(c, what):
    g = lambda n: c.get("contractables", n)
    B, D, E = c.size("B"), c.size("D"), c.size("E")
    if what == "empty list":
        raising(c, lambda: c.run(g("ContractableList"), LObj([])), "an empty ContractableList")
    elif what == "tuple list":
        raising(c, lambda: c.run(g("ContractableList"), LObj([c.tensor("a", (B, D))])), "a ContractableList of tensors")
    elif what == "region not square":
        raising(c, lambda: c.run(g("MatRegion"), c.tensor("a", (B, 2, D, E))), "a MatRegion of non-square matrices")
    elif what == "region order":
        raising(c, lambda: c.run(g("MatRegion"), c.tensor("a", (D, D))), "a MatRegion of order 2")
    elif what in ("OutputCore", "SingleMat", "EdgeVec", "OutputMat"):
        n = {"OutputCore": (2, 5), "SingleMat": (1, 4), "EdgeVec": (3,), "OutputMat": (1, 4)}[what]
        for k in n:
            args = [c.tensor("a", tuple([B] + [D] * (k - 1)))] + ([True] if what in ("EdgeVec", "OutputMat") else [])
            raising(c, lambda: c.run(g(what), *args), f"{what} of order {k}")
    elif what == "Scalar":
        for sh in ((B, D), (B, 1), (1, B), (1, 1), (B, D, E)):
            raising(c, lambda: c.run(g("Scalar"), c.tensor(f"a{len(sh)}", sh)), f"a Scalar of order {len(sh)}")
    elif what == "bond string":
        for bs, sh in (("blr", (B, D)), ("blr", (B, D, D, D)), ("lbr", (B, D, D)), ("lr", (B, D, D))):
            if bs == "blr" and len(sh) == 2:
                # legal only once a batch size is known
                raising(c, lambda: c.run(g("Contractable"), c.tensor("a", sh), bs), f"bond string {bs!r} for {len(sh)} axes before any batch size")
            else:
                raising(c, lambda: c.run(g("Contractable"), c.tensor("a", sh), bs), f"bond string {bs!r} for {len(sh)} axes")


def register():
    P = "C07 C12 C15 C16 C17"
    left = ["vecL", "mat", "core", "gen", "outL", "geno"]
    right = ["vecR", "mat", "core", "gen", "outR", "gen0"]
    for a in left:
        for b in right:
            if (a, b) == ("outL", "outR"):
                continue        # OutputMats only multiply edge vectors among themselves
            scenario(P, f"product {a} * {b}", product, a=a, b=b, osame="o" in KINDS[a][1] and "o" in KINDS[b][1])
    for b in ("vecL", "vecR", "mat", "core", "gen", "outR", "outL", "region"):
        scenario(P, f"product scalar * {b}", product, a="scalar", b=b)
        scenario(P, f"product {b} * scalar", product, a=b, b="scalar")
    for b in ("vecL", "vecR", "mat", "core", "gen", "outR", "region"):
        for sh in ((), (1,)):
            for side in ("left", "right"):
                scenario(P, f"product scalar{list(sh)} {side} {b}", scalar_product, other=b, shape=sh, side=side)
    for n in (1, 2, 3, 4, 5):
        scenario(P, f"product vecL * region n={n}", product, a="vecL", b="region", nb=n)
        scenario(P, f"product region * vecR n={n}", product, a="region", b="vecR", na=n)
    for a, b in (("vecL", "mat"), ("mat", "mat"), ("mat", "core"), ("core", "vecR"), ("vecL", "region"), ("region", "vecR"), ("vecL", "outR"),
                 ("core", "core"), ("vecL", "vecR"), ("mat", "outR")):
        scenario(P, f"product {a} * {b} batch of one", product, a=a, b=b, B=1)
        scenario(P + " C14", f"product {a} * {b} moved", product, a=a, b=b, moved=True, raises="C14")
        for ba, bb in ((False, True), (True, False), (False, False)):
            scenario(P, f"product {a} * {b} unbatched {int(ba)}{int(bb)}", product, a=a, b=b, ba=ba, bb=bb)
    for a, b in (("vecR", "vecR"), ("vecR", "mat"), ("mat", "vecL"), ("outR", "mat"), ("mat", "outL"), ("region", "vecL"), ("vecR", "region")):
        scenario("C19", f"no common bond {a} * {b}", bad_product, a=a, b=b)
    for a, b in (("vecL", "mat"), ("mat", "mat"), ("mat", "vecR"), ("core", "mat"), ("mat", "core"), ("vecL", "vecR"), ("vecL", "region"), ("region", "vecR"),
                 ("vecL", "core"), ("vecL", "outR"), ("outL", "vecR"), ("gen", "mat"), ("mat", "gen")):
        if (a, b) not in (("vecL", "vecR"), ("vecL", "region"), ("region", "vecR")):
            scenario("C19", f"bond dimension one {a} * {b}", bad_product, a=a, b=b, ones=True)
        scenario("C19", f"different bond dimensions {a} * {b}", bad_product, a=a, b=b)
    for n in range(1, 10):
        scenario(P + " C02 C04", f"region reduce n={n}", region_reduce, n=n)
    scenario(P + " C02", "region reduce n=3 batch of one", region_reduce, n=3, B=1)
    scenario(P + " C02", "region reduce n=3 unbatched", region_reduce, n=3, batched=False)
    scenario(P + " C02 C14", "region reduce n=3 moved", region_reduce, n=3, moved=True)
    for k in ("vecL", "mat", "core", "outR", "gen"):
        scenario(P, f"reduce of {k}", plain_reduce, kind=k)
    lists = [("vecL region:2 core region:3 vecR", 1), ("vecL core region:3 vecR", 1), ("vecL region:3 core vecR", 1), ("vecL core vecR", 1),
             ("vecL region:1 core region:1 vecR", 1), ("vecL mat core mat vecR", 1), ("vecL region:2 mat core mat region:2 vecR", 1),
             ("vecL region:4 outR", 1), ("vecL region:1 outR", 1), ("vecL outR", 1), ("vecL mat mat outR", 1), ("outL region:3 vecR", 1),
             ("outL mat vecR", 1), ("vecL region:2 region:3 vecR", 1), ("vecL region:2 core region:2 core vecR", 1),
             ("core mat mat", 1), ("mat core mat", 1), ("mat mat core", 1), ("core", 1), ("vecL core", 1), ("core vecR", 1), ("mat mat mat", 1)]
    both = [("region:2 core region:3", 1), ("core region:3", 1), ("region:3 core", 1), ("region:1 core region:1", 1), ("region:5", 1),
            ("region:2 mat core", 1)]
    for s, _ in lists:
        for par in (False, True):
            if s == "vecL region:2 core region:2 core vecR" and not par:
                continue        # documented as unsupported
            scenario(P + (" C04" if par else ""), f"reduce {s}{' parallel' if par else ''}", reduce_list, spec=s.split(), par=par)
    for s, _ in both:
        scenario(P + " C04", f"reduce {s} parallel", reduce_list, spec=s.split(), par=True)
    for s in ("vecL region:2 core region:3 vecR", "vecL region:2 outR", "vecL mat core mat vecR"):
        for par in (False, True):
            t = f"reduce {s}{' parallel' if par else ''}"
            scenario(P, t + " batch of one", reduce_list, spec=s.split(), par=par, B=1)
            scenario(P + " C14", t + " moved", reduce_list, spec=s.split(), par=par, moved=True, raises="C14")
            scenario(P, t + " twice", reduce_list, spec=s.split(), par=par, twice=True)
    for s, o, side in (("mat core mat", "vecL", "left"), ("mat core mat", "vecR", "right"), ("region:2 mat core", "vecL", "left"),
                       ("core mat region:2", "vecR", "right"), ("mat core", "mat", "right"), ("mat core", "mat", "left"), ("mat", "vecR", "right"),
                       ("region:3", "vecL", "left"), ("vecL mat", "outR", "right"), ("region:2 vecR", "vecL", "left"),
                       ("mat core", "scalar", "left"), ("mat core", "scalar", "right")):
        scenario(P, f"list product {side} [{s}] {o}", list_product, spec=s.split(), other=o, side=side)
    for w in ("empty list", "tuple list", "region not square", "region order", "OutputCore", "SingleMat", "EdgeVec", "OutputMat", "Scalar", "bond string"):
        scenario("C19", f"malformed contractable: {w}", malformed, what=w)


register()
