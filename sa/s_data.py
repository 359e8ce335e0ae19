"""Data helpers: joint shuffling, toy data, one-hot labels."""
import itertools
from .cases import *
from .s_contract import raising
from .separate import Valuation, NoValue

SV = slice(None)


def sz(c, s):
    return tuple(c.size(x) if isinstance(x, str) else x for x in s)


def take(c, t, name):
    return c.it.lib.np_take_perm(val(t), name)


def shuffle(c, data, labels, ldt="i"):
    d = c.tensor("data", sz(c, data), c.fdt, c.dev, batch=None)
    l = (c.ints if ldt == "i" else c.tensor)("labels", sz(c, labels), dev=c.dev, batch=None) if ldt == "i" else c.tensor("labels", sz(c, labels), c.fdt, c.dev, batch=None)
    c.allow = {"rng", "global"}
    c.begin()
    out = c.fn("utils", "joint_shuffle", d, l)
    if not (isinstance(out, (tuple, list)) and len(out) == 2):
        c.bad("C22", "result", f"returns {c.it.tname(out)}")
        return
    x, y = val(out[0]), val(out[1])
    names = sorted({n for t in (x, y) for e in t.cells.values() for n, *_ in X.base_tensors(e) if X.TINFO.get(n, {}).get("perm")})
    for p in [None] + names:
        tk = (lambda t: val(t)) if p is None else (lambda t: take(c, t, p))
        if T.same_value(x, tk(d)) is None and T.same_value(y, tk(l)) is None:
            c.same("C22", "data permuted", x, tk(d))
            c.same("C22", "same permutation", y, tk(l))
            break
    else:
        pairs(c, x, y, val(d), val(l))
    for nm, a, b in (("data", x, val(d)), ("labels", y, val(l))):
        c.check("C22", nm + " type", a.dt == b.dt and a.dev == b.dev, f"{nm} come back as {T.name_dt(a.dt)} on {a.dev}")
    if c.moved:
        c.check("C14", "device and precision", x.dev == "M" and y.dev == "M" and x.dt == d.get().dt, "shuffled data leave the device or precision of the input")


def table(v, t):
    """The rows of a tensor under a valuation."""
    rows = {}
    for p in itertools.product(*[range(v.size(n)) for n in t.shape]):
        rows.setdefault(p[0], []).append(round(complex(v.expr(T.getitem(t, p).scalar, {})).real, 9))
    return [tuple(rows[k]) for k in sorted(rows)]


def pairs(c, x, y, d, l):
    """The pairs of rows are kept, whatever the permutation: judged on some
    valuations when the form of the result is unknown."""
    if not all(a.ndim == b.ndim and all(T.dim_eq(m, n) for m, n in zip(a.shape, b.shape)) for a, b in ((x, d), (y, l))):
        c.bad("C22", "same permutation", f"data and labels of shapes {list(d.shape)} and {list(l.shape)} come back as {list(x.shape)} and {list(y.shape)}")
        return
    for seed in range(8):
        v = Valuation(seed, c.it.lib.svds)
        try:
            got, want = (sorted(zip(table(v, a), table(v, b))) for a, b in ((x, y), (d, l)))
        except NoValue as ex:
            c.und("C22", "same permutation", str(ex))
            return
        if got != want:
            c.bad("C22", "same permutation", "the pairs of data and labels are not those of the input")
            return
    c.und("C22", "same permutation", "the form of the permutation is unknown")


def shuffle_bad(c):
    raise Skip()


def hv(c, length):
    c.allow = {"rng", "global"}
    out = c.fn("utils", "load_HV_data", length)
    c.report_events = False
    if not (isinstance(out, (tuple, list)) and len(out) == 4 and all(isinstance(t, TensorObj) for t in out)):
        c.bad("C22", "result", f"returns {c.it.tname(out)}")
        return
    X1, y1, X2, y2 = [val(t) for t in out]
    L = length
    total = 2 * (2 ** L - 2)
    n1, n2 = X1.shape[0], X2.shape[0]
    for a, b, s in ((X1, y1, "training"), (X2, y2, "test")):
        c.check("C22", f"{s} shapes", a.ndim == 3 and b.ndim == 1 and T.dim_eq(a.shape[0], b.shape[0]) and a.shape[1] == L and a.shape[2] == L,
                f"{s} images of shape {list(a.shape)} with labels of shape {list(b.shape)}")
    if not (isinstance(n1, int) and isinstance(n2, int) and X1.ndim == 3 and y1.ndim == 1 and X2.ndim == 3 and y2.ndim == 1):
        return
    c.check("C22", "number of images", n1 + n2 == total and n2 == total // 4, f"{n1} training and {n2} test images instead of {total - total // 4} and {total // 4}")
    # the entries are functions of a symbolic permutation: evaluate them for some
    for seed in range(4):
        v = Valuation(seed, c.it.lib.svds)
        try:
            get = lambda t, *p: v.expr(T.getitem(t, p).scalar, {})
            items = []
            for a, b in ((X1, y1), (X2, y2)):
                for k in range(min(a.shape[0], b.shape[0])):
                    img = tuple(tuple(int(round(complex(get(a, k, i, j)).real)) for j in range(L)) for i in range(L))
                    items.append((img, int(round(complex(get(b, k)).real))))
        except NoValue as ex:
            c.und("C22", "contents", str(ex))
            return
        want = []
        for i in range(1, 2 ** L - 1):
            bits = [int(z) for z in format(i, f"0{L}b")]
            want.append((tuple(tuple([z] * L) for z in bits), 0))
            want.append((tuple(tuple(bits) for _ in range(L)), 1))
        images = sorted(x for x, _ in items)
        c.check("C22", "every image once", images == sorted(x for x, _ in want),
                "images are lost, duplicated or changed between training and test set")
        c.check("C22", "labels", sorted(items) == sorted(want), "an image carries the wrong label")
    c.check("C22", "types", X1.dt.kind == "f" and X2.dt.kind == "f" and y1.dt.kind == "i" and y2.dt.kind == "i", "images are not floating point or labels not integers")


def onehot(c, n, m, kind="tensor"):
    m = c.size(m) if isinstance(m, str) else m
    if kind == "tensor":
        l = c.ints("labels", (n,), batch=None)
        X.TINFO["labels"]["range"] = m if isinstance(m, int) else P(m)
        v = val(l)
    else:
        ks = [k % m for k in (2, 0, 1, 1)][:n]
        l = c.lst(ks)
        v = TVal((T.axis_for(n),), {p: X.E(ks[p[0]] if p else ks[0]) for p in T.positions(T.enums((T.axis_for(n),)))}, I64, "C")
    c.begin()
    out = c.fn("utils", "onehot", l, m)
    a = T.axis_for(m)
    rows = []
    for k in range(n):
        e = T.getitem(v, (k,)).scalar
        if isinstance(m, int):
            cells = {p: X.compare("eq", e, X.E(p[0] if p else 0)) for p in T.positions(T.enums((a,)))}
        else:
            w = T.avars((a,))[0]
            cells = {(): X.compare("eq", e, X.T("iota", (w,)))}
        rows.append(TVal((a,), cells, FD, "C"))
    c.same("C22", "one-hot rows", out, T.stack(rows, 0))


def register():
    for d, l in ((("n", 3), ("n",)), (("n",), ("n",)), (("n", 2, "m"), ("n",)), (("n", 2), ("n", 3)), ((4, 2), (4,)), ((1, 2), (1,)), ((5,), (5, "m"))):
        for k in ("i", "f"):
            scenario("C22 C16", f"joint_shuffle {d} {l} {k}", shuffle, data=d, labels=l, ldt=k)
        scenario("C22 C16 C14", f"joint_shuffle {d} {l} moved", shuffle, data=d, labels=l, moved=True, raises="C14")
    for L in (2, 3, 4, 5):
        scenario("C22", f"load_HV_data {L}", hv, length=L)
    for n in (1, 2, 4):
        for m in (3, "m"):
            scenario("C22 C16", f"onehot {n} labels of {m}", onehot, n=n, m=m)
        scenario("C22 C16", f"onehot {n} labels in a list", onehot, n=n, m=3, kind="list")


register()
