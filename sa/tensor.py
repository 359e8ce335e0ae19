"""Abstract tensors: typed axes, and one symbolic Expr per enumerated position.

Axes:  ('1',)          size one
       ('E', n)        concrete size, positions enumerated (n != 1)
       ('V', var)      symbolic size, one index variable
       ('F', (axes))   row-major fusion of at least two axes (after a reshape)
"""
import itertools
from fractions import Fraction
from .poly import Poly, P, cmp_eq, cmp_le, cmp_lt, floordiv
from . import expr as X
from .expr import Expr, E, TooHard, VSIZE, newvar, VTAG, subst, bind, mul, rename, ZERO, ONE


class TorchError(Exception):
    """An error the modelled library raises (definite)."""

    def __init__(self, msg, cls="RuntimeError", kind="shape"):
        super().__init__(msg)
        self.cls, self.kind = cls, kind


class Hooks:
    """Set by the interpreter: events and decisions."""

    @staticmethod
    def event(kind, msg):
        pass

    @staticmethod
    def decide(key, why=""):
        raise TooHard("undecided: " + str(why))


H = Hooks


class DType:
    __slots__ = ("kind", "prec")
    _tab = {}

    def __new__(cls, kind, prec):
        k = (kind, prec)
        if k not in cls._tab:
            o = object.__new__(cls)
            o.kind, o.prec = kind, prec
            cls._tab[k] = o
        return cls._tab[k]

    def __repr__(self):
        return f"{self.kind}:{self.prec}"

    @property
    def is_floating_point(self):
        return self.kind == "f"

    @property
    def is_complex(self):
        return self.kind == "c"


FD, CD = DType("f", "D"), DType("c", "D")
FP, CP = DType("f", "P"), DType("c", "P")
F64, C64 = DType("f", "64"), DType("c", "64")
F16 = DType("f", "16")
I64, BOOL = DType("i", "long"), DType("b", "bool")
I32 = DType("i", "int")
_ORD = {"b": 0, "i": 1, "f": 2, "c": 3}
_PR = {"16": 0, "D": 1, "P": 2, "64": 3, "long": 1, "int": 0, "bool": 0}


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return cmp_eq(P(a), P(b)) is True


def dims_prod(dims):
    r = 1
    for d in dims:
        r = norm(P(r) * P(d)) if not (isinstance(r, int) and isinstance(d, int)) else r * d
    return r


def norm(p):
    if isinstance(p, Poly):
        v = p.as_int()
        return v if v is not None else p
    return p


def asize(a):
    if a[0] == "1":
        return 1
    if a[0] == "E":
        return a[1]
    if a[0] == "V":
        return VSIZE[a[1]]
    return dims_prod([asize(x) for x in a[1]])


def enums(axes):
    """Enumerated sizes in order (flattened)."""
    out = []
    for a in axes:
        if a[0] == "E":
            out.append(a[1])
        elif a[0] == "F":
            out += enums(a[1])
    return out


def avars(axes):
    out = []
    for a in axes:
        if a[0] == "V":
            out.append(a[1])
        elif a[0] == "F":
            out += avars(a[1])
    return out


def nE(a):
    return 1 if a[0] == "E" else (len(enums(a[1])) if a[0] == "F" else 0)


def positions(ns):
    return itertools.product(*[range(n) for n in ns])


class TVal:
    __slots__ = ("axes", "cells", "dt", "dev", "contig", "sorted", "notes")

    def __init__(self, axes, cells, dt=FD, dev="C", contig=True, notes=None):
        self.axes, self.cells, self.dt, self.dev, self.contig = tuple(axes), cells, dt, dev, contig
        self.notes = notes or {}

    def rep(self, **kw):
        r = TVal(kw.get("axes", self.axes), kw.get("cells", self.cells), kw.get("dt", self.dt),
                 kw.get("dev", self.dev), kw.get("contig", self.contig), kw.get("notes"))
        return r

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(asize(a) for a in self.axes)

    def map(self, f, **kw):
        kw.setdefault("contig", True)
        return self.rep(cells={k: f(v) for k, v in self.cells.items()}, **kw)

    @property
    def scalar(self):
        """The Expr of a one-element tensor."""
        if len(self.cells) != 1 or avars(self.axes):
            raise TooHard("not a scalar")
        return next(iter(self.cells.values()))

    def __repr__(self):
        nm = {v: f"ax{k}" for k, v in enumerate(avars(self.axes))}
        s = ", ".join(f"{k}: {X.show(v, nm)}" for k, v in list(self.cells.items())[:8])
        return f"Tensor{list(self.shape)}<{self.dt},{self.dev}>({s})"


def axis_for(size, tag=None):
    size = norm(size)
    if isinstance(size, int):
        if size < 0:
            raise TorchError(f"negative dimension {size}")
        return ("1",) if size == 1 else ("E", size)
    return ("V", newvar(size, tag))


def const_tensor(shape, value, dt=FD, dev="C"):
    axes = [axis_for(s) for s in shape]
    e = E(value)
    return TVal(axes, {p: e for p in positions(enums(axes))}, dt, dev)


def base_tensor(name, shape, dt=FD, dev="C", enum=True, tags=None, **info):
    """A named tensor: coords for enumerated axes, indices for symbolic ones."""
    info.setdefault("real", dt.kind != "c")
    if dt.kind in "ib":
        info.setdefault("int", True)
    X.TINFO[name] = info
    axes = [axis_for(s, (tags or {}).get(k)) for k, s in enumerate(shape)]
    vs = tuple(avars(axes))
    return TVal(axes, {p: X.T(name, vs, p) for p in positions(enums(axes))}, dt, dev)


def fresh(v):
    """Same tensor with fresh axis variables."""
    mp = {}
    for x in avars(v.axes):
        mp[x] = newvar(VSIZE[x], VTAG.get(x))
    if not mp:
        return v

    def ax(a):
        if a[0] == "V":
            return ("V", mp[a[1]])
        if a[0] == "F":
            return ("F", tuple(ax(x) for x in a[1]))
        return a
    return v.rep(axes=tuple(ax(a) for a in v.axes), cells={k: rename(e, mp) for k, e in v.cells.items()},
                 notes=v.notes)


def _same_axes_subst(axes_a, axes_b):
    """Substitution making b's variables equal to a's (axes of equal structure)."""
    mp = {}

    def go(a, b):
        if a[0] == "V" and b[0] == "V":
            if not dim_eq(asize(a), asize(b)):
                return False
            mp[b[1]] = a[1]
            return True
        if a[0] == b[0] == "E":
            return a[1] == b[1]
        if a[0] == b[0] == "1":
            return True
        if a[0] == b[0] == "F" and len(a[1]) == len(b[1]):
            return all(go(x, y) for x, y in zip(a[1], b[1]))
        return False
    ok = len(axes_a) == len(axes_b) and all(go(a, b) for a, b in zip(axes_a, axes_b))
    return mp if ok else None


def bshape(axes_list):
    """Broadcast axis lists (right aligned): list of (result axis, size)."""
    n = max(len(a) for a in axes_list)
    out = []
    for k in range(n):
        cand = ("1",)
        for axes in axes_list:
            j = k - (n - len(axes))
            if j < 0:
                continue
            a = axes[j]
            if a[0] == "1":
                continue
            if cand[0] == "1":
                cand = a
            else:
                sa, sb = asize(cand), asize(a)
                if not dim_eq(sa, sb):
                    raise TorchError(f"The size of tensor a ({sa}) must match the size of tensor b ({sb}) at non-singleton dimension {k}")
                if cand[0] == "F" and a[0] != "F":
                    cand = a if a[0] == "V" and False else cand
        out.append(cand)
    return out


def broadcast(vals, fresh_axes=False):
    """Bring tensors to common axes: (axes, [cells]) with shared variables."""
    vals = list(vals)
    axes = bshape([v.axes for v in vals])
    # fresh common variables
    def fr(a):
        if a[0] == "V":
            return ("V", newvar(VSIZE[a[1]], VTAG.get(a[1])))
        if a[0] == "F":
            return ("F", tuple(fr(x) for x in a[1]))
        return a
    axes = [fr(a) for a in axes]
    n = len(axes)
    res = []
    ns = [(k, nE(a)) for k, a in enumerate(axes)]
    for v in vals:
        off = n - len(v.axes)
        mp = {}
        sel = []
        cells = v.cells
        for k, a in enumerate(axes):
            j = k - off
            if j < 0 or v.axes[j][0] == "1":
                sel.append(False)
                continue
            m = _same_axes_subst([a], [v.axes[j]])
            if m is None:
                raise TooHard("incompatible fused axes")
            mp.update(m)
            sel.append(True)
        new = {}
        for p in positions(enums(axes)):
            q, i = [], 0
            for k, cnt in ns:
                if sel[k]:
                    q += p[i:i + cnt]
                i += cnt
            new[p] = subst(cells[tuple(q)], mp) if mp else cells[tuple(q)]
        res.append(new)
    return tuple(axes), res


def promote_dt(vals):
    """Result dtype of an elementwise operation (tensors and python scalars)."""
    best = {}
    for v in vals:
        if isinstance(v, TVal):
            pr = 2 if v.ndim else 1
            dt = v.dt
        else:
            pr, dt = 0, v
        k = 0 if dt.kind == "b" else 1 if dt.kind == "i" else 2
        cur = best.get(pr)
        best.setdefault(pr, []).append(dt)
    res = None
    for pr in sorted(best, reverse=True):
        dts = best[pr]
        kind = max((d.kind for d in dts), key=lambda x: _ORD[x])
        prec = max((d.prec for d in dts if d.kind in "fc"), key=lambda x: _PR[x], default=None)
        if res is None:
            res = (kind, prec)
        else:
            if _ORD[kind] > _ORD[res[0]]:
                p = res[1] or (prec if pr else "D")
                res = (kind, p if kind in "fc" else None)
    kind, prec = res
    if kind == "i":
        return I64
    if kind == "b":
        return BOOL
    return DType(kind, prec or "D")


def join_dev(vals, what="operation"):
    devs = {}
    for v in vals:
        devs.setdefault(v.dev, []).append(v)
    if len(devs) == 1:
        return next(iter(devs))
    c, m = devs.get("C", []), devs.get("M", [])
    if all(v.ndim == 0 for v in c):
        return "M"
    H.event("device", f"{what} combines tensors on the CPU and on the model's device")
    return "M"


def ewise(f, *vals, dt=None, what="elementwise operation"):
    """Elementwise f(Expr, ...) over broadcast tensors."""
    dev = join_dev(vals, what)
    axes, cells = broadcast(vals)
    out = {p: f(*[c[p] for c in cells]) for p in cells[0]}
    return TVal(axes, out, dt or promote_dt(vals), dev)


# ---------------------------------------------------------------- reductions
def reduce_sum(v, dims, keepdim=False):
    dims = sorted({normdim(d, v.ndim) for d in dims})
    axes, cells = list(v.axes), v.cells
    for d in reversed(dims):
        axes, cells = _sum_axis(axes, cells, d)
        axes[d] = ("1",)
    if not keepdim:
        axes = [a for k, a in enumerate(axes) if k not in dims]
    return v.rep(axes=tuple(axes), cells=cells, contig=True)


def _sum_axis(axes, cells, d):
    a = axes[d]
    off = sum(nE(x) for x in axes[:d])
    n = nE(a)
    out = {}
    for p, e in cells.items():
        q = p[:off] + p[off + n:]
        out[q] = out[q] + e if q in out else e
    if n and not cells:      # empty enumeration
        rest = [x for k, x in enumerate(axes) if k != d]
        out = {p: ZERO for p in positions(enums(rest))}
    vs = avars([a])
    for v in vs:
        out = {q: bind(e, v) for q, e in out.items()}
    return list(axes), out


def reduce_fn(v, dims, fname, keepdim=False):
    dims = sorted({normdim(d, v.ndim) for d in dims})
    axes, cells = list(v.axes), v.cells
    for d in reversed(dims):
        a = axes[d]
        off, n = sum(nE(x) for x in axes[:d]), nE(a)
        groups = {}
        for p, e in cells.items():
            groups.setdefault(p[:off] + p[off + n:], []).append(e)
        vs = avars([a])
        new = {}
        for q, es in groups.items():
            if vs:
                es = [X.fn(fname, [e], ("red", tuple(VSIZE[x] for x in vs)), tuple(vs)) if any(x in e.free for x in vs) else e for e in es]
            r = es[0]
            for e in es[1:]:
                r = r if r == e else X.fn(fname + "2", sorted([r, e], key=X.ekey))
            new[q] = r
        cells = new
        axes[d] = ("1",)
    if not keepdim:
        axes = [a for k, a in enumerate(axes) if k not in dims]
    return v.rep(axes=tuple(axes), cells=cells, contig=True)


def normdim(d, n):
    if not isinstance(d, int) or isinstance(d, bool):
        raise TooHard(f"dimension {d!r}")
    m = max(n, 1)
    if d < -m or d >= m:
        raise TorchError(f"Dimension out of range (got {d} for {n} axes)", "IndexError")
    return d % m


# ---------------------------------------------------------------- layout
def permute(v, perm):
    perm = [normdim(d, v.ndim) for d in perm]
    if sorted(perm) != list(range(v.ndim)):
        raise TorchError("permute: repeated or missing dim")
    offs, o = [], 0
    for a in v.axes:
        offs.append((o, o + nE(a)))
        o += nE(a)
    cells = {}
    for p, e in v.cells.items():
        q = ()
        for d in perm:
            q += p[offs[d][0]:offs[d][1]]
        cells[q] = e
    keep = [d for d in perm if v.axes[d][0] != "1"]
    return v.rep(axes=tuple(v.axes[d] for d in perm), cells=cells,
                 contig=v.contig and keep == sorted(keep))


def unsqueeze(v, d):
    d = d if d >= 0 else d + v.ndim + 1
    if d < 0 or d > v.ndim:
        raise TorchError("unsqueeze: dim out of range", "IndexError")
    ax = list(v.axes)
    ax.insert(d, ("1",))
    return v.rep(axes=tuple(ax))


def squeeze(v, dims=None):
    if dims is None:
        return v.rep(axes=tuple(a for a in v.axes if a[0] != "1"))
    ds = {normdim(d, v.ndim) for d in dims} if v.ndim else set()
    return v.rep(axes=tuple(a for k, a in enumerate(v.axes) if not (k in ds and a[0] == "1")))


def expand(v, sizes):
    sizes = [norm(s) for s in sizes]
    if len(sizes) < v.ndim:
        raise TorchError("expand: fewer sizes than axes")
    off = len(sizes) - v.ndim
    axes = []
    grew = False
    for k, s in enumerate(sizes):
        if k < off:
            if s == -1:
                raise TorchError("expand: -1 for a new axis")
            axes.append(axis_for(s))
            grew = grew or s != 1
            continue
        a = v.axes[k - off]
        if s == -1 or dim_eq(s, asize(a)):
            axes.append(a)
        elif a[0] == "1":
            axes.append(axis_for(s))
            grew = True
        else:
            raise TorchError(f"The expanded size of the tensor ({s}) must match the existing size ({asize(a)}) at non-singleton dimension {k}")
    old = [(k >= off and v.axes[k - off][0] != "1") for k in range(len(sizes))]
    cells = {}
    ns = [nE(a) for a in axes]
    for p in positions(enums(axes)):
        q, i = [], 0
        for k, n in enumerate(ns):
            if old[k]:
                q += p[i:i + n]
            i += n
        cells[p] = v.cells[tuple(q)]
    return v.rep(axes=tuple(axes), cells=cells, contig=v.contig and not grew)


def expand_like(v, axes, what="assignment"):
    """Broadcast v to tensors with exactly these axes (structure included)."""
    if v.ndim > len(axes):
        raise TorchError(f"{what}: shape mismatch")
    v = v.rep(axes=(("1",),) * (len(axes) - v.ndim) + v.axes)
    for a, b in zip(v.axes, axes):
        if a[0] != "1" and not dim_eq(asize(a), asize(b)):
            raise TorchError(f"{what}: cannot broadcast size {asize(a)} to {asize(b)}")
    def fr(a):
        if a[0] == "V":
            return ("V", newvar(VSIZE[a[1]], VTAG.get(a[1])))
        if a[0] == "F":
            return ("F", tuple(fr(x) for x in a[1]))
        return a
    grow = [a[0] == "1" and b[0] != "1" for a, b in zip(v.axes, axes)]
    if not any(grow):
        return v
    out_axes = tuple(fr(b) if g else a for a, b, g in zip(v.axes, axes, grow))
    cells = {}
    ns = [nE(a) for a in out_axes]
    for p in positions(enums(out_axes)):
        q, i = [], 0
        for n, g in zip(ns, grow):
            if not g:
                q += p[i:i + n]
            i += n
        cells[p] = v.cells[tuple(q)]
    return v.rep(axes=out_axes, cells=cells)


def prim(axes):
    out = []
    for a in axes:
        if a[0] == "F":
            out += prim(a[1])
        elif a[0] != "1":
            out.append(a)
    return out


def reshape(v, sizes):
    sizes = [norm(s) for s in sizes]
    total = dims_prod(v.shape)
    if any(isinstance(s, int) and s == -1 for s in sizes):
        k = [i for i, s in enumerate(sizes) if isinstance(s, int) and s == -1]
        if len(k) > 1:
            raise TorchError("only one dimension can be inferred")
        rest = dims_prod([s for i, s in enumerate(sizes) if i != k[0]])
        q = pdiv(total, rest)
        if q is None:
            raise TorchError(f"shape {sizes} is invalid for input of size {total}")
        sizes[k[0]] = q
    if not dim_eq(dims_prod(sizes), total):
        raise TorchError(f"shape {sizes} is invalid for input of size {total}")
    if any(isinstance(s, int) and s == 0 for s in sizes):
        axes = [axis_for(s) for s in sizes]
        return v.rep(axes=tuple(axes), cells={}, contig=True)
    src = prim(v.axes)          # same cells, flat primitive axes
    cells = v.cells
    out = []                    # list of groups of primitive axes
    i = 0
    src = list(src)
    for s in sizes:
        group = []
        cur = 1
        if isinstance(s, int) and s == 1:
            out.append([])
            continue
        while not dim_eq(cur, s):
            if i >= len(src):
                raise TooHard("reshape")
            a = src[i]
            nxt = dims_prod([cur, asize(a)])
            if dim_eq(nxt, s) or _divides(nxt, s):
                group.append(a)
                cur = nxt
                i += 1
                continue
            if a[0] == "E":
                need = pdiv(s, cur)
                if isinstance(need, int) and need > 0 and a[1] % need == 0:
                    src, cells = _split_enum(src, cells, i, need)
                    continue
                # part of the enumeration, the rest of s from later axes
                import math
                if isinstance(need, int):
                    g = math.gcd(need, a[1])
                    if 1 < g < a[1]:
                        src, cells = _split_enum(src, cells, i, g)
                        continue
            raise TooHard("reshape splits a symbolic axis")
        out.append(group)
    if i < len(src):
        raise TooHard("reshape leftover")
    axes = []
    # merge runs of enumerated axes within a group
    pos_axes = []
    for g in out:
        if not g:
            axes.append(("1",))
        elif all(a[0] == "E" for a in g):
            n = 1
            for a in g:
                n *= a[1]
            axes.append(("E", n))
        elif len(g) == 1:
            axes.append(g[0])
        else:
            axes.append(("F", tuple(g)))
    new = {}
    for p, e in cells.items():
        q, i = [], 0
        for g in out:
            if g and all(a[0] == "E" for a in g):
                x = 0
                for a in g:
                    x = x * a[1] + p[i]
                    i += 1
                q.append(x)
            else:
                for a in g:
                    if a[0] == "E":
                        q.append(p[i])
                        i += 1
        new[tuple(q)] = e
    return v.rep(axes=tuple(axes), cells=new)


def _divides(a, b):
    """b is a multiple of a by a factor > 1 (symbolically)."""
    q = pdiv(b, a)
    return q is not None


def pdiv(a, b):
    """Exact quotient of sizes or None."""
    a, b = norm(a), norm(b)
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b and a % b == 0 else None
    pa, pb = P(a), P(b)
    if len(pb.t) == 1:
        (m, c), = pb.t.items()
        out = {}
        for m2, c2 in pa.t.items():
            d = dict(m2)
            for at, ex in m:
                d[at] = d.get(at, 0) - ex
                if d[at] < 0:
                    return None
            k = c2 / c
            if k.denominator != 1:
                return None
            out[tuple(sorted(((x, y) for x, y in d.items() if y), key=repr))] = k
        r = Poly({})
        for mm, k in out.items():
            t = Poly.const(k)
            for at, ex in mm:
                t = t * (Poly({((at, 1),): Fraction(1)}) ** ex)
            r = r + t
        return norm(r)
    if pa == pb:
        return 1
    return None


def _split_enum(src, cells, i, first):
    """Split enumerated axis src[i] of size n into (first, n//first)."""
    n = src[i][1]
    rest = n // first
    k = sum(1 for a in src[:i] if a[0] == "E")
    new = {}
    for p, e in cells.items():
        x = p[k]
        a, b = divmod(x, rest)
        mid = ((a,) if first != 1 else ()) + ((b,) if rest != 1 else ())
        new[p[:k] + mid + p[k + 1:]] = e
    ax = ([("E", first)] if first != 1 else []) + ([("E", rest)] if rest != 1 else [])
    return src[:i] + ax + src[i + 1:], new


# ---------------------------------------------------------------- indexing
def bound_slice(lo, hi, step, size):
    """Normalise a slice against a size: (start, length, step) (ints or Polys)."""
    step = 1 if step is None else norm(step)
    if not isinstance(step, int):
        raise TooHard("symbolic slice step")
    if isinstance(size, int) and all(x is None or isinstance(norm(x), int) for x in (lo, hi)):
        lo = None if lo is None else norm(lo)
        hi = None if hi is None else norm(hi)
        if step <= 0:
            raise TorchError("slice step must be positive", "ValueError")
        a, b, s = slice(lo, hi, step).indices(size)
        return a, max(0, -(-(b - a) // s)), s
    S = P(size)

    def fix(x, default):
        if x is None:
            return default
        x = norm(x)
        if isinstance(x, int) and x < 0:
            x = S + x
        elif isinstance(x, Poly):
            if cmp_lt(x, 0) is True:
                x = S + x
        x = P(x)
        r = cmp_le(x, S)
        if r is True:
            return x
        if r is False:
            return S
        if decide_le(x, S):
            return x
        return S
    a, b = fix(lo, P(0)), fix(hi, S)
    if step != 1:
        if a == P(0) and b == S:
            raise TooHard("strided slice of a symbolic axis")
        raise TooHard("strided slice of a symbolic axis")
    r = cmp_le(a, b)
    if r is False:
        return norm(a), 0, 1
    if r is None and not decide_le(a, b):
        return norm(a), 0, 1
    return norm(a), norm(b - a), 1


def decide_le(a, b):
    """Branch on a <= b and remember the answer as a fact about the sizes."""
    a, b = P(a), P(b)
    r = H.decide(("le", repr(a), repr(b)), f"{a} <= {b}")
    poly.FACTS.append(b - a if r else a - b - 1)
    return r


class Full:
    pass


def parse_index(idx, v):
    """Expand Ellipsis; list of items: ('int',k) ('slice',lo,hi,step) ('new',) ('adv',TVal)."""
    items = list(idx) if isinstance(idx, tuple) else [idx]
    n_used = sum(1 for i in items if not (i is None or i is Ellipsis) and not (isinstance(i, TVal) and i.dt.kind == "b")) + \
        sum(i.ndim for i in items if isinstance(i, TVal) and i.dt.kind == "b")
    if sum(1 for i in items if i is Ellipsis) > 1:
        raise TorchError("more than one ellipsis", "IndexError")
    if n_used > v.ndim:
        raise TorchError(f"too many indices for tensor of dimension {v.ndim}", "IndexError")
    if not any(i is Ellipsis for i in items):
        items.append(Ellipsis)
    out = []
    for i in items:
        if i is Ellipsis:
            out += [("slice", None, None, None)] * (v.ndim - n_used)
        elif i is None:
            out.append(("new",))
        elif isinstance(i, slice):
            out.append(("slice", i.start, i.stop, i.step))
        elif isinstance(i, TVal):
            if i.dt.kind == "b":
                raise TooHard("boolean mask index")
            if i.dt.kind in "fc":
                raise TorchError("tensors used as indices must be long, int, byte or bool tensors", "IndexError")
            out.append(("adv", i))
        elif isinstance(i, bool):
            raise TooHard("bool index")
        elif isinstance(i, (int, Poly)):
            out.append(("int", norm(i)))
        else:
            raise TorchError(f"invalid index {i!r}", "TypeError")
    return out


def _take(axes, cells, d, k):
    """Index axis d by the integer k (already normalised >= 0)."""
    a = axes[d]
    off = sum(nE(x) for x in axes[:d])
    rest = list(axes[:d]) + list(axes[d + 1:])
    if a[0] == "1":
        return rest, cells
    if a[0] == "E":
        if not isinstance(k, int):
            raise TooHard("symbolic index into an enumerated axis")
        return rest, {p[:off] + p[off + 1:]: e for p, e in cells.items() if p[off] == k}
    if a[0] == "V":
        return rest, {p: subst(e, {a[1]: ("c", X.cnorm(k))}) for p, e in cells.items()}
    raise TooHard("index into a fused axis")


def _slice(axes, cells, d, lo, hi, step):
    a = axes[d]
    if a[0] == "F":
        if lo is None and hi is None and step in (None, 1):
            return list(axes), cells
        raise TooHard("slice of a fused axis")
    start, ln, st = bound_slice(lo, hi, step, asize(a))
    off = sum(nE(x) for x in axes[:d])
    axes = list(axes)
    if isinstance(ln, int) and ln == 1:
        k = start
        ax2, c2 = _take(axes, cells, d, k)
        ax2.insert(d, ("1",))
        return ax2, c2
    if a[0] == "1":
        axes[d] = ("1",) if ln == 1 else ("E", 0)
        return axes, (cells if ln == 1 else {})
    if a[0] == "E":
        axes[d] = ("E", ln)
        out = {}
        for p, e in cells.items():
            q, r = divmod(p[off] - start, st)
            if r == 0 and 0 <= q < ln:
                out[p[:off] + (q,) + p[off + 1:]] = e
        return axes, out
    # symbolic axis
    if dim_eq(ln, asize(a)):
        return axes, cells
    if isinstance(ln, int) and ln <= 64:
        axes[d] = ("E", ln)
        out = {}
        for p, e in cells.items():
            for q in range(ln):
                out[p[:off] + (q,) + p[off:]] = subst(e, {a[1]: ("c", X.cnorm(P(start) + q))})
        return axes, out
    v = newvar(ln, VTAG.get(a[1]))
    axes[d] = ("V", v)
    return axes, {p: subst(e, {a[1]: X.ioff(v, start)}) for p, e in cells.items()}


def norm_int_index(k, size):
    """Non-negative index or an IndexError."""
    k, size = norm(k), norm(size)
    if isinstance(k, int) and isinstance(size, int):
        if k < -size or k >= size:
            raise TorchError(f"index {k} is out of bounds for dimension with size {size}", "IndexError")
        return k % size if size else 0
    K, S = P(k), P(size)
    if isinstance(k, int) and k < 0:
        if cmp_le(P(-k), S) is False:
            raise TorchError("index out of bounds", "IndexError")
        return norm(S + k)
    if cmp_lt(K, S) is False:
        raise TorchError(f"index {k} is out of bounds for dimension with size {size}", "IndexError")
    return k


def getitem(v, idx):
    """-> TVal"""
    items = parse_index(idx, v)
    axes, cells = list(v.axes), v.cells
    d = 0
    adv = []
    contig = v.contig
    seen_partial = False
    for it in items:
        if it[0] == "new":
            axes.insert(d, ("1",))
            d += 1
        elif it[0] == "int":
            k = norm_int_index(it[1], asize(axes[d]))
            if any(a[0] != "1" for a in axes[:d]):
                contig = False
            axes, cells = _take(axes, cells, d, k)
        elif it[0] == "slice":
            full = it[1] in (None, 0) and it[2] is None and it[3] in (None, 1)
            before = axes[d]
            axes, cells = _slice(axes, cells, d, it[1], it[2], it[3])
            if not full and axes[d] != before and (any(a[0] != "1" for a in axes[:d]) or it[3] not in (None, 1)):
                contig = False
            d += 1
        else:
            adv.append((d, it[1]))
            d += 1
    if not adv:
        return v.rep(axes=tuple(axes), cells=cells, contig=contig)
    return _adv_index(v, axes, cells, adv)


def _adv_index(v, axes, cells, adv):
    for _, t in adv:
        if t.dev != v.dev and not (t.dev == "C"):
            H.event("device", "indices on another device than the indexed tensor")
    baxes, bcells = broadcast([t for _, t in adv])
    dims = [d for d, _ in adv]
    contiguous = dims == list(range(dims[0], dims[0] + len(dims)))
    others = [a for k, a in enumerate(axes) if k not in dims]
    at = dims[0] if contiguous else 0
    raxes = others[:at] + list(baxes) + others[at:]
    noff = [sum(nE(x) for x in axes[:k]) for k in range(len(axes))]
    out = {}
    for bp in positions(enums(baxes)):
        cur_axes, cur = list(axes), cells
        for (d, _), bc in sorted(zip(adv, bcells), key=lambda x: -x[0][0]):
            e = bc[bp]
            cur_axes, cur = _gather(cur_axes, cur, d, e)
        k = sum(nE(a) for a in others[:at])
        for p, e in cur.items():
            out[p[:k] + bp + p[k:]] = e
    return v.rep(axes=tuple(raxes), cells=out, contig=True)


def _gather(axes, cells, d, e):
    """Index axis d by the integer expression e."""
    a = axes[d]
    if e.is_const and e.value.denominator == 1:
        k = norm_int_index(int(e.value), asize(a))
        return _take(axes, cells, d, k)
    f = X.single_factor(e)
    if f and f[0] == "T" and f[1][0] == "iota" and a[0] == "V":
        # index by position: diagonal pairing
        rest = list(axes[:d]) + list(axes[d + 1:])
        return rest, {p: subst(x, {a[1]: f[2][0]}) for p, x in cells.items()}
    off = sum(nE(x) for x in axes[:d])
    rest = list(axes[:d]) + list(axes[d + 1:])
    if a[0] == "1":
        return rest, cells
    if a[0] == "E":
        out = {}
        for p, x in cells.items():
            q = p[:off] + p[off + 1:]
            t = mul(X.compare("eq", e, E(p[off])), x)
            out[q] = out[q] + t if q in out else t
        return rest, out
    if a[0] == "V":
        hot = X.compare("eq", e, X.T("iota", (a[1],)))
        return rest, {p: bind(mul(hot, x), a[1]) for p, x in cells.items()}
    raise TooHard("gather on a fused axis")


def setitem(v, idx, val):
    """New value of v after v[idx] = val (val already a TVal)."""
    items = parse_index(idx, v)
    # shape of the indexed region
    reg = getitem(v.rep(), tuple(_unparse(items)))
    src = val
    while src.ndim > reg.ndim and src.axes[0][0] == "1":
        src = src.rep(axes=src.axes[1:])
    if src.ndim > reg.ndim:
        raise TorchError("shape mismatch in assignment")
    try:
        src = expand_like(src, reg.axes)
    except TorchError:
        raise TorchError(f"cannot assign a tensor of shape {list(val.shape)} to a region of shape {list(reg.shape)}")
    adv = [(k, it) for k, it in enumerate(items) if it[0] == "adv"]
    # unify src variables with region variables
    mp = _same_axes_subst(reg.axes, src.axes)
    if mp is None:
        raise TooHard("assignment with fused axes")
    src_cells = {p: subst(e, mp) for p, e in src.cells.items()}
    if adv:
        return _set_adv(v, items, reg, src_cells)
    out = dict(v.cells)
    # walk the axes of v: which positions / conditions are selected and the region coordinate
    plans = []          # per axis of v: ('pt', k) | ('all',) | ('rng', start, ln, step)
    d = 0
    rd = 0
    raxis = []
    for it in items:
        if it[0] == "new":
            rd += 1
            continue
        a = v.axes[d]
        if it[0] == "int":
            plans.append(("pt", norm_int_index(it[1], asize(a)), None))
        else:
            if a[0] == "F":
                plans.append(("all", None, reg.axes[rd]))
            else:
                start, ln, st = bound_slice(it[1], it[2], it[3], asize(a))
                plans.append(("rng", (start, ln, st), reg.axes[rd]))
            rd += 1
        d += 1
    ns = [nE(a) for a in v.axes]
    for p in v.cells:
        cond = ONE
        mp2 = {}
        q = []
        ok = True
        i = 0
        for a, n, (kind, arg, ra) in zip(v.axes, ns, plans):
            pp = p[i:i + n]
            i += n
            if kind == "all":
                q += pp
                for x, y in zip(avars([ra]), avars([a])):
                    mp2[x] = y
                continue
            if kind == "pt":
                if a[0] == "E":
                    if pp[0] != arg:
                        ok = False
                        break
                elif a[0] == "V":
                    cond = mul(cond, X.delta(a[1], ("c", X.cnorm(arg))))
                continue
            start, ln, st = arg
            if a[0] == "1":
                if ln == 0:
                    ok = False
                    break
                continue
            if a[0] == "E":
                x, r = divmod(pp[0] - start, st)
                if r or x < 0 or x >= ln:
                    ok = False
                    break
                if ra[0] == "E":
                    q.append(x)
                continue
            # V axis
            if isinstance(ln, int) and ln == 0:
                ok = False
                break
            if ra[0] == "V":
                if dim_eq(ln, asize(a)):
                    mp2[ra[1]] = a[1]
                    continue
                mp2[ra[1]] = X.ioff(a[1], -P(start))
                cond = mul(cond, X.less(a[1], P(start) + ln))
                if P(start).t:
                    cond = mul(cond, ONE - X.less(a[1], P(start)))
                continue
            # concrete window of a symbolic axis: sum over points
            q.append(("win", a[1], start, ln) if ra[0] == "E" else None)
            if ra[0] != "E":
                q.pop()
                cond = mul(cond, X.delta(a[1], ("c", X.cnorm(start))))
        if not ok:
            continue
        wins = [(k, w) for k, w in enumerate(q) if isinstance(w, tuple)]
        old = out[p]
        if not wins:
            new = subst(src_cells[tuple(q)], mp2)
            out[p] = new if cond == ONE else mul(cond, new) + mul(ONE - cond, old)
        else:
            res = old
            for combo in positions([w[3] for _, w in wins]):
                q2 = list(q)
                c2 = cond
                for (k, w), x in zip(wins, combo):
                    q2[k] = x
                    c2 = mul(c2, X.delta(w[1], ("c", X.cnorm(P(w[2]) + x))))
                new = subst(src_cells[tuple(q2)], mp2)
                res = res + mul(c2, new - old)
            out[p] = res
    return v.rep(cells=out)


def _unparse(items):
    for it in items:
        if it[0] == "new":
            yield None
        elif it[0] == "int":
            yield it[1]
        elif it[0] == "slice":
            yield slice(it[1], it[2], it[3])
        else:
            yield it[1]


def _set_adv(v, items, reg, src_cells):
    """Assignment through integer tensors (all index tensors 0-dim)."""
    if any(it[0] == "adv" and it[1].ndim for it in items):
        raise TooHard("assignment through index tensors")
    cells = dict(v.cells)
    # treat each 0-dim index as a symbolic point
    ns = [nE(a) for a in v.axes]
    d = 0
    sels = []
    for it in items:
        if it[0] == "new":
            raise TooHard("assignment")
        sels.append((d, it))
        d += 1
    for p in list(cells):
        cond = ONE
        q, i = [], 0
        mp = {}
        ok = True
        rk = 0
        for (dd, it) in sels:
            a = v.axes[dd]
            n = ns[dd]
            pp = p[i:i + n]
            i += n
            if it[0] == "adv":
                e = it[1].scalar
                if a[0] == "E":
                    cond = mul(cond, X.compare("eq", e, E(pp[0])))
                elif a[0] == "V":
                    cond = mul(cond, X.compare("eq", e, X.T("iota", (a[1],))))
            elif it[0] == "int":
                k = norm_int_index(it[1], asize(a))
                if a[0] == "E":
                    ok = ok and pp[0] == k
                elif a[0] == "V":
                    cond = mul(cond, X.delta(a[1], ("c", X.cnorm(k))))
            elif it[1] is None and it[2] is None and it[3] in (None, 1):
                q += pp
                for x, y in zip(avars([reg.axes[rk]]), avars([a])):
                    mp[x] = y
                rk += 1
            else:
                raise TooHard("assignment")
        if ok:
            new = subst(src_cells[tuple(q)], mp)
            cells[p] = mul(cond, new) + mul(ONE - cond, cells[p])
    return v.rep(cells=cells)


# ---------------------------------------------------------------- joining
def cat(vals, dim):
    vals = [v for v in vals if not (v.ndim == 1 and v.shape == (0,))] or vals[:1]
    n = vals[0].ndim
    if n == 0:
        raise TorchError("zero-dimensional tensor cannot be concatenated")
    dim = normdim(dim, n)
    for v in vals:
        if v.ndim != n:
            raise TorchError("Tensors must have same number of dimensions")
        for k in range(n):
            if k != dim and not dim_eq(v.shape[k], vals[0].shape[k]):
                raise TorchError(f"Sizes of tensors must match except in dimension {dim}: {v.shape[k]} and {vals[0].shape[k]}")
    kinds = {v.dt for v in vals}
    dev = vals[0].dev
    if len({v.dev for v in vals}) > 1:
        H.event("device", "concatenating tensors of different devices")
        dev = "M"
    dt = promote_dt(vals) if len(kinds) > 1 else vals[0].dt
    parts = [v for v in vals if v.axes[dim] != ("E", 0)]
    if len(parts) == 1:
        return parts[0].rep(dt=dt, dev=dev, contig=True)
    if not parts:
        return vals[0].rep(dt=dt, dev=dev, contig=True)
    ref = parts[0]
    aligned = []
    for v in parts:
        mp = {}
        for k in range(n):
            if k == dim:
                continue
            m = _same_axes_subst([ref.axes[k]], [v.axes[k]])
            if m is None:
                raise TooHard("cat with fused axes")
            mp.update(m)
        aligned.append((v.axes[dim], {p: subst(e, mp) for p, e in v.cells.items()}))
    off = sum(nE(x) for x in ref.axes[:dim])
    if all(a[0] in "1E" for a, _ in aligned):
        tot = 0
        out = {}
        for a, cells in aligned:
            sz = asize(a)
            for p, e in cells.items():
                if a[0] == "1":
                    out[p[:off] + (tot,) + p[off:]] = e
                else:
                    out[p[:off] + (tot + p[off],) + p[off + 1:]] = e
            tot += sz
        axes = list(ref.axes)
        axes[dim] = ("E", tot)
        return TVal(axes, out, dt, dev)
    if any(a[0] == "F" for a, _ in aligned):
        raise TooHard("cat of fused axes")
    tot = P(0)
    for a, _ in aligned:
        tot = tot + P(asize(a))
    v = newvar(norm(tot))
    axes = list(ref.axes)
    axes[dim] = ("V", v)
    out = {}
    start = P(0)
    for a, cells in aligned:
        sz = P(asize(a))
        c = X.less(v, start + sz)
        if start.t:
            c = mul(c, ONE - X.less(v, start))
        for p, e in cells.items():
            if a[0] == "V":
                q, t = p, mul(c, subst(e, {a[1]: X.ioff(v, -start)}))
            elif a[0] == "1":
                q, t = p, mul(X.delta(v, ("c", X.cnorm(start))), e)
            else:
                q = p[:off] + p[off + 1:]
                t = mul(X.delta(v, ("c", X.cnorm(start + p[off]))), e)
            out[q] = out[q] + t if q in out else t
        start = start + sz
    return TVal(axes, out, dt, dev)


def stack(vals, dim):
    if not vals:
        raise TorchError("stack expects a non-empty TensorList")
    n = vals[0].ndim
    for v in vals:
        if v.ndim != n or not all(dim_eq(a, b) for a, b in zip(v.shape, vals[0].shape)):
            raise TorchError(f"stack expects each tensor to be equal size, but got {list(vals[0].shape)} and {list(v.shape)}")
    d = dim if dim >= 0 else dim + n + 1
    if d < 0 or d > n:
        raise TorchError("stack: dim out of range", "IndexError")
    return cat([unsqueeze(v, d) for v in vals], d)


def diag_embed1(v):
    """1-d -> diagonal matrix."""
    a = v.axes[0]
    if a[0] == "1":
        return v.rep(axes=(("1",), ("1",)))
    if a[0] == "E":
        n = a[1]
        return v.rep(axes=(a, a), cells={(i, j): (v.cells[(i,)] if i == j else ZERO) for i in range(n) for j in range(n)}, contig=True)
    if a[0] == "V":
        j = newvar(VSIZE[a[1]])
        return v.rep(axes=(a, ("V", j)), cells={p: mul(e, X.delta(a[1], j)) for p, e in v.cells.items()}, contig=True)
    raise TooHard("diag")


def diagonal(v, d1, d2):
    d1, d2 = normdim(d1, v.ndim), normdim(d2, v.ndim)
    a, b = v.axes[d1], v.axes[d2]
    perm = [k for k in range(v.ndim) if k not in (d1, d2)] + [d1, d2]
    w = permute(v, perm)
    a, b = w.axes[-2], w.axes[-1]
    if not dim_eq(asize(a), asize(b)):
        raise TooHard("diagonal of a non-square tensor")
    base = list(w.axes[:-2])
    if a[0] == "1":
        return w.rep(axes=tuple(base + [a]), contig=True)
    if a[0] == "E":
        return w.rep(axes=tuple(base + [a]), cells={p[:-1]: e for p, e in w.cells.items() if p[-1] == p[-2]}, contig=True)
    if a[0] == "V" and b[0] == "V":
        return w.rep(axes=tuple(base + [a]), cells={p: subst(e, {b[1]: a[1]}) for p, e in w.cells.items()}, contig=True)
    raise TooHard("diagonal")


def eye(n, m, dt, dev):
    n, m = norm(n), norm(m)
    a, b = axis_for(n), axis_for(m)
    axes = (a, b)
    cells = {}
    for p in positions(enums(axes)):
        if a[0] == "E" and b[0] == "E":
            e = E(p[0] == p[1])
        else:
            ia = ("c", 0) if a[0] == "1" else (("c", p[0]) if a[0] == "E" else a[1])
            ib = ("c", 0) if b[0] == "1" else (("c", p[-1]) if b[0] == "E" else b[1])
            if not isinstance(ia, int) and not isinstance(ib, int):
                e = E(ia == ib)
            else:
                e = X.delta(ia, ib)
                if a[0] == b[0] == "V" and not dim_eq(n, m):
                    lt = cmp_lt(P(n), P(m))
                    pass
        cells[p] = e
    return TVal(axes, cells, dt, dev)


# ---------------------------------------------------------------- einsum
def einsum(ops, labels, out, what="einsum"):
    """ops: TVals, labels: list of tuples of hashable labels, out: tuple of labels."""
    ops = [fresh(v) for v in ops]
    dev = join_dev(ops, what)
    check_dtypes(ops, what)
    dt = promote_dt(ops)
    # diagonalise repeated labels within an operand
    norm_ops = []
    for v, lab in zip(ops, labels):
        lab = list(lab)
        if len(lab) != v.ndim:
            raise TorchError(f"{what}: the number of subscripts {lab} does not match the number of axes {v.ndim}")
        k = 0
        while k < len(lab):
            if lab[k] in lab[:k]:
                j = lab.index(lab[k])
                if not dim_eq(v.shape[j], v.shape[k]):
                    raise TorchError(f"{what}: repeated subscript {lab[k]} with different sizes {v.shape[j]} and {v.shape[k]}")
                v = diagonal(v, j, k)
                l = lab[k]
                lab = [x for i, x in enumerate(lab) if i not in (j, k)] + [l]
                k = 0
                continue
            k += 1
        norm_ops.append((v, lab))
    # sizes
    size_ax = {}
    for v, lab in norm_ops:
        for a, l in zip(v.axes, lab):
            if l not in size_ax or size_ax[l][0] == "1":
                size_ax[l] = a
            elif a[0] != "1" and not dim_eq(asize(a), asize(size_ax[l])):
                raise TorchError(f"{what}: operands do not broadcast on subscript {l!r}: sizes {asize(size_ax[l])} and {asize(a)}")
            if a[0] != "1" and size_ax[l][0] == "V" and VTAG.get(a[1] if a[0] == "V" else None) == "b":
                size_ax[l] = a
    for l in out:
        if l not in size_ax:
            raise TorchError(f"{what}: output subscript {l!r} does not appear in any input")
    if len(set(out)) != len(out):
        raise TorchError(f"{what}: output subscript appears more than once")
    # einsum does broadcast size-1 axes in torch; keep that
    # fused axes: only allowed as free labels on one operand or identical structure
    var_of = {}
    for l, a in size_ax.items():
        var_of[l] = a
    prepared = []
    for v, lab in norm_ops:
        mp = {}
        for a, l in zip(v.axes, lab):
            if a[0] == "1":
                continue
            m = _same_axes_subst([var_of[l]], [a])
            if m is None:
                raise TooHard("einsum over differently fused axes")
            mp.update(m)
        prepared.append((v, lab, {p: subst(e, mp) for p, e in v.cells.items()}))
    contracted = [l for l in size_ax if l not in out]
    # contract pairwise over enumerated positions: sequential accumulate
    acc_lab, acc = [], {(): ONE}      # labels with enumerations
    remaining = list(prepared)
    todo = list(contracted)
    cur_labels = []
    cur = {(): ONE}

    def ens(l):
        return nE(var_of[l])
    for n_op, (v, lab, cells) in enumerate(remaining):
        later = set()
        for v2, lab2, _ in remaining[n_op + 1:]:
            later |= set(lab2)
        # E-labels of the operand (its own non-1 axes)
        own = [(l, nE(a)) for a, l in zip(v.axes, lab)]
        new_labels = cur_labels + [l for l, n in own if l not in cur_labels and n]
        # join
        res = {}
        index = {}
        cur_pos = {}
        o = 0
        for l in cur_labels:
            cur_pos[l] = (o, o + ens(l))
            o += ens(l)
        for p, e in cells.items():
            i = 0
            d = {}
            for l, n in own:
                if n:
                    d[l] = p[i:i + n]
                i += n
            sig = tuple(d[l] for l in cur_labels if l in d)
            index.setdefault(sig, []).append((d, e))
        shared = [l for l in cur_labels if any(l == x and n for x, n in own)]
        for cp, ce in cur.items():
            sig = tuple(cp[cur_pos[l][0]:cur_pos[l][1]] for l in shared)
            for d, e in index.get(sig, ()):
                q = cp
                for l in new_labels[len(cur_labels):]:
                    q = q + d[l]
                t = mul(ce, e)
                if q in res:
                    res[q] = res[q] + t
                else:
                    res[q] = t
        cur, cur_labels = res, new_labels
        # sum labels finished
        for l in list(todo):
            if l in later or l not in lab and l not in cur_labels and not _seen(l, remaining[:n_op + 1]):
                continue
            todo.remove(l)
            a = var_of[l]
            if l in cur_labels and nE(a):
                o = 0
                for x in cur_labels:
                    if x == l:
                        break
                    o += ens(x)
                n = ens(l)
                new = {}
                for p, e in cur.items():
                    q = p[:o] + p[o + n:]
                    new[q] = new[q] + e if q in new else e
                cur = new
                cur_labels = [x for x in cur_labels if x != l]
            for vv in avars([a]):
                cur = {p: bind(e, vv) for p, e in cur.items()}
    # E label with no cells (size 0)
    axes = [var_of[l] for l in out]
    need = positions(enums(axes))
    final = {}
    pos = {}
    o = 0
    for l in cur_labels:
        pos[l] = (o, o + ens(l))
        o += ens(l)
    for p in need:
        i = 0
        q = [None] * o
        for l, a in zip(out, axes):
            n = nE(a)
            if n:
                q[pos[l][0]:pos[l][1]] = p[i:i + n]
            i += n
        final[p] = cur.get(tuple(q), ZERO)
    return TVal(axes, final, dt, dev)


def _seen(l, ops):
    return any(l in lab for _, lab, _ in ops)


def check_dtypes(ops, what):
    """Contractions need one common dtype."""
    dts = {v.dt for v in ops}
    if len(dts) <= 1:
        return
    if any(d.kind in "ib" for d in dts):
        H.event("dtype", f"{what} of tensors with dtypes {sorted(map(repr, dts))}")
        return
    H.event("dtype", f"{what} mixes {' and '.join(sorted(map(name_dt, dts)))} tensors")


def name_dt(d):
    return {"f": "real", "c": "complex", "i": "integer", "b": "bool"}[d.kind] + \
        {"P": " (model precision)", "D": " (default precision)", "64": " (double)", "16": " (half)"}.get(d.prec, "")


def matmul(a, b, what="matmul"):
    if a.ndim == 0 or b.ndim == 0:
        raise TorchError("matmul: both arguments need at least 1 axis")
    la = [("A", k) for k in range(a.ndim)]
    lb = [("B", k) for k in range(b.ndim)]
    # contracted
    ca = a.ndim - 1
    cb = b.ndim - 2 if b.ndim > 1 else 0
    if not dim_eq(a.shape[ca], b.shape[cb]):
        raise TorchError(f"matmul: inner sizes differ: {list(a.shape)} @ {list(b.shape)}")
    la[ca] = lb[cb] = "c"
    # batch
    na, nb = max(a.ndim - 2, 0), max(b.ndim - 2, 0)
    n = max(na, nb)
    batch = []
    for k in range(n):
        l = ("N", k)
        sa = sb = None
        if k - (n - na) >= 0:
            la[k - (n - na)] = l
            sa = a.shape[k - (n - na)]
        if k - (n - nb) >= 0:
            lb[k - (n - nb)] = l
            sb = b.shape[k - (n - nb)]
        if sa is not None and sb is not None and sa != 1 and sb != 1 and not dim_eq(sa, sb):
            raise TorchError(f"matmul: batch sizes differ: {list(a.shape)} @ {list(b.shape)}")
        batch.append(l)
    out = list(batch)
    if a.ndim > 1:
        out.append(la[-2])
    if b.ndim > 1:
        out.append(lb[-1])
    return einsum([a, b], [tuple(la), tuple(lb)], tuple(out), what)


def same_value(a, b):
    """Cell-wise difference of two tensors with equal structure: None if equal."""
    mp = _same_axes_subst(a.axes, b.axes)
    if mp is None:
        if len(a.shape) == len(b.shape) and all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return ("structure",)
        return "shape %s instead of %s" % (list(a.shape), list(b.shape))
    for p, e in a.cells.items():
        f = subst(b.cells[p], mp)
        if not eq_expr(e, f):
            return (p, e, f)
    return None


def eq_expr(a, b):
    if a == b:
        return True
    d = X.expand(a) - X.expand(b)
    if not d.d:
        return True
    # clear denominators id(..)^-k
    for _ in range(4):
        dens = {}
        for m in d.d:
            for comp, x in m:
                f = comp[0][0][0] if X._single(comp) else None
                if f and f[0] == "F" and X.FN[f[1]][0] == "id" and x < 0 and x.denominator == 1:
                    dens[comp] = min(dens.get(comp, 0), x)
        if not dens:
            return False
        for comp, x in dens.items():
            d = X.mul(d, Expr({frozenset([(comp, -x)]): Fraction(1)}))
        d = X.expand(d)
        if not d.d:
            return True
    return False
