"""Index-labelled multilinear terms: the abstract content of one tensor entry.

An Expr is a linear combination of monomials; a monomial is a product of
components with rational exponents; a component is a connected product of
factors summed over its bound indices (an einsum term).  Factors are

  ('T', (name, coords, conj, ng), idx)   entry of a named base tensor
  ('D', None, (i, j))                    Kronecker delta
  ('L', size, (i,))                      indicator [i < size]
  ('F', fid, idx)                        elementwise function of Exprs
  ('N', name, ())                        number (symbolic size, pi, ...)

An index is a positive int (free), a negative int (bound inside a component),
('c', k) (constant), ('o', var, off) (var + off).  All forms are kept
canonical, so equal tensor-network expressions are equal Python objects; no
search or solver is involved.  `ng` marks entries that carry no gradient.
"""
from fractions import Fraction
from functools import lru_cache
from itertools import permutations
from .poly import Poly, P, cmp_le, cmp_lt, cmp_eq
from . import poly as _poly

F1 = Fraction(1)
VSIZE = {}      # free variable -> size
VTAG = {}       # free variable -> tag ('b' batch ...)
TINFO = {}      # base tensor name -> dict(real, param, herm, ...)
FN = []         # fid -> (fname, args, extra)
_FNKEY = {}
_ctr = [1000]

POSF = {"abs", "exp", "sqrt", "gt", "ge", "eq", "lt", "le", "ne", "sigmoid", "isfin", "svdS", "and", "or", "not"}
REALF = POSF | {"re", "im", "sign", "arg", "floor"}


class TooHard(Exception):
    """The analysis gives no answer here."""


def reset():
    VSIZE.clear(); VTAG.clear(); TINFO.clear(); FN.clear(); _FNKEY.clear()
    _ctr[0] = 1000
    for f in (_canon_cached, _subst_comp, conj_comp, skey, _expand_F, pos_comp):
        f.cache_clear()


def newvar(size, tag=None):
    _ctr[0] += 1
    VSIZE[_ctr[0]] = size
    if tag:
        VTAG[_ctr[0]] = tag
    return _ctr[0]


@lru_cache(maxsize=None)
def skey(x):
    return repr(x)


# ---------------------------------------------------------------- indices
def ivar(i):
    if isinstance(i, int):
        return i
    return i[1] if i[0] == "o" else None


def fvars(f):
    return [ivar(i) for i in f[2] if ivar(i) is not None]


def isub(i, mp):
    """Substitute in one index item; mp: var -> item."""
    if isinstance(i, int):
        return mp.get(i, i)
    if i[0] == "o":
        r = mp.get(i[1])
        if r is None:
            return i
        return ioff(r, i[2])
    return i


def ioff(i, off):
    off = P(off)
    if not off.t:
        return i
    if isinstance(i, int):
        return ("o", i, off)
    if i[0] == "o":
        o = i[2] + off
        return ("o", i[1], o) if o.t else i[1]
    return ("c", cnorm(P(i[1]) + off))


def cnorm(k):
    p = P(k)
    v = p.as_int()
    return v if v is not None else p


# ---------------------------------------------------------------- Expr
class Expr:
    __slots__ = ("d", "_k", "_fv")

    def __init__(self, d):
        self.d = d
        self._k = None
        self._fv = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Expr) and self.key == o.key

    def __repr__(self):
        return show(self)

    # algebra
    def __add__(self, o):
        o = E(o)
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Expr(r)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) - self

    def __mul__(self, o):
        return mul(self, E(o))

    __rmul__ = __mul__

    @property
    def is_const(self):
        return not self.d or (len(self.d) == 1 and ONEM in self.d)

    @property
    def value(self):
        return self.d.get(ONEM, Fraction(0))

    @property
    def free(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for comp, _ in m:
                    s |= comp_free(comp)
            self._fv = frozenset(s)
        return self._fv


ONEM = frozenset()
ZERO = Expr({})
ONE = Expr({ONEM: F1})


def E(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Expr({ONEM: Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return number(repr(x))
        f = Fraction(repr(x))
        return Expr({ONEM: f}) if f else ZERO
    if isinstance(x, Poly):
        return from_poly(x)
    raise TypeError(f"E({x!r})")


def number(name, e=1):
    return Expr({frozenset(((((("N", name, ()), F1),), ()), Fraction(e)) for _ in (0,)): F1})


def from_poly(p):
    r = ZERO
    for m, c in p.t.items():
        t = Expr({ONEM: c})
        for a, e in m:
            if a[0] == "inv":
                t = t * powr(from_poly(a[1]), -e)
            elif a[0] == "s":
                t = t * number(a[1], e)
            else:
                t = t * number(repr(Poly({((a, 1),): F1})), e)
        r = r + t
    return r


def atom(factor):
    return _norm_factors([(factor, F1)], {})


def T(name, idx=(), coords=(), conj=False, ng=False):
    return atom(("T", (name, tuple(coords), conj, ng), tuple(idx)))


def delta(i, j):
    return atom(("D", None, (i, j)))


def less(i, k):
    return atom(("L", P(k), (i,)))


@lru_cache(maxsize=None)
def comp_free(comp):
    s = set()
    for f, _ in comp[0]:
        for i in f[2]:
            v = ivar(i)
            if v is not None and v > 0:
                s.add(v)
    return frozenset(s)


# ---------------------------------------------------------------- products
def nonfinite(e):
    """Some term has a factor that is infinite or nan."""
    for m in e.d:
        for comp, x in m:
            for f, _ in comp[0]:
                if x > 0 and f[0] == "N" and f[1] in ("inf", "-inf", "nan"):
                    return True
    return False


def mul(a, b):
    if a.is_const:
        v = a.value
        if v == 0:
            return number("nan") if nonfinite(b) else ZERO
        return b if v == 1 else Expr({m: c * v for m, c in b.d.items()})
    if b.is_const:
        return mul(b, a)
    out = {}
    extra = None
    if len(a.d) * len(b.d) > 60000:
        raise TooHard("expression too large")
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            r = mono_mul(m1, m2)
            if r is None:
                continue
            if isinstance(r, Expr):
                extra = (extra or ZERO) + scale(r, c1 * c2)
                continue
            s, m = r
            v = out.get(m, 0) + c1 * c2 * s
            if v:
                out[m] = v
            else:
                del out[m]
    res = Expr(out)
    return res + extra if extra is not None else res


def scale(e, k):
    if k == 1:
        return e
    return Expr({m: c * k for m, c in e.d.items()}) if k else ZERO


def _single(comp):
    return len(comp[0]) == 1 and not comp[1]


def mono_mul(m1, m2):
    """-> (sign, mono) | None (zero) | Expr."""
    if not m1:
        return (1, m2)
    if not m2:
        return (1, m1)
    d = dict(m1)
    touched = False
    for comp, e in m2:
        d[comp] = d.get(comp, 0) + e
    sign = 1
    special = False
    for comp in list(d):
        e = d[comp]
        if e == 0:
            del d[comp]
            continue
        if _single(comp):
            f = comp[0][0][0]
            k = f[0]
            if k in ("D", "L") or (k == "F" and FN[f[1]][0] in ("eq", "gt", "lt", "ge", "le", "ne")):
                if e > 1:
                    d[comp] = F1
                if k in ("D", "L"):
                    special = True
            elif k == "N" and f[1] == "I" and (e >= 2 or e < 0):
                q, r = divmod(int(e), 2)
                sign *= (-1) ** (q % 2)
                if r:
                    d[comp] = F1
                else:
                    del d[comp]
            elif k == "N" and f[1].isdigit() and not 0 < e < 1:
                q = e.numerator // e.denominator
                sign *= Fraction(int(f[1])) ** q
                if e == q:
                    del d[comp]
                else:
                    d[comp] = e - q
    if special and len(d) > 1:
        return rebuild(d, sign)
    return (sign, frozenset(d.items()))


def unpack(comp, e):
    """Factors of comp^e with its bound variables renamed to fresh ones."""
    if _single(comp):
        return [(comp[0][0][0], e)], {}
    if e.denominator != 1 or e < 0:
        f = fn("id", [Expr({frozenset([(comp, F1)]): F1})])
        (m, c), = f.d.items()
        (cc, ee), = m
        return [(cc[0][0][0], e * ee)], {}
    fs, bd = [], {}
    for _ in range(int(e)):
        mp = {}
        for k, sz in enumerate(comp[1]):
            v = newvar(sz)
            mp[-(k + 1)] = v
            bd[v] = sz
        for f, x in comp[0]:
            fs.append(((f[0], f[1], tuple(isub(i, mp) for i in f[2])), x))
    return fs, bd


def rebuild(d, sign=1):
    fs, bd = [], {}
    for comp, e in d.items():
        a, b = unpack(comp, e) if (_single(comp) or comp_free(comp)) else (None, None)
        if a is None:
            continue
        fs += a
        bd.update(b)
    r = _norm_factors(fs, bd)
    rest = frozenset((c, e) for c, e in d.items() if not (_single(c) or comp_free(c)))
    if rest:
        out = {}
        for m, c in r.d.items():
            dd = dict(m)
            for k, e in rest:
                dd[k] = dd.get(k, 0) + e
                if dd[k] == 0:
                    del dd[k]
            mm = frozenset(dd.items())
            v = out.get(mm, 0) + c
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
        r = Expr(out)
    return scale(r, sign)


def _norm_factors(fs, bound):
    """Expr of sum over `bound` (var -> size) of the product of fs."""
    d = {}
    for f, e in fs:
        d[f] = d.get(f, 0) + e
    bound = dict(bound)
    coef = F1
    extra = []
    changed = True
    while changed:
        changed = False
        for f in list(d):
            e = d[f]
            if e == 0:
                del d[f]
                continue
            if f[0] == "D":
                i, j = f[2]
                if e < 0:
                    raise TooHard("division by delta")
                r = _simp_delta(i, j, bound)
                if r is None:
                    if e != 1:
                        d[f] = F1
                    continue
                kind = r[0]
                del d[f]
                if kind == "zero":
                    return ZERO
                if kind == "one":
                    changed = True
                    break
                if kind == "sub":        # substitute var -> item everywhere
                    _, v, it, keep = r
                    hit = any(v in fvars(g) for g in d)
                    if hit:
                        nd = {}
                        for g, x in d.items():
                            h = (g[0], g[1], tuple(isub(i, {v: it}) for i in g[2])) if v in fvars(g) else g
                            nd[h] = nd.get(h, 0) + x
                        d = nd
                    bound.pop(v, None)
                    if keep is not None:
                        d[keep] = F1
                        if not hit and keep == f:
                            continue
                    changed = True
                    break
            elif f[0] == "L":
                i, k = f[2][0], f[1]
                r = _simp_less(i, k, bound)
                if r == 1:
                    del d[f]
                    changed = True
                    break
                if r == 0:
                    return ZERO
                if r is not None:
                    del d[f]
                    d[r] = F1
                    changed = True
                    break
                if e != 1:
                    d[f] = F1
            elif f[0] == "T" and f[1][0] == "iota" and not isinstance(f[2][0], int):
                i = f[2][0]
                del d[f]
                if e.denominator != 1 or e < 0:
                    raise TooHard("iota power")
                val = E(P(i[1])) if i[0] == "c" else T("iota", (i[1],)) + E(i[2])
                for _ in range(int(e)):
                    extra.append(val)
                changed = True
                break
            elif f[0] == "F" and (any(not isinstance(i, int) for i in f[2]) or len(set(f[2])) != len(f[2])):
                del d[f]
                extra.append(powr(_refn(f), e))
                changed = True
                break
    if extra:
        # an inlined factor: multiply first, bind afterwards
        r = _norm_factors(list(d.items()), {})
        for x in extra:
            r = mul(r, x)
        for v, sz in bound.items():
            r = bind(r, v, sz)
        return r
    return _assemble(d, bound, coef)


def _simp_delta(i, j, bound):
    """None (nothing to do) or ('zero',) ('one',) ('sub', var, item, keep)."""
    if i == j:
        return ("one",)
    vi, vj = ivar(i), ivar(j)
    if vi is None and vj is None:
        r = cmp_eq(P(i[1]), P(j[1]))
        if r is True:
            return ("one",)
        return ("zero",)
    # prefer eliminating a bound variable
    for a, b in ((i, j), (j, i)):
        if isinstance(a, int) and a in bound:
            # range check for constants is assumed (indices in range)
            if not isinstance(b, int) and b[0] == "o":
                return None
            return ("sub", a, b, None)
    for a, b in ((i, j), (j, i)):
        if not isinstance(a, int) and a[0] == "o":
            if ivar(b) is None:   # var + off == const
                k = cnorm(P(b[1]) - a[2])
                if isinstance(k, int) and k < 0:
                    return ("zero",)
                v = a[1]
                return ("sub", v, ("c", k), ("D", None, (v, ("c", k)))) if v not in bound else ("sub", v, ("c", k), None)
            return None
    # free variables: substitute but keep the delta
    if vi is None or (vj is not None and vj > vi):
        i, j, vi, vj = j, i, vj, vi
    # now i is the larger free variable (or the only one)
    keep = ("D", None, (j, i))
    return ("sub", i, j, keep)


def _simp_less(i, k, bound):
    if isinstance(i, int):
        sz = bound.get(i, VSIZE.get(i))
        if sz is None:
            return None
        if cmp_le(P(sz), k):
            return 1
        if k.is_const and k.value <= 0:
            return 0
        return None
    if i[0] == "c":
        r = cmp_lt(P(i[1]), k)
        if r is True:
            return 1
        if r is False:
            return 0
        return None
    return ("L", k - i[2], (i[1],))


def _refn(f):
    """Re-create a function factor whose index list is not all distinct vars."""
    name, args, extra = FN[f[1]]
    mp = {k + 1: i for k, i in enumerate(f[2])}
    new = [subst(a, mp) for a in args]
    return fn(name, new, extra)


def _assemble(d, bound, coef):
    """Split into components, canonicalise each."""
    used = set()
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x

    for f in d:
        vs = [v for v in fvars(f) if v in bound]
        used.update(vs)
        for v in vs[1:]:
            parent[find(v)] = find(vs[0])
    groups, singles = {}, {}
    for f, e in d.items():
        vs = [v for v in fvars(f) if v in bound]
        if vs:
            groups.setdefault(find(vs[0]), []).append((f, e))
        else:
            singles[f] = e
    mono = {}
    res = ONE
    for f, e in singles.items():
        if f[0] == "D":
            f = (f[0], f[1], tuple(sorted(f[2], key=skey)))
        c = (((f, F1),), ())
        mono[c] = mono.get(c, 0) + e
    for root, fl in groups.items():
        bs = {v: bound[v] for f, _ in fl for v in fvars(f) if v in bound}
        c = canon(fl, bs)
        mono[c] = mono.get(c, 0) + 1
    mono = {c: Fraction(e) for c, e in mono.items() if e}
    for c in list(mono):
        if _single(c) and mono[c] > 1:
            f = c[0][0][0]
            if f[0] in ("D", "L") or (f[0] == "F" and FN[f[1]][0] in ("eq", "gt", "lt", "ge", "le", "ne")):
                mono[c] = F1
            elif f[0] == "N" and f[1] == "I":
                q, r = divmod(int(mono[c]), 2)
                coef *= (-1) ** (q % 2)
                if r:
                    mono[c] = F1
                else:
                    del mono[c]
    res = Expr({frozenset(mono.items()): coef})
    for v, sz in bound.items():
        if v not in used:
            res = mul(res, E(P(sz)))
    return res


def canon(fl, bs):
    """Canonical component for factors fl with bound variables bs."""
    key = frozenset(fl)
    return _canon_cached(key, tuple(sorted(bs.items())))


@lru_cache(maxsize=200000)
def _canon_cached(key, bs):
    fl = list(key)
    sizes = dict(bs)
    color = {v: (repr(sizes[v]),) for v in sizes}

    def pos(f, k):
        return 0 if f[0] == "D" else k

    def refine(color):
        n = len(set(color.values()))
        while True:
            fs = {}
            for f, e in fl:
                it = tuple(("v", color[i]) if i in sizes else
                           (("ov", color[i[1]], repr(i[2])) if not isinstance(i, int) and i[0] == "o" and i[1] in sizes
                            else ("x", repr(i))) for i in f[2])
                if f[0] == "D":
                    it = tuple(sorted(it, key=repr))
                fs[f, e] = (f[0], repr(f[1]), repr(e), it)
            new = {}
            for v in sizes:
                sig = sorted(repr((fs[f, e], [pos(f, k) for k, i in enumerate(f[2]) if ivar(i) == v]))
                             for f, e in fl if v in fvars(f))
                new[v] = (color[v], tuple(sig))
            ranks = {c: r for r, c in enumerate(sorted(set(new.values()), key=repr))}
            color = {v: ranks[new[v]] for v in sizes}
            m = len(ranks)
            if m == n:
                return color
            n = m

    best = [None]
    budget = [200]

    def emit(color):
        order = sorted(sizes, key=lambda v: color[v])
        mp = {v: -(k + 1) for k, v in enumerate(order)}
        out = []
        for f, e in fl:
            idx = tuple(isub(i, mp) for i in f[2])
            if f[0] == "D":
                idx = tuple(sorted(idx, key=skey))
            out.append(((f[0], f[1], idx), e))
        out.sort(key=lambda x: skey(x))
        cand = (tuple(out), tuple(sizes[v] for v in order))
        k = repr(cand)
        if best[0] is None or k < best[0][0]:
            best[0] = (k, cand)

    def search(color):
        budget[0] -= 1
        byc = {}
        for v in sizes:
            byc.setdefault(color[v], []).append(v)
        tied = [c for c in sorted(byc) if len(byc[c]) > 1]
        if not tied:
            emit(color)
            return
        c = tied[0]
        cands = byc[c]
        if len(cands) > 6 or budget[0] < 0:
            cands = cands[:1]
        for v in cands:
            c2 = {w: (color[w] * 2 + (1 if w in byc[c] and w != v else 0)) for w in sizes}
            search(refine(c2))

    search(refine(color))
    return best[0][1]


# ---------------------------------------------------------------- sums
def bind(e, var, size=None):
    size = size if size is not None else VSIZE[var]
    out = ZERO
    for m, c in e.d.items():
        hit, rest = [], []
        for comp, x in m:
            (hit if var in comp_free(comp) else rest).append((comp, x))
        if not hit:
            out = out + scale(mul(Expr({m: F1}), E(P(size))), c)
            continue
        fs, bd = [], {var: size}
        for comp, x in hit:
            a, b = unpack(comp, x)
            fs += a
            bd.update(b)
        r = _norm_factors(fs, bd)
        out = out + scale(mul(r, Expr({frozenset(rest): F1})), c)
    return out


def subst(e, mp):
    """Replace free variables by index items."""
    if not mp or not (e.free & set(mp)):
        return e
    out = {}
    extra = ZERO
    fm = tuple(sorted(mp.items(), key=repr))
    for m, c in e.d.items():
        r = ONE
        for comp, x in m:
            if comp_free(comp) & set(mp):
                r = mul(r, powr(_subst_comp(comp, fm), x))
            else:
                r = mul(r, Expr({frozenset([(comp, x)]): F1}))
        for mm, cc in r.d.items():
            v = out.get(mm, 0) + cc * c
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
    return Expr(out)


@lru_cache(maxsize=200000)
def _subst_comp(comp, fm):
    mp = dict(fm)
    fs, bd = unpack(comp, F1)
    return _norm_factors([((f[0], f[1], tuple(isub(i, mp) for i in f[2])), x) for f, x in fs], bd)


# ---------------------------------------------------------------- functions
def fn(name, args, extra=None, red=()):
    """Elementwise (or reducing, over variables red) opaque function."""
    args = [E(a) for a in args]
    fv = set()
    for a in args:
        fv |= a.free
    fv -= set(red)
    order = canon_free(args, sorted(fv), red)
    mp = {v: k + 1 for k, v in enumerate(order)}
    for k, v in enumerate(red):
        mp[v] = 900 + k
    cargs = tuple(rename(a, mp) for a in args)
    ckey = (name, cargs, extra)
    fid = _FNKEY.get(ckey)
    if fid is None:
        fid = len(FN)
        FN.append((name, cargs, extra))
        _FNKEY[ckey] = fid
    f = ("F", fid, tuple(order))
    return Expr({frozenset([((((f, F1),), ()), F1)]): F1})


def rename(e, mp):
    """Injective variable renaming."""
    return subst(e, {k: v for k, v in mp.items() if k != v}) if e.free & set(mp) else e


def canon_free(args, fv, red=()):
    if len(fv) <= 1:
        return list(fv)
    color = {v: 0 for v in fv}

    def sig(comp, color, me):
        out = []
        for f, e in comp[0]:
            it = []
            for i in f[2]:
                v = ivar(i)
                if v is None:
                    it.append(repr(i))
                elif v == me:
                    it.append("@")
                elif v in color:
                    it.append(f"c{color[v]}")
                elif v in red:
                    it.append(f"r{list(red).index(v)}")
                else:
                    it.append(str(v) if v > 0 else "b")
            if f[0] == "D":
                it.sort()
            out.append((f[0], repr(f[1]), it, str(e)))
        return repr(sorted(out, key=repr))

    for _ in range(3):
        new = {}
        for v in fv:
            rows = []
            for ai, a in enumerate(args):
                for m, c in a.d.items():
                    s = sorted(sig(comp, color, v) + str(x) for comp, x in m)
                    rows.append(repr((ai, str(c), s)))
            new[v] = repr(sorted(rows))
        ranks = {c: r for r, c in enumerate(sorted(set(new.values())))}
        nc = {v: ranks[new[v]] for v in fv}
        if nc == color:
            break
        color = nc
    groups = {}
    for v in fv:
        groups.setdefault(color[v], []).append(v)
    if all(len(g) == 1 for g in groups.values()):
        return [groups[c][0] for c in sorted(groups)]
    import itertools
    gl = [groups[c] for c in sorted(groups)]
    n = 1
    for g in gl:
        for k in range(2, len(g) + 1):
            n *= k
    if n > 48:
        return [v for g in gl for v in g]
    best = None
    for combo in itertools.product(*[list(permutations(g)) for g in gl]):
        order = [v for g in combo for v in g]
        mp = {v: k + 1 for k, v in enumerate(order)}
        key = repr([sorted(map(repr, rename(a, mp).d.items())) for a in args])
        if best is None or key < best[0]:
            best = (key, order)
    return best[1]


def fnargs(f):
    """(name, args instantiated at the factor's indices, extra)."""
    name, args, extra = FN[f[1]]
    mp = {k + 1: i for k, i in enumerate(f[2])}
    return name, [subst(a, mp) for a in args], extra


def single_factor(e):
    """The factor if e is exactly one factor with coefficient and exponent 1."""
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if c == 1 and len(m) == 1:
            (comp, x), = m
            if x == 1 and _single(comp):
                return comp[0][0][0]
    return None


def factor_common(e):
    """e = (coef, {comp: exp}, rest): pull out common unbound powers."""
    ms = list(e.d.items())
    if len(ms) == 1:
        m, c = ms[0]
        return c, dict(m), ONE
    common = None
    for m, _ in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for k in set(common) | set(d):
                a, b = common.get(k, Fraction(0)), d.get(k, Fraction(0))
                if a < 0 or b < 0:
                    x = min(a, b)
                else:
                    x = min(a, b)
                if x:
                    nc[k] = x
            common = nc
    # leading coefficient: normalise on the smallest monomial
    lead = min(ms, key=lambda mc: skey(tuple(sorted(map(skey, mc[0])))))
    c0 = abs(lead[1])
    inv = Expr({frozenset((k, -x) for k, x in common.items()): 1 / c0})
    if not common and c0 == 1:
        return F1, {}, e
    return c0, common, mul(e, inv)


def powr(e, k):
    k = Fraction(k)
    if k == 1:
        return e
    if k == 0:
        return ONE
    if e.is_const:
        v = e.value
        if v == 0:
            if k > 0:
                return ZERO
            return number("inf")
        if k.denominator == 1:
            return E(v ** int(k))
        return num_pow(v, k)
    if len(e.d) == 1:
        (m, c), = e.d.items()
        ev = [(comp, x) for comp, x in m if _even(comp, x, k)] if k.denominator != 1 else ()
        if ev:              # (x^2)^(1/2) is |x|
            r = ONE
            for comp, x in ev:
                r = mul(r, powr(_abs_atom(Expr({frozenset([(comp, F1)]): F1})), x * k))
            return mul(r, powr(Expr({m - frozenset(ev): c}), k))
        r = Expr({frozenset((comp, x * k) for comp, x in m): F1})
        if any(_single(comp) and comp[0][0][0][0] == "N" and (comp[0][0][0][1] == "I" or comp[0][0][0][1].isdigit()) for comp, _ in m):
            # renormalise i^k
            r = ONE
            for comp, x in m:
                f = comp[0][0][0] if _single(comp) else None
                if f and f[0] == "N" and f[1] == "I":
                    n = x * k
                    if n.denominator != 1:
                        raise TooHard("power of i")
                    n = int(n) % 4
                    r = mul(r, [ONE, number("I"), E(-1), scale(number("I"), -1)][n])
                elif f and f[0] == "N" and f[1].isdigit():
                    r = mul(r, num_pow(int(f[1]), x * k))
                else:
                    r = mul(r, Expr({frozenset([(comp, x * k)]): F1}))
        return mul(num_pow(c, k), r)
    if k.denominator == 1 and 0 < k <= 4:
        r = e
        for _ in range(int(k) - 1):
            r = mul(r, e)
        return r
    c, common, rest = factor_common(e)
    sgn = 1
    body = ONE
    for comp, x in common.items():
        body = mul(body, powr(Expr({frozenset([(comp, x)]): F1}), k))
    if len(rest.d) == 1:
        r = powr(rest, k)
    else:
        f = fn("id", [rest])
        (m, cc), = f.d.items()
        (comp, x), = m
        r = Expr({frozenset([(comp, k)]): F1})
    return mul(mul(num_pow(c, k), body), r)


def _even(comp, x, k):
    if x.denominator != 1 or x % 2 or (x * k).denominator == 1 and (x * k) % 2 == 0 or pos_comp(comp):
        return False
    a = Expr({frozenset([(comp, F1)]): F1})
    if _single(comp):
        f = comp[0][0][0]
        if f[0] == "N" or f[0] == "F" and FN[f[1]][0] == "abs":
            return False
    return is_real(a)


def num_pow(v, k):
    v = Fraction(v)
    if k.denominator == 1:
        return E(v ** int(k))
    if v < 0:
        return mul(number(f"({v})"), ONE) if k == 1 else powr(number(f"neg{v}"), k)
    r = ONE
    for p, x in _factorint(v).items():
        y = x * k
        if y.denominator == 1:
            r = mul(r, E(Fraction(p) ** int(y)))
        else:
            q = y.numerator // y.denominator
            r = mul(mul(r, E(Fraction(p) ** q)), number(f"{p}", y - q))
    return r


def _factorint(v):
    out = {}
    for n, s in ((v.numerator, 1), (v.denominator, -1)):
        p = 2
        while p * p <= n and p < 100000:
            while n % p == 0:
                out[p] = out.get(p, 0) + s
                n //= p
            p += 1
        if n > 1:
            out[n] = out.get(n, 0) + s
    return {p: x for p, x in out.items() if x}


def inv(e):
    return powr(e, -1)


# ---- conj / real / abs ------------------------------------------------
def _tconj(f):
    name, coords, cj, ng = f[1]
    info = TINFO.get(name, {})
    if info.get("real", True):
        return f
    if info.get("herm") and len(f[2]) == 2:
        return ("T", f[1], (f[2][1], f[2][0]))
    return ("T", (name, coords, not cj, ng), f[2])


@lru_cache(maxsize=200000)
def conj_comp(comp):
    """Expr of the complex conjugate of a component."""
    fs, bd = unpack(comp, F1)
    out, extra = [], []
    same = True
    for f, x in fs:
        if f[0] == "T":
            g = _tconj(f)
            out.append((g, x))
        elif f[0] == "F":
            name, args, ext = FN[f[1]]
            if name in REALF:
                out.append((f, x))
            else:
                cargs = [conj(a) for a in args]
                if list(args) == cargs:
                    out.append((f, x))
                else:
                    name, args, ext = fnargs(f)
                    extra.append(powr(fn(name, [conj(a) for a in args], ext), x))
        elif f[0] == "N" and f[1] == "I":
            out.append((f, x))
            extra.append(E((-1) ** int(x)))
        else:
            out.append((f, x))
    if not extra:
        return _norm_factors(out, bd)
    r = _norm_factors(out, {})
    for x in extra:
        r = mul(r, x)
    for v, sz in bd.items():
        r = bind(r, v, sz)
    return r


def any_complex():
    return any(not i.get("real", True) for i in TINFO.values())


def conj(e):
    out = ZERO
    for m, c in e.d.items():
        r = ONE
        for comp, x in m:
            r = mul(r, powr(conj_comp(comp), x))
        out = out + scale(r, c)
    return out


def is_real(e):
    return conj(e) == e


def pos_factor(f):
    if f[0] in ("D", "L"):
        return True
    if f[0] == "N":
        return f[1] not in ("I", "nan", "-inf") and not f[1].startswith("neg")
    if f[0] == "F":
        name, args, extra = FN[f[1]]
        if name in POSF:
            return True
        if name in ("id", "rmax", "rmin", "max"):
            return all(is_pos(a) for a in args[:1])
        if name == "where":
            c, a, b = args
            if is_pos(b):
                if is_pos(a):
                    return True
                g = single_factor(c)
                if g and g[0] == "F" and FN[g[1]][0] == "gt":
                    _, (x, y), _ = fnargs(g)
                    return x == a and is_pos(y)
            return False
        if name in ("clamp",):
            lo = extra[0] if extra else None
            return lo is not None and lo >= 0 or is_pos(args[0])
    if f[0] == "T":
        return TINFO.get(f[1][0], {}).get("pos", False)
    return False


@lru_cache(maxsize=200000)
def pos_comp(comp):
    if all(pos_factor(f) for f, _ in comp[0]):
        return True
    return False


def is_pos(e):
    return all(c > 0 and all(pos_comp(k) or (x.denominator == 1 and x % 2 == 0 and is_real(Expr({frozenset([(k, F1)]): F1})))
                             for k, x in m) for m, c in e.d.items())


def cabs(e):
    if not e.d:
        return ZERO
    if is_pos(e):
        return e
    c, common, rest = factor_common(e)
    r = E(abs(c))
    for comp, x in common.items():
        r = mul(r, powr(_abs_atom(Expr({frozenset([(comp, F1)]): F1})), x))
    if rest != ONE:
        r = mul(r, rest if is_pos(rest) else _abs_atom(rest))
    return r


def _abs_atom(e):
    if is_pos(e):
        return e
    f = single_factor(e)
    if f and f[0] == "F" and FN[f[1]][0] == "abs":
        return e
    if f and f[0] == "N":
        return ONE if f[1] == "I" else e
    if f and f[0] == "F" and FN[f[1]][0] == "phase":
        return ONE
    # canonical sign / conjugate
    cands = [e, -e] if len(e.d) > 1 else [e]
    if any_complex():
        cj = conj(e)
        cands += [cj, -cj] if len(e.d) > 1 else [cj]
    e = min(cands, key=ekey)
    return fn("abs", [e])


def ekey(e):
    return repr(sorted((repr(sorted(map(skey, m))), str(c)) for m, c in e.d.items()))


def re(e):
    cj = conj(e)
    return e if cj == e else scale(e + cj, Fraction(1, 2))


def im(e):
    cj = conj(e)
    return ZERO if cj == e else scale(mul(e - cj, number("I")), Fraction(-1, 2))


# ---- log / exp ---------------------------------------------------------
def log(e):
    if not e.d:
        return number("-inf")
    c, common, rest = factor_common(e)
    out = ZERO
    if c < 0:
        return fn("log", [e])
    for p, x in _factorint(Fraction(c)).items():
        out = out + scale(number(f"log{p}"), Fraction(x))
    items = list(common.items())
    if rest != ONE:
        if len(rest.d) == 1:
            (m, c2), = rest.d.items()
            if c2 < 0:
                return fn("log", [e])
            items += list(m)
        else:
            items.append((None, F1))
    for comp, x in items:
        if comp is None:
            out = out + fn("log", [rest])
            continue
        a = Expr({frozenset([(comp, F1)]): F1})
        f = single_factor(a)
        if f and f[0] == "F" and FN[f[1]][0] == "exp":
            out = out + scale(fnargs(f)[1][0], x)
            continue
        if f and f[0] == "F" and FN[f[1]][0] == "id":
            a = fnargs(f)[1][0]
        if x.denominator == 1 and x % 2 == 0 and not is_pos(a) and (is_real(a)):
            a = _abs_atom(a)
        out = out + scale(fn("log", [a]), x)
    return out


def exp(e):
    r = ONE
    for m, c in e.d.items():
        if not m:
            r = mul(r, powr(number("e"), c))
            continue
        done = False
        if len(m) == 1:
            (comp, x), = m
            if x == 1 and _single(comp):
                f = comp[0][0][0]
                if f[0] == "F" and FN[f[1]][0] == "log":
                    r = mul(r, powr(fnargs(f)[1][0], c))
                    done = True
                elif f[0] == "N" and f[1].startswith("log"):
                    r = mul(r, num_pow(Fraction(int(f[1][3:])), c))
                    done = True
        if not done:
            inner = Expr({m: F1})
            f = fn("exp" if is_real(inner) else "cexp", [inner])
            r = mul(r, powr(f, c))
    return r


def where(c, a, b):
    if a == b:
        return a
    if c.is_const:
        return a if c.value else b
    f = single_factor(c)
    if f and f[0] in ("L", "D"):
        return mul(c, a) + mul(ONE - c, b)
    return fn("where", [c, a, b])


def compare(op, a, b):
    if a.is_const and b.is_const:
        x, y = a.value, b.value
        return E({"gt": x > y, "lt": x < y, "ge": x >= y, "le": x <= y, "eq": x == y, "ne": x != y}[op])
    if op == "lt":
        return compare("gt", b, a)
    if op == "le":
        return compare("ge", b, a)
    if op in ("eq", "ne"):
        if a == b:
            return E(op == "eq")
        d = a - b
        if d.is_const:
            return E(op == "ne")
        # iota comparisons are deltas
        fa, fb = single_factor(a), single_factor(b)
        if fa and fb and fa[0] == "T" and fb[0] == "T" and fa[1][0] == "iota" and fb[1][0] == "iota":
            r = delta(fa[2][0], fb[2][0])
            return r if op == "eq" else ONE - r
        for x, y in ((a, b), (b, a)):
            fx = single_factor(x)
            if fx and fx[0] == "T" and fx[1][0] == "iota" and y.is_const and y.value.denominator == 1:
                r = delta(fx[2][0], ("c", int(y.value)))
                return r if op == "eq" else ONE - r
        if skey(tuple(sorted(map(skey, a.d.items())))) > skey(tuple(sorted(map(skey, b.d.items())))):
            a, b = b, a
        r = fn("eq", [a, b])
        return r if op == "eq" else ONE - r
    if op == "gt" and is_pos(b - a):
        return ZERO
    if op == "ge" and is_pos(a - b):
        return ONE
    return fn(op, [a, b])


# ---------------------------------------------------------------- gradient marks
def mapT(e, g):
    """Rebuild e with every base-tensor factor f replaced by Expr g(f) (or None)."""
    memo = {}

    def onE(x):
        k = x
        if k in memo:
            return memo[k]
        out = ZERO
        for m, c in x.d.items():
            r = ONE
            for comp, ex in m:
                r = mul(r, powr(onC(comp), ex))
            out = out + scale(r, c)
        memo[k] = out
        return out

    def onC(comp):
        if ("c", comp) in memo:
            return memo["c", comp]
        fs, bd = unpack(comp, F1)
        keep, extra = [], []
        for f, x in fs:
            if f[0] == "T":
                h = g(f)
                if h is None:
                    keep.append((f, x))
                else:
                    extra.append(powr(h, x))
            elif f[0] == "F":
                name, args, ext = FN[f[1]]
                new = [onE(a) for a in args]
                if list(args) == new:
                    keep.append((f, x))
                else:
                    mp = {k + 1: i for k, i in enumerate(f[2])}
                    na = [subst(a, mp) for a in new]
                    extra.append(powr(refn(name, na, ext), x))
            else:
                keep.append((f, x))
        if not extra:
            r = _norm_factors(keep, bd)
        else:
            r = _norm_factors(keep, {})
            for x in extra:
                r = mul(r, x)
            for v, sz in bd.items():
                r = bind(r, v, sz)
        memo["c", comp] = r
        return r

    return onE(e)


def refn(name, args, ext):
    if name == "log":
        return log(args[0])
    if name in ("exp", "cexp"):
        return exp(args[0])
    if name == "abs":
        return cabs(args[0])
    if name == "re":
        return re(args[0])
    if name == "id":
        return args[0]
    if name == "where":
        return where(*args)
    if name in ("gt", "ge", "eq"):
        return compare(name, *args)
    return fn(name, args, ext)


def detach(e):
    def g(f):
        name, coords, cj, ng = f[1]
        if ng or not TINFO.get(name, {}).get("param"):
            return None
        return atom(("T", (name, coords, cj, True), f[2]))
    return mapT(e, g)


def undetach(e):
    def g(f):
        name, coords, cj, ng = f[1]
        return atom(("T", (name, coords, cj, False), f[2])) if ng else None
    return mapT(e, g)


def expand(e):
    """Inline F('id', sum) with positive integer exponents."""
    for _ in range(6):
        out = ZERO
        ch = False
        for m, c in e.d.items():
            r = ONE
            for comp, x in m:
                if any(f[0] == "F" and FN[f[1]][0] == "id" and x * y > 0 and (x * y).denominator == 1 for f, y in comp[0]):
                    r = mul(r, powr(_expand_F(comp), x))
                    ch = True
                else:
                    r = mul(r, Expr({frozenset([(comp, x)]): F1}))
            out = out + scale(r, c)
        e = out
        if not ch:
            break
    return e


@lru_cache(maxsize=100000)
def _expand_F(comp):
    fs, bd = unpack(comp, F1)
    keep, extra = [], []
    for f, y in fs:
        if f[0] == "F" and FN[f[1]][0] == "id" and y > 0 and y.denominator == 1:
            extra.append(powr(fnargs(f)[1][0], y))
        else:
            keep.append((f, y))
    r = _norm_factors(keep, {})
    for x in extra:
        r = mul(r, x)
    for v, sz in bd.items():
        r = bind(r, v, sz)
    return r


def base_tensors(e, out=None, inner=True):
    """All base-tensor factors occurring in e (including inside functions)."""
    out = {} if out is None else out
    for m in e.d:
        for comp, _ in m:
            for f, _ in comp[0]:
                if f[0] == "T":
                    out[f[1][0], f[1][1], f[1][3]] = True
                elif f[0] == "F" and inner:
                    for a in FN[f[1]][1]:
                        base_tensors(a, out)
    return out


# ---------------------------------------------------------------- printing
def _sh_i(i, nm):
    if isinstance(i, int):
        return nm.get(i, f"i{i}") if i > 0 else f"k{-i}"
    if i[0] == "c":
        return f"{i[1]}"
    return f"{_sh_i(i[1], nm)}+{i[2]}"


def show_factor(f, nm):
    ix = ",".join(_sh_i(i, nm) for i in f[2])
    if f[0] == "T":
        name, coords, cj, ng = f[1]
        s = name + ("".join(f"<{c}>" for c in coords)) + ("*" if cj else "") + ("'nograd" if ng else "")
        return f"{s}[{ix}]" if ix else s
    if f[0] == "D":
        return f"eye[{ix}]"
    if f[0] == "L":
        return f"[{ix}<{f[1]}]"
    if f[0] == "N":
        return str(f[1])
    name, args, ext = FN[f[1]]
    mp = {k + 1: _sh_i(i, nm) for k, i in enumerate(f[2])}
    a = ", ".join(show(x, mp) for x in args)
    if len(a) > 400:
        a = a[:400] + "…"
    return f"{name}({a})"


def show(e, nm=None):
    nm = nm or {}
    if not e.d:
        return "0"
    out = []
    for m, c in e.d.items():
        fs = []
        for comp, x in m:
            s = "·".join(show_factor(f, nm) + (f"^{y}" if y != 1 else "") for f, y in comp[0])
            if comp[1]:
                s = "Σ(" + s + ")"
            fs.append(s + (f"^{x}" if x != 1 else ""))
        fs.sort()
        t = "·".join(fs)
        if not t:
            t = str(c)
        elif c == -1:
            t = "-" + t
        elif c != 1:
            t = f"{c}·{t}"
        out.append(t)
    out.sort(key=lambda s: (len(s), s))
    if len(out) > 6:
        out = out[:6] + [f"… ({len(out)} terms)"]
    return " + ".join(out)


def diff(a, b):
    """Monomials only in a / only in b."""
    a, b = expand(a), expand(b)
    d = a - b
    return d
