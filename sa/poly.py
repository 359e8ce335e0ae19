"""Symbolic sizes and positions: polynomials with rational coefficients.

A polynomial is a mapping from monomials to Fractions, a monomial a sorted
tuple of (atom, exponent).  Atoms are

  ('s', name)          a non-negative integer symbol with a known lower bound
  ('fd', poly, k)      floor(poly / k)
  ('f', fname, poly)   an opaque integer function applied to a polynomial
  ('inv', poly)        1 / poly

Nothing here searches: comparisons are decided by substituting x = lo + x' and
looking at the signs of the coefficients, with a list of known non-negative
polynomials ("facts") as the only context.  "Undecided" is an answer (None).
"""
from fractions import Fraction
from functools import lru_cache

LO = {}          # symbol name -> lower bound (int)
HI = {}          # symbol name -> upper bound poly or None
FUNC_POINTS = {}  # opaque function name -> {poly: poly}
MONO_FUNCS = set()  # opaque functions known to be strictly increasing
RANGES = {}      # opaque function name -> (lo poly, hi poly) of values


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = {m: c for m, c in terms.items() if c != 0}
        self._h = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)}) if c else Poly({})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Poly.const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        o = P(o)
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if len(o.t) > 1 and len(self.t) >= 1:
            r = _cancel_inv(self, o)
            if r is not None:
                return r
        if len(self.t) > 1 and len(o.t) >= 1:
            r = _cancel_inv(o, self)
            if r is not None:
                return r
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mul_mono(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = Poly.const(1)
        for _ in range(k):
            r = r * self
        return r

    # -- queries ------------------------------------------------------
    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def value(self):
        return self.t.get((), Fraction(0))

    def as_int(self):
        if self.is_const and self.value.denominator == 1:
            return int(self.value)
        return None

    def atoms(self):
        out = set()
        for m in self.t:
            for a, _ in m:
                out.add(a)
        return out

    def symbols(self):
        """All symbol names, including those inside nested atoms."""
        out = set()
        for a in self.atoms():
            if a[0] == "s":
                out.add(a[1])
            elif a[0] == "fd":
                out |= a[1].symbols()
            elif a[0] == "f":
                out |= a[2].symbols()
            elif a[0] == "inv":
                out |= a[1].symbols()
        return out

    def subst(self, mp):
        """Replace symbols by polynomials (mp: name -> Poly)."""
        if not mp or not (self.symbols() & set(mp)):
            return self
        r = Poly({})
        for m, c in self.t.items():
            term = Poly.const(c)
            for a, e in m:
                b = _subst_atom(a, mp)
                term = term * (b ** e)
            r = r + term
        return r

    def coeff(self, name):
        """Linear coefficient (a Poly without the symbol) and rest, or None."""
        lin, rest = {}, {}
        for m, c in self.t.items():
            hit = [e for a, e in m if a == ("s", name)]
            inner = any(
                a[0] != "s" and name in Poly({((a, 1),): Fraction(1)}).symbols() for a, e in m
            )
            if inner or (hit and hit[0] != 1):
                return None
            if hit:
                lin[tuple(x for x in m if x[0] != ("s", name))] = c
            else:
                rest[m] = c
        return Poly(lin), Poly(rest)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), repr(x[0]))):
            f = "*".join(_atom_repr(a) + (f"^{e}" if e != 1 else "") for a, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append(f"{c}*{f}")
        return "+".join(out).replace("+-", "-")


def _atom_repr(a):
    if a[0] == "s":
        return a[1]
    if a[0] == "fd":
        return f"floor(({a[1]})/{a[2]})"
    if a[0] == "f":
        return f"{a[1]}({a[2]})"
    return f"1/({a[1]})"


def _mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # cancel symbol against its own inverse
    for a in list(d):
        if a[0] == "inv" and len(a[1].t) == 1:
            (mm, cc), = a[1].t.items()
            if cc == 1 and len(mm) == 1 and mm[0][1] == 1:
                b = mm[0][0]
                while d.get(a, 0) > 0 and d.get(b, 0) > 0:
                    d[a] -= 1
                    d[b] -= 1
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=_akey))


def _cancel_inv(x, p):
    """x * p where every term of x has the factor inv(p): drop it."""
    key = ("inv", p)
    out = {}
    for m, c in x.t.items():
        d = dict(m)
        if d.get(key, 0) < 1:
            return None
        d[key] -= 1
        mm = tuple(sorted(((a, e) for a, e in d.items() if e), key=_akey))
        out[mm] = out.get(mm, 0) + c
    return Poly(out)


@lru_cache(maxsize=None)
def _akey_atom(a):
    return repr(a)


def _akey(ae):
    return _akey_atom(ae[0])


def _subst_atom(a, mp):
    if a[0] == "s":
        return mp.get(a[1]) if a[1] in mp else Poly({((a, 1),): Fraction(1)})
    if a[0] == "fd":
        return floordiv(a[1].subst(mp), a[2])
    if a[0] == "f":
        return app(a[1], a[2].subst(mp))
    return inv(a[1].subst(mp))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(Fraction(x))
    raise TypeError(f"not a size: {x!r}")


def sym(name, lo=0, hi=None):
    LO[name] = lo
    if hi is not None:
        HI[name] = hi
    return Poly({((("s", name), 1),): Fraction(1)})


_fresh = [0]


def fresh(prefix, lo=0, hi=None):
    _fresh[0] += 1
    return sym(f"{prefix}#{_fresh[0]}", lo, hi)


def sym_name(p):
    (m, c), = p.t.items()
    return m[0][0][1]


def app(fname, arg):
    arg = P(arg)
    pts = FUNC_POINTS.get(fname)
    if pts:
        for k, v in pts.items():
            if k == arg:
                return v
    return Poly({((("f", fname, arg), 1),): Fraction(1)})


def inv(p):
    p = P(p)
    if p.is_const:
        if p.value == 0:
            raise ZeroDivisionError
        return Poly.const(1 / p.value)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Poly.const(1 / c)
        for a, e in m:
            base = Poly({((a, 1),): Fraction(1)})
            f = Poly({((("inv", base), e),): Fraction(1)}) if a[0] != "inv" else a[1] ** e
            out = out * f
        return out
    return Poly({((("inv", p), 1),): Fraction(1)})


def floordiv(p, k):
    p = P(p)
    if isinstance(k, Poly):
        if k.as_int() is None:
            return None
        k = k.as_int()
    if k == 1:
        return p
    quo, rem = {}, {}
    for m, c in p.t.items():
        if c.denominator != 1:
            return None
        q, r = divmod(int(c), k)
        if q:
            quo[m] = Fraction(q)
        if r:
            rem[m] = Fraction(r)
    rest = Poly(rem)
    if not rest.t:
        return Poly(quo)
    if rest.is_const:
        return Poly(quo) + Poly.const(int(rest.value) // k)
    return Poly(quo) + Poly({((("fd", rest, k), 1),): Fraction(1)})


def mod(p, k):
    q = floordiv(p, k)
    if q is None:
        return None
    return P(p) - q * P(k)


# ---------------------------------------------------------------------
# Comparisons
# ---------------------------------------------------------------------
FACTS = []  # list of polynomials known to be >= 0


def _atom_lo(a):
    if a[0] == "s":
        return LO.get(a[1], 0)
    if a[0] == "fd":
        l = lower(a[1])
        return None if l is None else l // a[2]
    if a[0] == "f":
        r = RANGES.get(a[1])
        return int(r) if r is not None else None
    if a[0] == "inv":
        return 0
    return None


def lower(p):
    """A lower bound of p (Fraction) or None."""
    tot = Fraction(0)
    q = Poly({})
    for m, c in p.t.items():
        term = Poly.const(c)
        for a, e in m:
            l = _atom_lo(a)
            if l is None:
                if c > 0 or len(m) > 1:
                    return None
                return None
            v = Poly({((("z", a), 1),): Fraction(1)}) + Poly.const(l)
            term = term * (v ** e)
        q = q + term
    for m, c in q.t.items():
        if m == ():
            tot += c
        elif c < 0:
            return None
    return tot


def nonneg(p, depth=2):
    """True if p >= 0 is derivable, else False (meaning: not derivable)."""
    p = P(p)
    if p.is_const:
        return p.value >= 0
    l = lower(p)
    if l is not None and l >= 0:
        return True
    # expand floor atoms: k*fd(p,k) >= p-(k-1)  and  <= p
    for a in p.atoms():
        if a[0] == "fd":
            for m, c in p.t.items():
                if m == ((a, 1),):
                    base, k = a[1], a[2]
                    at = Poly({((a, 1),): Fraction(1)})
                    if c < 0:   # -|c| fd >= -|c| base / k
                        q = p - at * c + base * (c / k)
                    else:
                        q = p - at * c + (base - (k - 1)) * (c / k)
                    if depth > 0 and nonneg(q, depth - 1):
                        return True
    # upper bounds of symbols
    for a in p.atoms():
        if a[0] == "s" and a[1] in HI:
            for m, c in p.t.items():
                if m == ((a, 1),) and c < 0:
                    at = Poly({((a, 1),): Fraction(1)})
                    if depth > 0 and nonneg(p - at * c + P(HI[a[1]]) * c, depth - 1):
                        return True
    if depth > 0:
        for f in FACTS:
            if f.atoms() & p.atoms():
                for k in (1, 2, Fraction(1, 2)):
                    if nonneg(p - f * k, depth - 1):
                        return True
    return False


def cmp_lt(a, b):
    """a < b: True / False / None (undecided), for integer-valued polys."""
    d = P(b) - P(a)
    if d.is_const:
        return d.value > 0
    if nonneg(d - 1):
        return True
    if nonneg(-d):
        return False
    return None


def cmp_le(a, b):
    r = cmp_lt(b, a)
    return None if r is None else not r


def cmp_eq(a, b):
    d = P(a) - P(b)
    if not d.t:
        return True
    if d.is_const:
        return False
    if nonneg(d - 1) or nonneg(-d - 1):
        return False
    if nonneg(d) and nonneg(-d):
        return True
    return None


def sum_over(p, var, count):
    """Sum of p for var = 0 .. count-1 (closed form), or None."""
    p = P(p)
    count = P(count)
    if var not in p.symbols():
        return p * count
    out = Poly({})
    rest = {}
    # telescoping differences of opaque functions f(var + c + 1) - f(var + c)
    fun = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "f" and var in m[0][0][2].symbols():
            a = m[0][0]
            fun.setdefault(a[1], []).append((a[2], c))
        else:
            rest[m] = c
    v = Poly({((("s", var), 1),): Fraction(1)})
    for fn, items in fun.items():
        bal = sum(c for _, c in items)
        if bal != 0:
            return None
        # every argument must be var*k + const with the same k
        args = []
        for a, c in items:
            lc = a.coeff(var)
            if lc is None:
                return None
            args.append((lc[0], lc[1], c))
        k = args[0][0]
        if any(x[0] != k for x in args) or k.as_int() is None or k.as_int() <= 0:
            return None
        k = k.as_int()
        offs = []
        for _, r, c in args:
            offs.append((r, c))
        base = offs[0][0]
        ds = []
        for r, c in offs:
            d = (r - base).as_int()
            if d is None or d % k:
                return None
            ds.append((d // k, c))
        lo = min(d for d, _ in ds)
        # sum_i sum_d c_d f(base + k*(i + d)); prefix telescopes as total is 0
        hi = max(d for d, _ in ds)
        acc = Fraction(0)
        pref = {}
        dd = {}
        for d, c in ds:
            dd[d] = dd.get(d, 0) + c
        for d in range(lo, hi):
            acc += dd.get(d, 0)
            pref[d] = acc
        # S = sum_d pref[d] * (f(base+k*(0+d)) - f(base+k*(count+d)))
        for d, c in pref.items():
            out = out + Poly.const(c) * (app(fn, base + k * d) - app(fn, base + k * (count + d)))
    rp = Poly(rest)
    if var in rp.symbols():
        lc = rp.coeff(var)
        if lc is None:
            return None
        out = out + lc[0] * (count * (count - 1)) * Fraction(1, 2) + lc[1] * count
    else:
        out = out + rp * count
    return out


def reset():
    LO.clear()
    HI.clear()
    FUNC_POINTS.clear()
    RANGES.clear()
    MONO_FUNCS.clear()
    FACTS.clear()
    _fresh[0] = 0


# ---------------------------------------------------------------------
# Refutation by a counter-valuation: are p and q different somewhere within
# the known bounds?  Opaque functions are arbitrary unless listed as covers.
# ---------------------------------------------------------------------
FREE_FUNCS = set()  # opaque functions that may take any (distinct) values


def _eval(p, env):
    tot = Fraction(0)
    for m, c in p.t.items():
        v = c
        for a, e in m:
            if a[0] == "s":
                x = env[a[1]]
            elif a[0] == "fd":
                b = _eval(a[1], env)
                if b is None:
                    return None
                x = Fraction(int(b // a[2]))
            elif a[0] == "f":
                if a[1] not in FREE_FUNCS:
                    return None
                b = _eval(a[2], env)
                if b is None:
                    return None
                x = env.setdefault(("F", a[1], b), Fraction(1000 + 7 * len(env) + (len(env) * len(env)) % 13))
            else:
                b = _eval(a[1], env)
                if not b:
                    return None
                x = 1 / b
            v *= x ** e
        tot += v
    return tot


def _all_syms(ps):
    out, todo = set(), list(ps)
    while todo:
        q = todo.pop()
        for s in q.symbols():
            if s not in out:
                out.add(s)
                h = HI.get(s)
                if isinstance(h, Poly):
                    todo.append(h)
    return sorted(out)


def refute_eq(p, q):
    """True if some valuation within the known bounds separates p and q."""
    d = P(p) - P(q)
    if not d.t:
        return False
    facts = [f for f in FACTS]
    syms = _all_syms([d] + facts)
    for trial in range(40):
        env = {}
        for i, s in enumerate(syms):
            env[s] = Fraction(LO.get(s, 0) + ((trial * (i + 3) + (trial * trial) // (i + 1)) % (4 + trial // 4)))
        ok = True
        for s in syms:
            h = HI.get(s)
            if h is not None:
                hv = _eval(P(h), env)
                if hv is None or env[s] > hv:
                    ok = False
        for f in facts:
            fv = _eval(f, env)
            if fv is None or fv < 0:
                ok = False
        if not ok:
            continue
        v = _eval(d, env)
        if v is not None and v != 0:
            return True
    return False


def same(p, q):
    """True: equal; False: separated by a valuation; None: unknown."""
    r = cmp_eq(p, q)
    if r is not None:
        return r
    return False if refute_eq(p, q) else None


def assume_lt(a, b):
    """Record a < b (integers)."""
    FACTS.append(P(b) - P(a) - 1)
