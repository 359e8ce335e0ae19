"""Separating valuations.

Two terms whose canonical forms differ are reported as different only if some
valuation of their symbols (small sizes, arbitrary tensor entries) gives them
different values.  This evaluates the *terms* of the abstract domain, never the
program; it only keeps incompleteness of the normal form from raising alarms.
"""
import cmath
import hashlib
import itertools
import math
from fractions import Fraction
from . import poly, expr as X, tensor as T
from .poly import P, Poly

F1 = Fraction(1)


class NoValue(Exception):
    pass


def _h(*a):
    d = hashlib.blake2b(repr(a).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2 ** 64


def _norm_rv(*a):
    u = _h("u", *a)
    return (0.35 + 1.1 * u) * (1 if _h("s", *a) < 0.5 else -1)


STYLES = ("plain", "plain", "plain", "quant", "sparse", "sparse", "zero", "const", "tiny", "huge", "pos", "neg")


class Valuation:
    def __init__(self, seed, svds=None, dims=None, shift=0.0, foreign=None, styled=False, scale=1.0):
        self.seed = seed
        self.scale = scale          # all real or complex entries shrunk by a power of two
        self.styled = styled        # special values: zeros, repeated, tiny, huge or one-signed entries
        self.shift = shift          # parameters with a gradient path are moved along a direction
        self.foreign = foreign      # (names, row): entries of other rows of these tensors take other values
        self.svds = svds or {}
        self.fixed = dims or {}
        self.memo = {}
        self.svdm = {}
        self.permm = {}
        self.sizes()

    def sizes(self):
        syms = sorted(poly.LO)
        facts = list(poly.FACTS)
        for trial in range(400):
            env = {}
            for i, s in enumerate(syms):
                lo = poly.LO[s]
                span = 3 if trial < 100 else 6
                env[s] = Fraction(lo + int(_h(self.seed, trial, s) * span))
                if s in self.fixed:
                    env[s] = Fraction(self.fixed[s])
            ok = True
            for s in syms:
                h = poly.HI.get(s)
                if h is not None:
                    hv = poly._eval(P(h), env)
                    ok &= hv is not None and env[s] <= hv
            for f in facts:
                fv = poly._eval(f, env)
                ok &= fv is not None and fv >= 0
            if ok:
                self.env = env
                return
        raise NoValue("no sizes")

    def size(self, p):
        v = poly._eval(P(p), self.env)
        if v is None or v.denominator != 1:
            raise NoValue(f"size {p}")
        return int(v)

    # -- indices
    def index(self, i, env):
        if isinstance(i, int):
            if i in env:
                return env[i]
            raise NoValue(f"free index {i}")
        if i[0] == "c":
            return i[1] if isinstance(i[1], int) else self.size(i[1])
        return env[i[1]] + self.size(i[2])

    # -- expressions
    def expr(self, e, env):
        s = 0.0
        for m, c in e.d.items():
            r = float(c)
            for comp, x in m:
                b = self.comp(comp, env)
                r = r * self.power(b, x)
            s += r
        if isinstance(s, complex) and s.imag == 0:
            s = s.real
        if s != s:
            raise NoValue("nan")
        return s

    def power(self, b, x):
        if x == 1:
            return b
        if x.denominator == 1:
            if b == 0 and x < 0:
                raise NoValue("division by zero")
            return b ** int(x)
        if isinstance(b, complex) or b < 0:
            return cmath.exp(float(x) * cmath.log(b)) if b != 0 else 0.0
        if b == 0 and x < 0:
            raise NoValue("division by zero")
        return b ** float(x)

    def comp(self, comp, env):
        if X._single(comp):
            return self.factor(comp[0][0][0], env)
        fs, bounds = comp
        bv = {-(k + 1): self.size(sz) for k, sz in enumerate(bounds)}
        tabs = []
        for f, x in fs:
            vs = tuple(sorted({v for v in X.fvars(f) if v in bv}))
            tab = {}
            for pos in itertools.product(*[range(bv[v]) for v in vs]):
                e2 = dict(env)
                e2.update(zip(vs, pos))
                tab[pos] = self.power(self.factor(f, e2), x)
            tabs.append((vs, tab))
        todo = set(bv)
        while todo:
            best = None
            for v in todo:
                u = set()
                for vs, _ in tabs:
                    if v in vs:
                        u |= set(vs)
                n = 1
                for w in u:
                    n *= bv[w]
                if best is None or n < best[0]:
                    best = (n, v, u)
            n, v, u = best
            if n > 200000:
                raise NoValue("too large")
            todo.discard(v)
            if not u:
                tabs.append(((), {(): float(bv[v])}))
                continue
            us = tuple(sorted(u - {v}))
            hit = [t for t in tabs if v in t[0]]
            tabs = [t for t in tabs if v not in t[0]]
            res = {}
            for pos in itertools.product(*[range(bv[w]) for w in us]):
                e = dict(zip(us, pos))
                s = 0.0
                for k in range(bv[v]):
                    e[v] = k
                    r = 1.0
                    for vs, tab in hit:
                        r *= tab[tuple(e[w] for w in vs)]
                        if r == 0:
                            break
                    s += r
                res[pos] = s
            tabs.append((us, res))
        r = 1.0
        for _, tab in tabs:
            r *= tab[()]
        return r

    def factor(self, f, env):
        idx = tuple(self.index(i, env) for i in f[2])
        k = f[0]
        if k == "D":
            return 1.0 if idx[0] == idx[1] else 0.0
        if k == "L":
            return 1.0 if idx[0] < self.size(f[1]) else 0.0
        if k == "N":
            return self.number(f[1])
        if k == "T":
            return self.tensor(f[1], idx)
        key = (f[1], idx)
        if key not in self.memo:
            self.memo[key] = self.func(f[1], idx)
        return self.memo[key]

    def number(self, n):
        if n == "pi":
            return math.pi
        if n == "e":
            return math.e
        if n == "I":
            return 1j
        if n.startswith("log") and n[3:].isdigit():
            return math.log(int(n[3:]))
        if n.isdigit():
            return float(n)
        if n in ("eps", "tiny", "fmax"):
            return {"eps": 2.0 ** -23, "tiny": 2.0 ** -126, "fmax": 3.4e38}[n]
        if n in poly.LO:
            return float(self.env[n])
        raise NoValue(f"number {n}")

    def tensor(self, key, idx):
        name, coords, cj, ng = key
        if name == "iota":
            return float(idx[0])
        info = X.TINFO.get(name, {})
        if self.foreign and name in self.foreign[0] and idx and idx[0] != self.foreign[1]:
            coords = ("foreign",) + coords
        if "svd" in info:
            v = self.svdval(name, info["svd"], coords, idx)
        elif info.get("perm"):
            v = self.perm(name, coords, idx)
        elif info.get("int"):
            v = float(int(_h(self.seed, name, coords, idx) * info.get("range", 2)))
        elif info.get("uniform"):
            v = _h(self.seed, name, coords, idx)
        elif info.get("pos"):
            v = 0.2 + _h(self.seed, name, coords, idx)
        else:
            v = _norm_rv(self.seed, name, coords, idx)
            if not info.get("real", True):
                v = complex(v, _norm_rv(self.seed, "im", name, coords, idx))
        if self.styled and not ("svd" in info or info.get("perm") or info.get("int") or info.get("uniform")):
            v = self.special(v, name, coords, idx)
        if self.scale != 1.0 and not ("svd" in info or info.get("perm") or info.get("int") or info.get("uniform")):
            v *= self.scale
        if self.shift and info.get("param") and not ng and not info.get("int"):
            v += self.shift * _norm_rv(self.seed, "dir", name, coords, idx)
            if isinstance(v, complex):
                v += 1j * self.shift * _norm_rv(self.seed, "dim", name, coords, idx)
        if cj and isinstance(v, complex):
            v = v.conjugate()
        return v

    def special(self, v, name, coords, idx):
        st = STYLES[int(_h(self.seed, "style", name) * len(STYLES))]
        if st == "quant":
            z = lambda t: float(round(2 * t)) / 2
            return complex(z(v.real), z(v.imag)) if isinstance(v, complex) else z(v)
        if st == "sparse":
            return v if _h(self.seed, "sparse", name, coords, idx) > 0.4 else 0.0
        if st == "zero":
            return 0.0
        if st == "const":
            return 0.3 + _h(self.seed, "const", name)
        if st == "tiny":
            return v * 1e-5
        if st == "huge":
            return v * 1e4
        if st == "pos":
            return abs(v)
        if st == "neg":
            return -abs(v)
        return v

    def perm(self, name, coords, idx):
        pos = (coords + idx)[0]
        n = X.TINFO[name].get("n")
        if n is None:
            raise NoValue("permutation")
        n = self.size(n)
        inv = X.TINFO[name].get("inverse")
        if inv and name.startswith("inverse_of_"):
            self.perm(inv, (0,), ())
            q = self.permm[inv, n]
            self.permm[name, n] = [q.index(k) for k in range(n)]
        if (name, n) not in self.permm:
            self.permm[name, n] = sorted(range(n), key=lambda k: _h(self.seed, name, k))
        return float(self.permm[name, n][pos])

    def svdval(self, name, k, coords, idx):
        if k not in self.svdm:
            mat = self.svds.get(k)
            if mat is None:
                raise NoValue("svd")
            self.svdm[k] = self.do_svd(mat)
        tabs = self.svdm[k]
        which = name[3]
        t = tabs[which]
        kk = (coords, idx)
        if kk not in t:
            raise NoValue("svd index")
        return t[kk]

    def axis_positions(self, a):
        """[(enum coords, var values)] of an axis."""
        if a[0] == "1":
            return [((), ())]
        if a[0] == "E":
            return [((k,), ()) for k in range(a[1])]
        if a[0] == "V":
            return [((), (k,)) for k in range(self.size(X.VSIZE[a[1]]))]
        out = [((), ())]
        for b in a[1]:
            out = [(c + c2, v + v2) for c, v in out for c2, v2 in self.axis_positions(b)]
        return out

    def do_svd(self, mat):
        rows = self.axis_positions(mat.axes[0])
        cols = self.axis_positions(mat.axes[1])
        rv, cv = T.avars([mat.axes[0]]), T.avars([mat.axes[1]])
        M = []
        for rc, rx in rows:
            row = []
            for cc, cx in cols:
                env = dict(zip(rv, rx))
                env.update(zip(cv, cx))
                x = self.expr(mat.cells[rc + cc], env)
                if isinstance(x, complex):
                    raise NoValue("complex svd")
                row.append(x)
            M.append(row)
        U, S, V = jacobi_svd(M)
        r = min(len(rows), len(cols))
        kax = T.axis_for(T.norm(self.svd_rank(mat)))
        tabs = {"U": {}, "S": {}, "V": {}}
        for i in range(r):
            if kax[0] == "1":
                ki = ((), ())
            elif kax[0] == "E":
                ki = ((i,), ())
            else:
                ki = ((), (i,))
            tabs["S"][ki] = S[i]
            for a, (c, v) in enumerate(rows):
                tabs["U"][c + ki[0], v + ki[1]] = U[a][i]
            for a, (c, v) in enumerate(cols):
                tabs["V"][c + ki[0], v + ki[1]] = V[a][i]
        return tabs

    def svd_rank(self, mat):
        m, n = mat.shape
        r = poly.cmp_le(P(m), P(n))
        if r is None:
            a, b = self.size(m), self.size(n)
            return m if a <= b else n
        return m if r else n

    # -- functions
    def func(self, fid, idx):
        name, args, extra = X.FN[fid]
        if name in ("isfinite", "isnan", "isinf"):
            return float(name == "isfinite")  # the values are arbitrary real or complex numbers
        env = {k + 1: v for k, v in enumerate(idx)}
        if extra and isinstance(extra, tuple) and extra and extra[0] == "red":
            sz = [self.size(s) for s in extra[1]]
            vals = []
            for pos in itertools.product(*[range(s) for s in sz]):
                e2 = dict(env)
                e2.update({900 + k: p for k, p in enumerate(pos)})
                vals.append(self.expr(args[0], e2))
            if name in ("max", "rmax", "min", "rmin"):
                if any(isinstance(v, complex) for v in vals) or not vals:
                    raise NoValue("max")
                return max(vals) if "max" in name else min(vals)
            if name.startswith("allclose"):
                return float(all(abs(v) < 1e-6 for v in vals))
            if name == "all":
                return float(all(vals))
            if name == "any":
                return float(any(vals))
            if name == "prod":
                return math.prod(vals)
            raise NoValue(name)
        a = [self.expr(x, env) for x in args]
        x = a[0] if a else 0.0
        if name.startswith("allclose"):
            return float(all(abs(v) < 1e-6 for v in a))
        cx = any(isinstance(v, complex) for v in a)
        try:
            if name == "id":
                return x
            if name == "abs":
                return abs(x)
            if name == "log":
                if x == 0:
                    raise NoValue("log 0")
                return cmath.log(x) if isinstance(x, complex) or x < 0 else math.log(x)
            if name in ("exp", "cexp"):
                return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
            if name == "all2":
                return float(all(a))
            if name == "any2":
                return float(any(a))
            if name == "where":
                return a[1] if a[0] else a[2]
            if name == "conjf":
                return complex(x).conjugate()
            if not cx:
                if name == "gt":
                    return float(a[0] > a[1])
                if name == "ge":
                    return float(a[0] >= a[1])
                if name in ("max2", "rmax2"):
                    return max(a)
                if name in ("min2", "rmin2"):
                    return min(a)
                if name == "floor":
                    return float(math.floor(x))
                if name == "ceil":
                    return float(math.ceil(x))
                if name == "round":
                    return float(round(x))
                if name == "order":
                    return sorted(a[1:])[int(round(x))]
                if name in ("tan", "atan", "erf", "asin", "acos"):
                    return getattr(math, name)(x)
                if name == "nan_to_num":
                    return x
                if name == "isclose":
                    return float(abs(a[0] - a[1]) <= 1e-8 + 1e-5 * abs(a[1]))
                if name == "trunc":
                    return float(int(x))
                if name == "sign":
                    return float((x > 0) - (x < 0))
                if name == "sigmoid":
                    return 1 / (1 + math.exp(-x))
                if name == "tanh":
                    return math.tanh(x)
                if name == "mod":
                    return x - a[1] * math.floor(x / a[1])
                if name == "floordiv":
                    return float(math.floor(x / a[1]))
                if name == "pow" and x > 0:
                    return x ** a[1]
            if name == "eq":
                return float(abs(a[0] - a[1]) < 1e-12)
            if name in ("cos", "sin"):
                return getattr(cmath if cx else math, name)(x)
            if name == "re":
                return complex(x).real
            if name == "im":
                return complex(x).imag
            if name == "isfinite":
                return 1.0
            if name in ("isnan", "isinf"):
                return 0.0
        except (OverflowError, ZeroDivisionError, ValueError) as ex:
            raise NoValue(str(ex))
        if name in ("gt", "ge"):
            raise NoValue(name)
        # opaque: a smooth function of its arguments
        s = _norm_rv(self.seed, "op", name, repr(extra))
        for k, v in enumerate(a):
            s += _norm_rv(self.seed, "op", name, repr(extra), k) * v
        if isinstance(s, complex):
            return complex(math.sin(s.real), math.cos(s.imag))
        return math.sin(s) + 0.3 * s


def jacobi_svd(M):
    """One-sided Jacobi on a small real matrix: U (m x r), S (r), V (n x r)."""
    m, n = len(M), len(M[0])
    if m < n:
        U, S, V = jacobi_svd([[M[i][j] for i in range(m)] for j in range(n)])
        return V, S, U
    A = [list(r) for r in M]
    V = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = 0.0
        for p in range(n):
            for q in range(p + 1, n):
                al = sum(A[i][p] ** 2 for i in range(m))
                be = sum(A[i][q] ** 2 for i in range(m))
                ga = sum(A[i][p] * A[i][q] for i in range(m))
                off = max(off, abs(ga) / (math.sqrt(al * be) + 1e-300))
                if abs(ga) < 1e-300:
                    continue
                z = (be - al) / (2 * ga)
                t = (1 if z >= 0 else -1) / (abs(z) + math.sqrt(1 + z * z))
                c = 1 / math.sqrt(1 + t * t)
                s = c * t
                for B, k in ((A, m), (V, n)):
                    for i in range(k):
                        x, y = B[i][p], B[i][q]
                        B[i][p], B[i][q] = c * x - s * y, s * x + c * y
        if off < 1e-14:
            break
    S = [math.sqrt(sum(A[i][j] ** 2 for i in range(m))) for j in range(n)]
    order = sorted(range(n), key=lambda j: -S[j])
    if any(S[j] < 1e-9 for j in order):
        raise NoValue("rank deficient")
    U = [[A[i][j] / S[j] for j in order] for i in range(m)]
    return U, [S[j] for j in order], [[V[i][j] for j in order] for i in range(n)]


def holds(val, conds):
    """Whether the valuation satisfies the decisions of the path."""
    for e, want in conds:
        v = val.expr(e, {})
        if isinstance(v, complex):
            raise NoValue("complex truth value")
        if (v != 0) != want:
            return False
    return True


def satisfiable(conds, lib=None, trials=12):
    """True: some valuation satisfies the conditions; False: none of the trials
    did; None: not evaluable."""
    svds = {k: v for k, v in (lib.svds.values() if lib is not None else [])}
    got = 0
    for t in range(3 * trials):
        try:
            val = Valuation(t, svds, styled=t >= trials)
            if holds(val, conds):
                return True
            got += 1
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        except RecursionError:
            return None
    return False if got else None


def separated(a, b, vars_, lib=None, trials=5, dims=None, conds=()):
    """True: a valuation separates the Exprs; False: none of the trials did;
    None: they could not be evaluated."""
    svds = {k: v for k, v in (lib.svds.values() if lib is not None else [])}
    got = 0
    for t in range(trials * (12 if conds else 3)):
        try:
            styled = bool(conds) and t >= trials * 4
            tol = 1e-4 if styled else 1e-7
            val = Valuation(t, svds, dims, styled=styled)
            if conds and not holds(val, conds):
                continue
            ranges = [range(val.size(X.VSIZE[v])) for v in vars_]
            poss = list(itertools.islice(itertools.product(*ranges), 4096))
            if not poss:
                continue
            picks = poss if len(poss) <= 8 else [poss[int(_h(t, "p", k) * len(poss))] for k in range(8)]
            ok = True
            for pos in picks:
                env = dict(zip(vars_, pos))
                x, y = val.expr(a, env), val.expr(b, env)
                if abs(x) == float("inf") or abs(y) == float("inf"):
                    raise NoValue("inf")
                if abs(x - y) > tol * (1e-3 + abs(x) + abs(y)):
                    return True
            got += 1
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        except RecursionError:
            return None
        if got >= trials:
            break
    return False if got else None


SMALL = 2.0 ** -30


def separated_small(a, b, vars_, lib=None, trials=3, conds=()):
    """True: the Exprs agree on ordinary entries (and are not zero there), but
    not once all entries are scaled down."""
    svds = {k: v for k, v in (lib.svds.values() if lib is not None else [])}
    for t in range(trials * (4 if conds else 2)):
        try:
            v1, v2 = Valuation(t, svds), Valuation(t, svds, scale=SMALL)
            if conds and not (holds(v1, conds) and holds(v2, conds)):
                continue
            ranges = [range(v1.size(X.VSIZE[v])) for v in vars_]
            poss = list(itertools.islice(itertools.product(*ranges), 4096))
            for pos in [poss[int(_h(t, "p", k) * len(poss))] for k in range(min(len(poss), 4))]:
                env = dict(zip(vars_, pos))
                x, y = v1.expr(a, env), v1.expr(b, env)
                if not (1e-3 < abs(x) < 1e6 and abs(x - y) < 1e-6 * abs(x)):
                    continue
                x, y = v2.expr(a, env), v2.expr(b, env)
                if 1e-200 < min(abs(x), abs(y)) and max(abs(x), abs(y)) < 1e200 and abs(x - y) > 1e-2 * max(abs(x), abs(y)):
                    return True
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        except RecursionError:
            return None
    return False


STEP = 1e-5


def separated_grad(a, b, vars_, lib=None, trials=6, conds=()):
    """True: at some valuation the derivatives of the Exprs along a direction in
    the space of the parameters differ, where detached occurrences of the
    parameters stay fixed."""
    svds = {k: v for k, v in (lib.svds.values() if lib is not None else [])}
    got = 0
    for t in range(trials * (8 if conds else 4)):
        try:
            mid, up, dn = (Valuation(t, svds, None, h, styled=bool(conds) and t >= trials * 4) for h in (0.0, STEP, -STEP))
            if conds and not holds(mid, conds):
                continue
            ranges = [range(mid.size(X.VSIZE[v])) for v in vars_]
            poss = list(itertools.islice(itertools.product(*ranges), 4096))
            if not poss:
                continue
            picks = poss if len(poss) <= 6 else [poss[int(_h(t, "p", k) * len(poss))] for k in range(6)]
            for pos in picks:
                env = dict(zip(vars_, pos))
                v, w = mid.expr(a, env), mid.expr(b, env)
                ga, gb = ((up.expr(e, env) - dn.expr(e, env)) / (2 * STEP) for e in (a, b))
                if not all(abs(z) < 1e6 for z in (v, w, ga, gb)):
                    continue
                if abs(v - w) < 1e-9 * (1 + abs(v)) and abs(ga - gb) > 1e-3 * (0.1 + abs(v) + abs(ga) + abs(gb)):
                    return True
            got += 1
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        except RecursionError:
            return None
        if got >= trials:
            break
    return False if got else None


def row_dependent(e, names, row, vars_, lib=None, trials=4, conds=()):
    """True: two valuations that agree on row `row` of the named tensors (and on
    everything else) give the Expr different values."""
    svds = {k: v for k, v in (lib.svds.values() if lib is not None else [])}
    got = 0
    for t in range(trials * (10 if conds else 4)):
        try:
            styled = bool(conds) and t >= trials * 4
            tol = 1e-4 if styled else 1e-6
            val = Valuation(t, svds, styled=styled)
            if conds and not holds(val, conds):
                continue
            ranges = [range(val.size(X.VSIZE[v])) for v in vars_]
            poss = list(itertools.islice(itertools.product(*ranges), 4096))
            picks = poss if len(poss) <= 6 else [poss[int(_h(t, "p", k) * len(poss))] for k in range(6)]
            for pos in picks:
                env = dict(zip(vars_, pos))
                oth = Valuation(t, svds, None, 0.0, (names, env[row]), styled)
                if conds and not holds(oth, conds):
                    continue
                x, y = val.expr(e, env), oth.expr(e, env)
                if abs(x - y) > tol * (1e-3 + abs(x) + abs(y)):
                    return True
            got += 1
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        except RecursionError:
            return None
        if got >= trials:
            break
    return False if got else None


def _at_row(f, names, row, memo):
    """Whether the factor reads the named tensors only at index `row`."""
    if f[0] == "T":
        return f[1][0] not in names or (bool(f[2]) and f[2][0] == row)
    if f[0] == "F":
        inner = [k + 1 for k, i in enumerate(f[2]) if i == row]
        key = (f[1], inner[0] if inner else None)
        if key not in memo:
            memo[key] = all(reads_row(a, names, key[1], memo) for a in X.FN[f[1]][1])
        return memo[key]
    return True


def reads_row(e, names, row, memo=None):
    """Syntactic: every occurrence of the named tensors in e has first index `row`."""
    memo = {} if memo is None else memo
    return all(_at_row(f, names, row, memo) for m in e.d for comp, _ in m for f, _ in comp[0])
