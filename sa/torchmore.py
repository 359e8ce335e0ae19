"""Further transfer functions: operations the repository does not use today."""
from fractions import Fraction
from . import expr as X, tensor as T
from .expr import TooHard, E
from .poly import P, Poly
from .tensor import TVal, TorchError, FD, CD, I64, BOOL, DType, norm
from .interp import Native, TensorObj, Root, NamedTup, LObj, Instance, Opaque, MISSING, SNum, snum, Undec, NativeMod, ClassV, TypeTok

HALF = Fraction(1, 2)


def move_cells(val, d, f):
    """Reorder an enumerated axis: new position k holds old position f(k)."""
    off = sum(T.nE(x) for x in val.axes[:d])
    n = val.axes[d][1]
    old = val.cells
    return val.rep(cells={p: old[p[:off] + (f(p[off]),) + p[off + 1:]] for p in old})


class More:
    # ------------------------------------------------ rearrangements
    def _shift_index(self, val, d, index):
        """Index a symbolic axis by a function of the position (an expression)."""
        io = self.arange_val(val.shape[d], I64, val.dev)
        return T.getitem(val, (slice(None),) * d + (io.map(index),))

    def m_flip(self, t, *dims):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = dims[0]
        val = self.v(t)
        for d in dims:
            d = T.normdim(d, val.ndim)
            a = val.axes[d]
            if a[0] == "E":
                val = move_cells(val, d, lambda k, n=a[1]: n - 1 - k)
            elif a[0] == "V":
                last = E(P(val.shape[d])) - X.ONE
                val = self._shift_index(val, d, lambda e: last - e)
            elif a[0] != "1":
                raise TooHard("flip of a fused axis")
        return self.out(val)

    def m_fliplr(self, t):
        return self.m_flip(t, 1)

    def m_flipud(self, t):
        return self.m_flip(t, 0)

    def m_roll(self, t, shifts, dims=None):
        val = self.v(t)
        if dims is None:
            if val.ndim != 1:
                raise TooHard("roll of the flattened tensor")
            dims = 0
        sh = list(shifts) if isinstance(shifts, (list, tuple)) else [shifts]
        ds = list(dims) if isinstance(dims, (list, tuple)) else [dims]
        if len(sh) != len(ds):
            raise TorchError("shifts and dimensions must align")
        for s, d in zip(sh, ds):
            s, d = norm(s), T.normdim(d, val.ndim)
            a = val.axes[d]
            if a[0] == "1":
                continue
            if not isinstance(s, int):
                raise TooHard("roll by a symbolic number")
            if a[0] == "E":
                val = move_cells(val, d, lambda k, n=a[1], s=s: (k - s) % n)
            elif a[0] == "V":
                if s == 0:
                    continue
                n = E(P(val.shape[d]))
                if s > 0:
                    val = self._shift_index(val, d, lambda e: e - E(s) + X.mul(n, X.compare("gt", E(s), e)))
                else:
                    val = self._shift_index(val, d, lambda e: e - E(s) - X.mul(n, X.compare("ge", e - E(s), n)))
            else:
                raise TooHard("roll of a fused axis")
        return self.out(val)

    def m_tile(self, t, *reps):
        r = self.sizes(reps)
        n = self.v(t).ndim
        return self.m_repeat(t, *([1] * (n - len(r)) + list(r)))

    def m_repeat_interleave(self, t, repeats, dim=None):
        repeats = norm(repeats) if not isinstance(repeats, TensorObj) else None
        if not isinstance(repeats, int) or dim is None:
            raise TooHard("repeat_interleave")
        val = self.v(t)
        d = T.normdim(dim, val.ndim)
        n = norm(val.shape[d])
        if isinstance(n, int):
            parts = [T.getitem(val, (slice(None),) * d + (slice(k, k + 1),)) for k in range(n) for _ in range(repeats)]
            return self.out(T.cat(parts, d))
        u = T.unsqueeze(val, d + 1)
        sh = list(u.shape)
        sh[d + 1] = repeats
        u = T.expand(u, sh)
        return self.out(T.reshape(u, list(val.shape[:d]) + [val.shape[d] * repeats] + list(val.shape[d + 1:])))

    def m_reshape_as(self, t, o):
        return self.m_reshape(t, tuple(o.get().shape))

    def _atleast(self, n):
        def f(*ts):
            if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
                ts = ts[0]
            out = []
            for t in ts:
                v = self.v(t)
                while v.ndim < n:
                    v = T.unsqueeze(v, v.ndim if v.ndim == 2 and n == 3 else 0)
                out.append(self.out(v))
            return out[0] if len(out) == 1 else tuple(out)
        return f

    def f_atleast_1d(self, *ts):
        return self._atleast(1)(*ts)

    def f_atleast_2d(self, *ts):
        return self._atleast(2)(*ts)

    def f_hstack(self, ts):
        ts = [self.f_atleast_1d(t) for t in self.it.iterate(ts)]
        return self.f_cat(ts, 0 if self.v(ts[0]).ndim == 1 else 1)

    def f_vstack(self, ts):
        return self.f_cat([self.f_atleast_2d(t) for t in self.it.iterate(ts)], 0)

    f_row_stack = f_vstack

    def f_column_stack(self, ts):
        ts = [t if self.v(t).ndim > 1 else self.out(T.unsqueeze(self.v(t), 1)) for t in self.it.iterate(ts)]
        return self.f_cat(ts, 1)

    def m_adjoint(self, t):
        return self.m_conj(self.m_transpose(t, -2, -1))

    def m_ger(self, a, b):
        return self.f_outer(a, b) if hasattr(self, "f_outer") else self.m_outer(a, b)

    def m_ndimension(self, t):
        return self.v(t).ndim

    def _mask(self, t, keep):
        val = self.v(t)
        if val.ndim < 2:
            raise TorchError("input tensor must have at least 2 dimensions")
        n, m = norm(val.shape[-2]), norm(val.shape[-1])
        i = T.unsqueeze(self.arange_val(n, I64, val.dev), 1)
        j = T.unsqueeze(self.arange_val(m, I64, val.dev), 0)
        return self.out(T.ewise(lambda e, a, b: X.mul(e, keep(a, b)), val, i, j, dt=val.dt))

    def m_tril(self, t, diagonal=0):
        return self._mask(t, lambda a, b: X.compare("ge", a + E(diagonal), b))

    def m_triu(self, t, diagonal=0):
        return self._mask(t, lambda a, b: X.compare("ge", b, a + E(diagonal)))

    def f_diag_embed(self, t, offset=0, dim1=-2, dim2=-1):
        val = self.v(t)
        if offset or (dim1, dim2) != (-2, -1):
            raise TooHard("diag_embed")
        return self.out(T.diag_embed1(val)) if val.ndim == 1 else self.out(self._diag_last(val))

    def _diag_last(self, val):
        n = norm(val.shape[-1])
        i = T.eye(n, n, DType(val.dt.kind, val.dt.prec) if val.dt.kind in "fc" else FD, val.dev)
        return T.ewise(X.mul, T.unsqueeze(val, val.ndim), i, dt=val.dt)

    def m_take_along_dim(self, t, index, dim=None):
        if dim is None:
            raise TooHard("take_along_dim")
        return self.m_gather(t, dim, index)

    def m_gather(self, t, dim, index):
        """Same leading axes, one index per entry: sum over the axis of eq(index, k) * entry."""
        cur, ix = self.v(t), self.v(index)
        if ix.dt is not I64:
            raise TorchError("gather(): Expected dtype int64 for index")
        if ix.ndim != cur.ndim:
            raise TorchError("Index tensor must have the same number of dimensions as input tensor")
        d = T.normdim(dim, cur.ndim)
        for k in range(cur.ndim):
            if k != d and T.dim_eq(cur.shape[k], ix.shape[k]) is not True:
                raise TooHard("gather of a part")
        # put the indexed axis of the source last, the one of the index just before
        perm = [k for k in range(cur.ndim) if k != d]
        src = T.unsqueeze(T.permute(cur, perm + [d]), cur.ndim - 1)
        idx = T.unsqueeze(T.permute(ix, perm + [d]), cur.ndim)
        io = self.arange_val(norm(cur.shape[d]), I64, cur.dev)
        hot = T.ewise(lambda a, b: X.compare("eq", a, b), idx, io, dt=cur.dt)
        r = T.reduce_sum(T.ewise(X.mul, hot, src, dt=cur.dt), [cur.ndim])
        back = list(range(cur.ndim - 1))
        back.insert(d, cur.ndim - 1)
        return self.out(T.permute(r, back))

    def f_pad(self, t, pad, mode="constant", value=None):
        val = self.v(t)
        pad = [self.dimarg(p) for p in self.it.iterate(pad)]
        if mode != "constant" or len(pad) % 2 or len(pad) > 2 * val.ndim:
            raise TooHard("pad")
        for k in range(len(pad) // 2):
            d = val.ndim - 1 - k
            for side, n in enumerate(pad[2 * k:2 * k + 2]):
                if isinstance(n, int) and n == 0:
                    continue
                if isinstance(n, int) and n < 0:
                    raise TooHard("negative padding")
                sh = list(val.shape)
                sh[d] = n
                z = T.const_tensor(tuple(sh), 0 if value is None else self.ex(value), val.dt, val.dev)
                val = T.cat([z, val] if side == 0 else [val, z], d)
        return self.out(val)

    def m_tensor_split(self, t, sections, dim=0):
        n = norm(self.v(t).shape[T.normdim(dim, self.v(t).ndim)])
        if not isinstance(sections, int) or not isinstance(n, int):
            raise TooHard("tensor_split")
        d = T.normdim(dim, self.v(t).ndim)
        out, lo = [], 0
        for k in range(sections):
            hi = lo + n // sections + (1 if k < n % sections else 0)
            out.append(self.t_getitem(t, (slice(None),) * d + (slice(lo, hi),)))
            lo = hi
        return tuple(out)

    # ------------------------------------------------ scans
    def _scan(self, t, dim, op, name):
        val = self.v(t)
        d = T.normdim(dim, val.ndim)
        a = val.axes[d]
        if a[0] == "1":
            return self.out(val)
        if a[0] == "E":
            off = sum(T.nE(x) for x in val.axes[:d])
            out, run = {}, {}
            for p in sorted(val.cells):
                q = p[:off] + p[off + 1:]
                run[q] = op(run[q], val.cells[p]) if q in run else val.cells[p]
                out[p] = run[q]
            return self.out(val.rep(cells=out))
        if a[0] == "V" and name == "cumsum":
            n = norm(val.shape[d])
            io = self.arange_val(n, I64, val.dev)
            last = T.permute(T.unsqueeze(val, val.ndim), [k if k < d else k + 1 for k in range(val.ndim - 1)] + [val.ndim, d]) if val.ndim > 1 \
                else T.unsqueeze(val, 0)
            # last: (..., 1, n): weight by [source <= target]
            w = T.ewise(lambda x, y: X.compare("ge", x, y), T.unsqueeze(io, 1), T.unsqueeze(io, 0), dt=val.dt)
            r = T.reduce_sum(T.ewise(X.mul, last, w, dt=val.dt), [last.ndim - 1])
            back = list(range(val.ndim - 1))
            back.insert(d, val.ndim - 1)
            return self.out(T.permute(r, back))
        raise TooHard(name)

    def m_cumsum(self, t, dim, dtype=None):
        return self._scan(t, dim, lambda a, b: a + b, "cumsum")

    def m_cumprod(self, t, dim, dtype=None):
        return self._scan(t, dim, X.mul, "cumprod")

    def m_prod(self, t, *args, dim=None, keepdim=False, dtype=None, axis=None):
        dim, keepdim = self._dim_args(args, dim, keepdim, axis)
        val = self.v(t)
        ds = [d for d in self.dims(t, dim) if d < val.ndim]
        axes, cells = list(val.axes), val.cells
        for d in sorted(ds, reverse=True):
            a = axes[d]
            if a[0] not in ("1", "E"):
                raise TooHard("prod")
            off, n = sum(T.nE(x) for x in axes[:d]), T.nE(a)
            out = {}
            for p, e in cells.items():
                q = p[:off] + p[off + n:]
                out[q] = X.mul(out[q], e) if q in out else e
            axes[d] = ("1",)
            cells = {q: out.get(q, X.ONE) for q in T.positions(T.enums(axes))}
        if not keepdim:
            axes = [a for k, a in enumerate(axes) if k not in ds]
        return self.out(val.rep(axes=tuple(axes), cells=cells, contig=True))

    def m_diff(self, t, n=1, dim=-1):
        if n != 1:
            raise TooHard("diff")
        d = T.normdim(dim, self.v(t).ndim)
        s = (slice(None),) * d
        return self.binary("sub", self.t_getitem(t, s + (slice(1, None),)), self.t_getitem(t, s + (slice(None, -1),)))

    # ------------------------------------------------ reductions
    def m_softmax(self, t, dim=None, dtype=None):
        if dim is None:
            raise TooHard("softmax")
        val = self.v(t)
        ex = val.map(X.exp)
        s = T.reduce_sum(ex, self.dims(t, dim), True)
        return self.out(T.ewise(lambda a, b: X.mul(a, X.inv(b)), ex, s, dt=val.dt))

    def m_log_softmax(self, t, dim=None, dtype=None):
        if dim is None:
            raise TooHard("log_softmax")
        val = self.v(t)
        s = T.reduce_sum(val.map(X.exp), self.dims(t, dim), True)
        return self.out(T.ewise(lambda a, b: a - X.log(b), val, s, dt=val.dt))

    def f_normalize(self, t, p=2.0, dim=1, eps=None):
        if p not in (2, Fraction(2)):
            raise TooHard("normalize")
        n = self.m_norm(t, 2, dim, True)
        return self.binary("truediv", t, self.m_clamp(n, min=Fraction(1, 10**12) if eps is None else eps))

    def m_var(self, t, dim=None, unbiased=True, keepdim=False, correction=None):
        if isinstance(dim, bool):
            dim, unbiased = None, dim
        val = self.v(t)
        ds = self.dims(t, dim)
        n = E(1)
        for d in ds:
            n = X.mul(n, E(P(val.shape[d])))
        c = (1 if unbiased else 0) if correction is None else correction
        mean = T.reduce_sum(val, ds, True).map(lambda e: X.mul(e, X.inv(n)))
        sq = T.ewise(lambda a, m: X.powr(X.cabs(a - m), Fraction(2)), val, mean, dt=DType("f", val.dt.prec))
        r = T.reduce_sum(sq, ds, keepdim)
        return self.out(r.map(lambda e: X.mul(e, X.inv(n - E(c)))))

    def m_std(self, t, dim=None, unbiased=True, keepdim=False, correction=None):
        r = self.m_var(t, dim, unbiased, keepdim, correction)
        return self.out(self.v(r).map(lambda e: X.powr(e, HALF)))

    def _order(self, t, dim, descending, what):
        """Sorted entries along an enumerated axis, as order statistics of its entries."""
        val = self.v(t)
        d = T.normdim(dim, val.ndim)
        a = val.axes[d]
        if a[0] == "1":
            return val, d
        if a[0] != "E":
            # an unordered function of the whole axis: entry k of the sorted axis
            raise TooHard(what)
        off = sum(T.nE(x) for x in val.axes[:d])
        out = {}
        for p in val.cells:
            group = sorted((val.cells[p[:off] + (k,) + p[off + 1:]] for k in range(a[1])), key=X.ekey)
            k = p[off] if not descending else a[1] - 1 - p[off]
            if all(e.is_const for e in group):
                out[p] = sorted(group, key=lambda e: e.value)[k]
            else:
                out[p] = X.fn("order", [E(k)] + group)
        return val.rep(cells=out), d

    def m_sort(self, t, dim=-1, descending=False, stable=False):
        if self.v(t).ndim == 0 or self.v(t).ndim == 1 and descending and self.is_sv(self.v(t)):
            return NamedTup((t, Opaque("indices")), ("values", "indices"))
        val, _ = self._order(t, dim, descending, "sort")
        return NamedTup((self.out(val), Opaque("indices")), ("values", "indices"))

    def m_topk(self, t, k, dim=-1, largest=True, sorted=True):
        val, d = self._order(t, dim, largest, "topk")
        n = norm(val.shape[d])
        k = self.dimarg(k)
        if isinstance(n, int) and isinstance(k, int) and k > n:
            raise TorchError("selected index k out of range")
        return NamedTup((self.out(T.getitem(val, (slice(None),) * d + (slice(0, k),))), Opaque("indices")), ("values", "indices"))

    def m_nan_to_num(self, t, nan=0, posinf=None, neginf=None):
        return self.out(self.v(t).map(lambda e: e if e.is_const else X.fn("nan_to_num", [e])))

    # ------------------------------------------------ elementwise
    def _un(self, name):
        return lambda t: self.out(self.v(t).map(lambda e: X.fn(name, [e])))

    def m_clamp_max(self, t, max):
        return self.m_clamp(t, max=max)

    def m_fmax(self, t, o):
        return self.m_clamp(t, min=o)

    def m_fmin(self, t, o):
        return self.m_clamp(t, max=o)

    def m_log10(self, t):
        k = X.inv(X.log(E(10)))
        return self.out(self.v(t).map(lambda e: X.mul(X.log(e), k)))

    def m_expm1(self, t):
        return self.out(self.v(t).map(lambda e: X.exp(e) - X.ONE))

    def m_remainder(self, t, o):
        return self.binary("mod", t, o)

    def m_floor_divide(self, t, o):
        return self.binary("floordiv", t, o)

    def m_round(self, t, decimals=0):
        return self._un("round")(t)

    def m_trunc(self, t):
        return self._un("trunc")(t)

    def m_tan(self, t):
        return self._un("tan")(t)

    def m_atan(self, t):
        return self._un("atan")(t)

    def m_erf(self, t):
        return self._un("erf")(t)

    def f_softplus(self, t, beta=1, threshold=20):
        return self.out(self.v(t).map(lambda e: X.log(X.ONE + X.exp(e))))

    def m_hypot(self, a, b):
        return self.out(T.ewise(lambda x, y: X.powr(X.mul(x, x) + X.mul(y, y), HALF), self.v(a), self.v(b)))

    def m_logaddexp(self, a, b):
        return self.out(T.ewise(lambda x, y: X.log(X.exp(x) + X.exp(y)), self.v(a), self.v(b)))

    def m_xlogy(self, a, b):
        return self.out(T.ewise(lambda x, y: X.mul(x, X.log(y)), self.v(a), self.v(b)))

    def m_isclose(self, a, b, rtol=None, atol=None, equal_nan=False):
        return self.out(T.ewise(lambda x, y: X.ONE if x == y else X.fn("isclose", sorted([x, y], key=X.ekey)), self.v(a), self.v(b), dt=BOOL))

    def f_scalar_tensor(self, x, **kw):
        return self.f_tensor(x, **kw)

    def f_view_as_real(self, t):
        val = self.v(t)
        if val.dt.kind != "c":
            raise TorchError("view_as_real is only supported for complex tensors")
        f = DType("f", val.dt.prec)
        return self.out(T.stack([val.map(X.re, dt=f), val.map(X.im, dt=f)], val.ndim))

    # ------------------------------------------------ products
    def m_addmm(self, c, a, b, beta=1, alpha=1):
        p = self.m_mm(a, b)
        return self.binary("add", self.scal_mul(c, beta) if beta != 1 else c, self.scal_mul(p, alpha) if alpha != 1 else p)

    def m_addmv(self, c, a, b, beta=1, alpha=1):
        p = self.m_matmul(a, b)
        return self.binary("add", self.scal_mul(c, beta) if beta != 1 else c, self.scal_mul(p, alpha) if alpha != 1 else p)

    def m_baddbmm(self, c, a, b, beta=1, alpha=1):
        p = self.m_bmm(a, b)
        return self.binary("add", self.scal_mul(c, beta) if beta != 1 else c, self.scal_mul(p, alpha) if alpha != 1 else p)

    def m_addcdiv(self, c, a, b, value=1):
        p = self.binary("truediv", a, b)
        return self.binary("add", c, self.scal_mul(p, value) if value != 1 else p)

    def m_matrix_power(self, a, n):
        n = norm(n)
        if not isinstance(n, int) or n < 0:
            raise TooHard("matrix_power")
        v = self.v(a)
        if n == 0:
            return self.out(T.expand(T.eye(v.shape[-1], v.shape[-1], v.dt, v.dev), list(v.shape)))
        r = a
        for _ in range(n - 1):
            r = self.m_matmul(r, a)
        return r

    def m_kron(self, a, b):
        va, vb = self.v(a), self.v(b)
        if va.ndim != 2 or vb.ndim != 2:
            raise TooHard("kron")
        r = T.einsum([va, vb], ["ik", "jl"], "ijkl")
        return self.out(T.reshape(r, [P(va.shape[0]) * P(vb.shape[0]), P(va.shape[1]) * P(vb.shape[1])]))

    def f_block_diag(self, *ts):
        vs = [self.v(t) for t in ts]
        if any(v.ndim != 2 for v in vs):
            raise TooHard("block_diag")
        rows = []
        for i, v in enumerate(vs):
            rows.append(T.cat([v if j == i else T.const_tensor((v.shape[0], w.shape[1]), 0, v.dt, v.dev) for j, w in enumerate(vs)], 1))
        return self.out(T.cat(rows, 0))

    def f_meshgrid(self, *ts, indexing="ij"):
        if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
            ts = ts[0]
        vs = [self.v(t) for t in ts]
        if indexing != "ij" or any(v.ndim != 1 for v in vs):
            raise TooHard("meshgrid")
        full = [v.shape[0] for v in vs]
        out = []
        for k, v in enumerate(vs):
            for _ in range(k):
                v = T.unsqueeze(v, 0)
            for _ in range(len(vs) - k - 1):
                v = T.unsqueeze(v, v.ndim)
            out.append(self.out(T.expand(v, full)))
        return tuple(out)

    def f_dstack(self, ts):
        up = lambda v: T.unsqueeze(T.unsqueeze(v, 0) if v.ndim == 1 else v, 2) if v.ndim < 3 else v
        return self.f_cat([self.out(up(self.v(t))) for t in self.it.iterate(ts)], 2)

    def m_fill_diagonal_(self, t, value, wrap=False):
        d = self.m_diagonal(t)
        return self.t_method(d, "fill_", value) and t

    def f_linalg_svdvals(self, t):
        return self.out(self._svd(self.v(t))[1])

    def f_linalg_vecdot(self, a, b, dim=-1):
        va, vb = self.v(a), self.v(b)
        return self.out(T.reduce_sum(T.ewise(lambda x, y: X.mul(X.conj(x), y), va, vb), [dim]))

    # ------------------------------------------------ randomness
    def f_randint(self, *a, **kw):
        self.it.event("rng", "draws random numbers (randint)")
        raise TooHard("randint")

    def f_randperm(self, n, **kw):
        self.it.event("rng", "draws random numbers (randperm)")
        kw.pop("dtype", None)
        return self.out(T.base_tensor(self.uid("randperm#"), (self.dimarg(n),), I64, "C"))

    def f_normal(self, mean=0, std=1, size=None, **kw):
        if isinstance(mean, TensorObj) or isinstance(std, TensorObj):
            m, s = self.v(mean), self.v(std)
            like = mean if isinstance(mean, TensorObj) else std
            r = self.rand_tensor("randn", like.get().shape, like.get().dt, like.get().dev)
        else:
            dt, dev = self.mk(kw)
            r = self.rand_tensor("randn", self.sizes([size]), dt, dev)
            m, s = self.v(mean), self.v(std)
        m, s = m.rep(dev=r.dev), s.rep(dev=r.dev)
        return self.out(T.ewise(lambda x, a, b: X.mul(x, b) + a, r, m, s, dt=r.dt))

    def f_bernoulli(self, t, p=None):
        v = self.v(t)
        return self.out(self.rand_tensor("bernoulli", v.shape, v.dt, v.dev))

    def f_dropout(self, t, p=HALF, training=True, inplace=False):
        if not training:
            return t
        v = self.v(t)
        r = self.rand_tensor("bernoulli", v.shape, v.dt, v.dev)
        return self.out(T.ewise(lambda a, b: X.mul(X.mul(a, b), X.inv(X.ONE - self.ex(p))), v, r, dt=v.dt))

    def i_normal_(self, t, mean=0, std=1, **k):
        return self.m_normal_(t, mean, std)

    def i_uniform_(self, t, a=0, b=1, **k):
        return self.m_uniform_(t, a, b)

    def i_zeros_(self, t):
        return self.t_method(t, "zero_")

    def i_ones_(self, t):
        return self.t_method(t, "fill_", 1)

    def i_constant_(self, t, val):
        return self.t_method(t, "fill_", val)

    def t_method(self, t, name, *a):
        return self.it.call(self.it.getattr(t, name), list(a), {})

    # ------------------------------------------------ python library
    def f_lru_cache(self, maxsize=128, typed=False):
        it = self.it

        def deco(f):
            memo = {}

            def key(x):
                if isinstance(x, (list, dict, set)):
                    it.raise_(TypeError, f"unhashable type: '{it.tname(x)}'")
                if isinstance(x, tuple):
                    return ("tuple",) + tuple(key(y) for y in x)
                if isinstance(x, (SNum, Undec)):
                    raise TooHard("cache key")
                if isinstance(x, (int, str, Fraction, float, Poly, bool)) or x is None:
                    return (type(x) in (bool, int, Fraction), x)
                return ("id", id(x))

            def wrapper(*a, **k):
                kk = (tuple(key(x) for x in a), tuple(sorted((n, key(x)) for n, x in k.items())))
                if kk in memo:
                    return memo[kk][0]
                r = it.call(f, list(a), k)
                memo[kk] = (r, a, k)
                if isinstance(maxsize, int) and len(memo) > maxsize:
                    memo.pop(next(iter(memo)))
                return r
            return Native("cached function", wrapper)
        if callable_like(maxsize):
            f, maxsize = maxsize, 128
            return deco(f)
        return Native("lru_cache", deco)

    def f_cache(self, f):
        return self.it.call(self.f_lru_cache(None), [f], {})

    def f_copy(self, x):
        if isinstance(x, TensorObj):
            return self.m_view_as(x, x) if hasattr(self, "m_view_as") else self.hard("copy of a tensor")
        if isinstance(x, LObj):
            return LObj(list(x))
        if isinstance(x, list):
            return list(x)
        if isinstance(x, dict):
            return dict(x)
        if isinstance(x, (int, str, Fraction, float, bool, Poly, tuple)) or x is None:
            return x
        raise TooHard("copy")

    def f_deepcopy(self, x, memo=None):
        if isinstance(x, TensorObj):
            return self.m_clone(self.m_detach(x))
        if isinstance(x, LObj):
            return LObj([self.f_deepcopy(y) for y in x])
        if isinstance(x, list):
            return [self.f_deepcopy(y) for y in x]
        if isinstance(x, tuple) and type(x) is tuple:
            return tuple(self.f_deepcopy(y) for y in x)
        if isinstance(x, dict):
            return {k: self.f_deepcopy(v) for k, v in x.items()}
        if isinstance(x, (int, str, Fraction, float, bool, Poly)) or x is None:
            return x
        raise TooHard("deepcopy")


    def f_finfo(self, dt=None):
        prec = getattr(dt if dt is not None else FD, "prec", None)
        v = {"eps": X.number("eps"), "tiny": X.number("tiny"), "max": X.number("fmax"), "min": X.ZERO - X.number("fmax"), "smallest_normal": X.number("tiny")}
        return NativeMod("finfo", {k: SNum(e) for k, e in v.items()})

    def math_isclose(self, a, b, rel_tol=None, abs_tol=None):
        x, y = self.ex(a), self.ex(b)
        if x == y:
            return True
        if x.is_const and y.is_const:
            import math
            return math.isclose(float(x.value), float(y.value))
        return Undec(("truth", X.fn("isclose", sorted([x, y], key=X.ekey))), "isclose")

    def b_issubclass(self, a, c):
        if isinstance(c, tuple):
            return any(self.b_issubclass(a, x) for x in c)
        if isinstance(a, ClassV) and isinstance(c, ClassV):
            return a.issub(c)
        if c is object:
            return True
        if isinstance(a, ClassV) and isinstance(c, TypeTok):
            return False
        raise TooHard("issubclass")


def callable_like(f):
    from .interp import FuncV, BoundV, PartialV
    return isinstance(f, (FuncV, BoundV, PartialV, Native))
