"""Models of the library functions the repository uses (torch, numpy, math, ...).

Nothing here calls the real libraries.  A function without a model ends the
scenario with "no answer" (TooHard).
"""
import builtins as _bi
import collections
import math as _math
import os
from fractions import Fraction
from .poly import Poly, P, cmp_le, cmp_eq, cmp_lt
from . import poly, expr as X
from . import tensor as T
from .expr import TooHard, E
from .tensor import (TVal, TorchError, DType, FD, CD, FP, CP, F64, C64, F16, I64, I32, BOOL, norm, dim_eq)
from .interp import (SNum, snum, Undec, Size, LObj, FuncV, BoundV, ClassV, Instance, Native, NativeMod, ModuleV,
                     TypeTok, PartialV, GenV, DefDict, Keys, Unknown, PropV, StaticV, CtxV, Opaque, AbsRaise, ExcObj, Root, TensorObj, MISSING,
                     _Break, _Continue, Env, NamedTup)
from .torchmore import More
from .pystd import PyStd

_names = os.path.join(os.path.dirname(__file__), "torch_names.txt")
TENSOR_NAMES = set(open(_names).read().split()) if os.path.exists(_names) else set()

HALF = Fraction(1, 2)


class NpArr:
    def __init__(self, t):
        self.t = t


class ModDict:
    def __init__(self, d):
        self.d = d


class DevTok:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"device({self.name})"


DEVC, DEVM = DevTok("C"), DevTok("M")
ALIAS = {"absolute": "abs", "trapezoid": "trapz", "swapaxes": "transpose", "swapdims": "transpose",
         "multiply": "mul", "divide": "div", "true_divide": "div", "subtract": "sub", "concat": "cat",
         "concatenate": "cat", "moveaxis": "movedim", "greater": "gt", "less": "lt",
         "greater_equal": "ge", "less_equal": "le", "not_equal": "ne", "dim": "ndim_", "resolve_conj": "same",
         "resolve_neg": "same", "negative": "neg", "clip": "clamp", "unsafe_chunk": "chunk"}


class Lib(More, PyStd):
    NpArr = NpArr
    ModDict = ModDict

    def __init__(self, it):
        self.it = it
        self.Module = ClassV("Module", [])
        self.count = {}
        self.svds = {}
        self.saved_names = []
        self.trace = None       # while a list: every computed tensor, with its place

    # ------------------------------------------------------------ helpers
    def uid(self, pre):
        self.count[pre] = self.count.get(pre, 0) + 1
        return f"{pre}{self.count[pre]}"

    def v(self, t):
        if isinstance(t, TensorObj):
            val = t.get()
            if getattr(t, "det", False):
                val = val.map(X.detach, contig=val.contig)
            return val
        if isinstance(t, NpArr):
            return t.t.get()
        if self.is_scalar(t):
            return TVal((), {(): self.ex(t)}, self.sdt(t), "C")
        self.it.raise_(TypeError, f"expected a Tensor, got {self.it.tname(t)}")

    def out(self, val, det=False):
        if not self.it.grad or det:
            val = val.map(X.detach, contig=val.contig)
        if self.trace is not None:
            self.trace.append((val, self.it.where()))
        return TensorObj(Root(val))

    def is_scalar(self, x):
        return isinstance(x, (int, Fraction, float, Poly, SNum, bool))

    def ex(self, x):
        if isinstance(x, SNum):
            return x.e
        if isinstance(x, bool):
            return E(int(x))
        if isinstance(x, float):
            if x != x or abs(x) == float("inf"):
                raise TooHard("inf/nan")
            return E(Fraction(repr(x)))
        if isinstance(x, Poly):
            return E(x)
        return E(x)

    def sdt(self, x):
        if isinstance(x, bool):
            return BOOL
        if isinstance(x, (int, Poly)):
            return I64
        if isinstance(x, SNum):
            return FD if X.is_real(x.e) else CD
        return FD

    def isint(self, x):
        return isinstance(x, (int, Poly)) and not isinstance(x, bool)

    def dimarg(self, x):
        if isinstance(x, TensorObj):
            x = self.item_int(x)
        if isinstance(x, bool) or not isinstance(x, (int, Poly)):
            self.it.raise_(TypeError, f"expected an integer size, got {self.it.tname(x)}")
        return norm(x)

    def sizes(self, args):
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            args = args[0]
        return [self.dimarg(a) for a in args]

    def cls(self, name):
        return getattr(_bi, name)

    def view(self, t, ap, wr, strides=None):
        r = TensorObj(t.root, t.path + ((ap, wr),))
        r.det = getattr(t, "det", False) or not self.it.grad
        if getattr(t, "of_param", False) or t.is_param:
            r.of_param = True
        r.get()
        if strides and getattr(t, "strides", None) is not None:
            r.strides = strides(t.strides)
        return r

    @staticmethod
    def same(st):
        return st

    def flt(self, dt):
        return FD if dt.kind in "ib" else dt

    def unary_map(self, t, f, dt=None):
        val = self.v(t)
        return self.out(val.map(f, dt=dt or val.dt))

    def dev_of(self, d):
        if d is None:
            return None
        if isinstance(d, DevTok):
            return d.name
        if isinstance(d, str):
            return "C" if d.startswith("cpu") else "M"
        if isinstance(d, int):
            return "M"
        raise TooHard("device")

    def new_like(self, val, dtype=None, device=None, requires_grad=False, **kw):
        return (dtype or val.dt, self.dev_of(device) or val.dev)

    # ------------------------------------------------------------ operators
    def binary(self, name, a, b):
        it = self.it
        if name == "matmul":
            return self.m_matmul(a, b)
        va, vb = self.v(a), self.v(b)
        dts = [self.sdt(x) if self.is_scalar(x) else y for x, y in ((a, va), (b, vb))]
        dt = T.promote_dt(dts) if any(isinstance(d, TVal) for d in dts) else T.promote_dt([va, vb])
        vals = []
        for x, y in ((a, va), (b, vb)):
            if self.is_scalar(x):
                o = vb if x is a else va
                y = y.rep(dev=o.dev)
            vals.append(y)
        va, vb = vals
        if name == "add":
            f = lambda x, y: x + y
        elif name == "sub":
            f = lambda x, y: x - y
        elif name == "mul":
            f = X.mul
        elif name == "truediv":
            f = lambda x, y: X.mul(x, X.inv(y))
            dt = self.flt(dt)
        elif name == "pow":
            f = self._pow
            if dt.kind == "b":
                dt = I64
        elif name in ("floordiv", "mod"):
            f = lambda x, y: self._intop(name, x, y)
        elif name in ("and", "or", "xor"):
            if va.dt.kind != "b" or vb.dt.kind != "b":
                raise TooHard("bitwise operator on integers")
            f = {"and": X.mul, "or": lambda x, y: x + y - X.mul(x, y),
                 "xor": lambda x, y: x + y - X.mul(x, y) - X.mul(x, y)}[name]
        else:
            raise TooHard(f"operator {name} on tensors")
        return self.out(T.ewise(f, va, vb, dt=dt, what=f"'{name}'"))

    def _pow(self, x, y):
        if y.is_const:
            return X.powr(x, y.value)
        if x.is_const and x.value > 0:
            return X.exp(X.mul(y, X.log(x)))
        return X.fn("pow", [x, y])

    def _intop(self, name, x, y):
        if x.is_const and y.is_const and y.value:
            r = x.value // y.value
            return E(r if name == "floordiv" else x.value - r * y.value)
        return X.fn(name, [x, y])

    def inplace(self, name, t, b):
        if isinstance(t, TensorObj):
            r = self.binary(name, t, b)
            self.write(t, self.v(r), f"in-place '{name}'")
            return t

    def write(self, t, val, what):
        """t[...] <- val (same shape)"""
        cur = t.get()
        it = self.it
        if it.grad and (t.is_param and t.req_grad or getattr(t, "of_param", False)):
            raise TorchError(f"{what}: a leaf Variable that requires grad is being used in an in-place operation")
        if val.ndim > cur.ndim:
            raise TorchError(f"{what}: output with shape {list(cur.shape)} doesn't match the broadcast shape")
        try:
            val = T.expand_like(val, cur.axes)
        except TorchError:
            raise TorchError(f"{what}: output with shape {list(cur.shape)} doesn't match the broadcast shape {list(val.shape)}")
        if val.dt.kind == "c" and cur.dt.kind != "c" or (val.dt.kind in "fc" and cur.dt.kind in "ib"):
            if "in-place" in what:
                raise TorchError(f"{what}: result type can't be cast to the desired output type")
        mp = T._same_axes_subst(cur.axes, val.axes)
        if mp is None:
            raise TooHard("in-place write with fused axes")
        cells = {p: X.subst(e, mp) for p, e in val.cells.items()}
        if not it.grad:
            cells = {p: X.detach(e) for p, e in cells.items()}
        self.owner_event(t, what)
        t.set(cur.rep(cells=cells, contig=cur.contig))

    def owner_event(self, t, what):
        o = t.root.owner
        if o is not None:
            if o[0] == "arg":
                self.it.event("mutate", f"{what} modifies the caller's tensor {o[1]!r}", o)
            else:
                self.it.event("mutate_param", f"{what} modifies the {o[0]} {o[1]!r}", o)

    def unary(self, op, t):
        val = self.v(t)
        if op == "USub":
            return self.out(val.map(lambda e: -e))
        if op == "UAdd":
            return t
        if op == "Invert":
            if val.dt.kind != "b":
                raise TooHard("bitwise not")
            return self.out(val.map(lambda e: X.ONE - e))
        raise TooHard(op)

    def compare(self, op, a, b):
        va, vb = self.v(a), self.v(b)
        if self.is_scalar(a):
            va = va.rep(dev=vb.dev)
        if self.is_scalar(b):
            vb = vb.rep(dev=va.dev)
        return self.out(T.ewise(lambda x, y: X.compare(op, x, y), va, vb, dt=BOOL, what="comparison"))

    def truth3(self, t):
        val = t.get()
        n = T.dims_prod(val.shape)
        if not (isinstance(n, int) and n == 1):
            if isinstance(n, int) and n == 0:
                return False
            if isinstance(n, int) or poly.lower(P(n)) is not None and poly.lower(P(n)) > 1:
                raise AbsRaise(RuntimeError, ("Boolean value of Tensor with more than one value is ambiguous",), self.it.where())
            raise TooHard("truth of a tensor of symbolic size")
        e = val.scalar
        if e.is_const:
            return e.value != 0
        key, neg = self._tkey(e)
        for k, _, a in self.it.decisions:
            if k == key:
                return a ^ neg
        return None

    def _tkey(self, e):
        e = X.undetach(e)
        f = X.single_factor(X.ONE - e)
        if f is not None and X.single_factor(e) is None:
            return ("truth", X.ONE - e), True
        return ("truth", e), False

    def truth_key(self, t):
        e = t.get().scalar
        key, neg = self._tkey(e)
        if neg:
            class K(tuple):
                pass
            # encode the negated question as its own key, linked by convention
            return ("truth", X.undetach(e))
        return key

    # ------------------------------------------------------------ indexing
    def conv_index(self, idx):
        if isinstance(idx, list):
            if any(isinstance(i, (slice, type(None), TensorObj)) or i is Ellipsis for i in idx):
                idx = tuple(idx)
        items = idx if isinstance(idx, tuple) else (idx,)
        out = []
        for i in items:
            if isinstance(i, TensorObj):
                val = self.v(i)
                if val.ndim == 0 and val.scalar.is_const and val.dt.kind == "i":
                    i = int(val.scalar.value)
                else:
                    i = val
            elif isinstance(i, list):
                i = self.from_data(i)
            elif isinstance(i, slice):
                i = slice(*[self.item_int(x) if isinstance(x, TensorObj) else x for x in (i.start, i.stop, i.step)])
                for x in (i.start, i.stop, i.step):
                    if not (x is None or isinstance(x, (int, Poly))):
                        self.it.raise_(TypeError, "slice indices must be integers or None")
            elif isinstance(i, (Fraction, SNum, float, str)):
                self.it.raise_(IndexError, "only integers, slices, ellipsis, None and tensors are valid indices")
            elif isinstance(i, Instance):
                raise TooHard("index object")
            out.append(i)
        return tuple(out)

    def t_getitem(self, t, idx):
        ix = self.conv_index(idx)
        if any(isinstance(i, TVal) for i in ix):
            val = self.v(t)
            for i in ix:
                if isinstance(i, TVal) and i.dt.kind == "b":
                    raise TooHard("mask index")
            return self.out(T.getitem(val, ix))
        return self.view(t, lambda v: T.getitem(v, ix), lambda base, new: T.setitem(base, ix, new), lambda st: self.index_strides(st, ix))

    def index_strides(self, st, ix):
        """Strides after basic indexing."""
        n = sum(1 for i in ix if i is not None and i is not Ellipsis)
        out, k = [], 0
        for i in ix + (() if Ellipsis in [x for x in ix if x is Ellipsis] else (Ellipsis,)):
            if i is None:
                out.append(0)
            elif i is Ellipsis:
                out += st[k:k + len(st) - n]
                k += len(st) - n
            else:
                if isinstance(i, slice):
                    if isinstance(i.step, Poly):
                        return None
                    out.append(st[k] * (i.step or 1))
                k += 1
        return tuple(out)

    def t_setitem(self, t, idx, v):
        ix = self.conv_index(idx)
        val = self.v(v)
        cur = t.get()
        if self.is_scalar(v) or not any(isinstance(i, TVal) for i in ix):
            val = val.rep(dev=cur.dev)      # copy_ into a view moves between devices
        else:
            T.join_dev([cur, val], "item assignment")
        if val.dt.kind == "c" and cur.dt.kind != "c":
            self.it.event("dtype", "item assignment of a complex tensor into a real one")
            val = val.map(X.re)
        if self.it.grad and (t.is_param and t.req_grad or getattr(t, "of_param", False)):
            raise TorchError("item assignment: a leaf Variable that requires grad is being used in an in-place operation")
        if not self.it.grad:
            val = val.map(X.detach)
        if any(isinstance(i, TVal) and i.dt.kind == "b" for i in ix):
            if len(ix) == 1 and ix[0].ndim == cur.ndim and val.ndim == 0:
                r = T.ewise(lambda c, o, n: X.where(c, n, o), ix[0], cur, val.rep(dev=cur.dev), dt=cur.dt)
                self.owner_event(t, "item assignment")
                mp = T._same_axes_subst(cur.axes, r.axes)
                if mp is None:
                    raise TooHard("mask assignment")
                t.set(cur.rep(cells={p: X.subst(e, mp) for p, e in r.cells.items()}))
                return
            raise TooHard("mask assignment")
        new = T.setitem(cur, ix, val)
        self.owner_event(t, "item assignment")
        t.set(new)

    def t_iter(self, t):
        val = t.get()
        if val.ndim == 0:
            self.it.raise_(TypeError, "iteration over a 0-d tensor")
        n = norm(val.shape[0])
        if not isinstance(n, int):
            raise TooHard("iteration over a symbolic axis")
        return iter([self.t_getitem(t, k) for k in range(n)])

    def item_int(self, t):
        val = t.get()
        if T.dims_prod(val.shape) != 1:
            self.it.raise_(TypeError, "only integer tensors of a single element can be converted to an index")
        e = val.scalar
        e = self.decide_bools(e)
        if e.is_const:
            if e.value.denominator == 1:
                return int(e.value)
            self.it.raise_(TypeError, "only integer tensors can be converted to an index")
        p = self.as_poly(e)
        if p is not None:
            return norm(p)
        raise TooHard("data-dependent integer")

    def as_poly(self, e):
        f = X.single_factor(e)
        if f and f[0] == "N" and isinstance(f[1], Poly):
            return f[1]
        return None

    def decide_bools(self, e):
        """Replace comparison atoms in a scalar by decided truth values."""
        for _ in range(64):
            atom = None
            for m in e.d:
                for comp, x in m:
                    if X._single(comp):
                        f = comp[0][0][0]
                        if f[0] == "F" and X.FN[f[1]][0] in ("lt", "le", "eq", "all", "any", "isfinite"):
                            atom = comp
                            break
                if atom:
                    break
            if atom is None:
                return e
            ae = X.Expr({frozenset([(atom, Fraction(1))]): Fraction(1)})
            ans = self.it.decide(("truth", X.undetach(ae)), "comparison")
            new = X.ZERO
            for m, c in e.d.items():
                if any(comp == atom for comp, x in m):
                    if ans:
                        new = new + X.Expr({frozenset((comp, x) for comp, x in m if comp != atom): c})
                else:
                    new = new + X.Expr({m: c})
            e = new
        raise TooHard("comparison count")

    # ------------------------------------------------------------ tensor attributes
    def tensor_attr(self, t, name):
        val = None
        if name in t.attrs:
            return t.attrs[name]
        if name == "shape":
            return Size(t.get().shape)
        if name == "ndim":
            return t.get().ndim
        if name == "dtype":
            return t.get().dt
        if name == "device":
            return DEVM if t.get().dev == "M" else DEVC
        if name == "is_cuda":
            return t.get().dev == "M"
        if name in ("T", "mT", "H", "mH"):
            val = t.get()
            n = val.ndim
            if name in ("T", "H") and n == 2 or name in ("mT", "mH"):
                r = self.m_transpose(t, -2, -1)
            elif name == "T":
                r = self.m_permute(t, *range(n)[::-1])
            else:
                raise TooHard(".H")
            return self.m_conj(r) if name in ("H", "mH") else r
        if name in ("real", "imag"):
            val = t.get()
            if val.dt.kind != "c":
                if name == "real":
                    return t
                raise TorchError("imag is not implemented for tensors with non-complex dtypes")
            f = X.re if name == "real" else X.im
            return self.view(t, lambda v: v.map(f, dt=DType("f", v.dt.prec), contig=v.contig), None)
        if name == "data":
            r = self.view(t, lambda v: v, lambda b, n: n, self.same)
            r.det = True
            r.of_param = False
            return r
        if name == "grad":
            return None
        if name == "requires_grad":
            return t.req_grad
        if name == "is_leaf":
            return True
        if name == "layout":
            return Opaque("torch.strided")
        nm = ALIAS.get(name, name)
        m = getattr(self, "m_" + nm, None)
        if m is None and name.startswith("__") and name.endswith("__"):
            op = name[2:-2]
            if op in ("add", "sub", "mul", "truediv", "matmul", "pow"):
                m = lambda a, b: self.binary(op, a, b)
            elif op in ("radd", "rsub", "rmul", "rtruediv", "rmatmul"):
                m = lambda a, b: self.binary(op[1:], b, a)
            elif op in ("eq", "ne", "lt", "le", "gt", "ge"):
                m = lambda a, b: self.compare(op, a, b)
            elif op == "getitem":
                m = self.t_getitem
            elif op == "len":
                m = lambda a: self.b_len(a)
        if m is None:
            if name.endswith("_") and not name.endswith("__"):
                base = getattr(self, "m_" + ALIAS.get(name[:-1], name[:-1]), None)
                if base is not None and name[:-1] in INPLACE_OK:
                    def inpl(*a, **k):
                        r = base(t, *a, **k)
                        self.write(t, self.v(r), f"in-place {name}")
                        return t
                    return Native(name, inpl, t=t)
            if name in TENSOR_NAMES:
                raise TooHard(f"Tensor.{name}")
            return MISSING
        return Native("Tensor." + name, lambda *a, **k: m(t, *a, **k), t=t)

    def tensor_setattr(self, t, name, v):
        if name == "requires_grad":
            t.req_grad = self.it.truth(v)
            return
        if name == "data":
            val = self.v(v)
            self.owner_event(t, "assignment to .data")
            if t.path:
                raise TooHard(".data of a view")
            t.root.val = val
            t.root.version += 1
            return
        if name == "grad":
            return
        if name in ("real", "imag", "grad_fn", "names", "_grad", "T", "H", "mT", "mH", "shape", "dtype", "device"):
            raise TooHard(f"assignment to tensor.{name}")
        t.attrs[name] = v

    # ------------------------------------------------------------ tensor methods
    def m_same(self, t):
        return t

    def m_size(self, t, dim=None):
        s = t.get().shape
        if dim is None:
            return Size(s)
        return s[T.normdim(self.dimarg(dim), len(s))]

    def m_ndim_(self, t):
        return t.get().ndim

    def m_numel(self, t):
        return T.dims_prod(t.get().shape)
    m_nelement = m_numel

    def m_is_complex(self, t):
        return self.v(t).dt.kind == "c"

    def m_is_floating_point(self, t):
        return self.v(t).dt.kind == "f"

    def m_is_contiguous(self, t):
        return t.get().contig

    def m_contiguous(self, t, **kw):
        if t.get().contig:
            if t.is_param or getattr(t, "of_param", False) or True:
                return self.view(t, lambda v: v, lambda b, n: n, self.same)
        return self.maybe_view(t, self.m_clone(t))

    def m_clone(self, t, **kw):
        val = self.v(t)
        return self.out(val.rep(contig=True))

    def m_detach(self, t):
        r = self.view(t, lambda v: v, lambda b, n: n, self.same)
        r.det = True
        r.of_param = False
        return r

    def m_requires_grad_(self, t, flag=True):
        t.req_grad = flag
        return t

    def m_to(self, t, *args, dtype=None, device=None, copy=False, non_blocking=False):
        val = self.v(t)
        for a in args:
            if isinstance(a, DType):
                dtype = a
            elif isinstance(a, TensorObj):
                o = a.get()
                dtype, device = o.dt, o.dev if False else (DEVM if o.dev == "M" else DEVC)
            elif isinstance(a, (DevTok, str)):
                device = a
            elif isinstance(a, bool):
                pass
            elif a is None:
                pass
            else:
                raise TooHard("to()")
        dev = self.dev_of(device) or val.dev
        dt = dtype or val.dt
        if dev == val.dev and dt is val.dt and not copy:
            return t
        return self.out(self.cast(val, dt).rep(dev=dev, contig=True))

    def cast(self, val, dt):
        if dt is val.dt:
            return val
        if dt.kind in "fc" and val.dt.kind in "fc" and dt.prec == "D" and val.dt.prec == "P" and \
                any(X.base_tensors(e) for e in val.cells.values()):
            self.it.event("cast", "casts a tensor of the model's precision to the default precision")
        if val.dt.kind in "fc" and dt.kind in "fc" and dt.prec == "16" and val.dt.prec != "16":
            self.it.event("cast", "casts to half precision")
        if val.dt.kind == "c" and dt.kind == "f":
            self.it.event("dtype", "casts a complex tensor to a real dtype")
            val = val.map(X.re, contig=val.contig)
        if dt.kind == "i" and val.dt.kind in "fc":
            val = val.map(lambda e: E(int(e.value)) if e.is_const else X.fn("trunc", [e]))
        if dt.kind == "b" and val.dt.kind != "b":
            val = val.map(lambda e: X.compare("ne", e, X.ZERO))
        return val.rep(dt=dt, contig=val.contig)

    def _mk_cast(dt):
        return lambda self, t: t if self.v(t).dt is dt else self.out(self.cast(self.v(t), dt))
    m_float = _mk_cast(FD)
    m_double = _mk_cast(F64)
    m_half = _mk_cast(F16)
    m_long = _mk_cast(I64)
    m_int = _mk_cast(I32)
    m_bool = _mk_cast(BOOL)
    m_cfloat = _mk_cast(CD)
    m_cdouble = _mk_cast(C64)

    def m_type(self, t, dtype=None):
        if dtype is None:
            raise TooHard("Tensor.type()")
        return self.m_to(t, dtype)

    def m_type_as(self, t, o):
        return self.m_to(t, o)

    def m_cpu(self, t):
        val = self.v(t)
        return t if val.dev == "C" else self.out(val.rep(dev="C"))

    def m_cuda(self, t, *a, **k):
        val = self.v(t)
        return t if val.dev == "M" else self.out(val.rep(dev="M"))

    def m_numpy(self, t, **kw):
        val = t.get()
        if val.dev == "M":
            self.it.raise_(TypeError, "can't convert cuda device type tensor to numpy")
        if (t.is_param and t.req_grad) and not getattr(t, "det", False) and self.it.grad:
            self.it.raise_(RuntimeError, "Can't call numpy() on Tensor that requires grad")
        return NpArr(self.view(t, lambda v: v, lambda b, n: n, self.same))

    def m_item(self, t):
        val = t.get()
        if T.dims_prod(val.shape) != 1:
            self.it.raise_(RuntimeError, "a Tensor with more than one element cannot be converted to Scalar")
        e = val.scalar
        if val.dt.kind in "ib":
            e = self.decide_bools(e)
        if e.is_const:
            if val.dt.kind == "b":
                return bool(e.value)
            return int(e.value) if val.dt.kind == "i" else e.value
        if val.dt.kind == "b":
            return self.it.truth(t)
        if val.dt.kind == "i":
            p = self.as_poly(e)
            return norm(p) if p is not None else SNum(e)
        return SNum(X.detach(e))

    def m_tolist(self, t):
        val = t.get()
        if val.ndim == 0:
            return self.m_item(t)
        return [self.m_tolist(x) for x in self.t_iter(t)]

    # elementwise
    def _mk_un(f, tofloat=True, dt=None):
        def m(self, t, **kw):
            val = self.v(t)
            return self.out(val.map(f, dt=dt or (self.flt(val.dt) if tofloat else val.dt)))
        return m
    m_exp = _mk_un(X.exp)
    m_log = _mk_un(X.log)
    m_sqrt = _mk_un(lambda e: X.powr(e, HALF))
    m_rsqrt = _mk_un(lambda e: X.powr(e, -HALF))
    m_reciprocal = _mk_un(X.inv)
    m_square = _mk_un(lambda e: X.mul(e, e), False)
    m_neg = _mk_un(lambda e: -e, False)
    m_cos = _mk_un(lambda e: X.E(1) if e == X.ZERO else X.fn("cos", [e]))
    m_sin = _mk_un(lambda e: X.ZERO if e == X.ZERO else X.fn("sin", [e]))
    m_tanh = _mk_un(lambda e: X.fn("tanh", [e]))
    m_sigmoid = _mk_un(lambda e: X.fn("sigmoid", [e]))
    m_relu = _mk_un(lambda e: X.fn("max2", sorted([e, X.ZERO], key=X.ekey)), False)
    m_floor = _mk_un(lambda e: E(Fraction(e.value.numerator // e.value.denominator)) if e.is_const else X.fn("floor", [e]), False)
    m_ceil = _mk_un(lambda e: E(-Fraction((-e.value).numerator // (-e.value).denominator)) if e.is_const else X.fn("ceil", [e]), False)
    m_sign = _mk_un(lambda e: X.fn("sign", [e]), False)
    m_log2 = _mk_un(lambda e: X.mul(X.log(e), X.inv(X.log(E(2)))))
    m_log1p = _mk_un(lambda e: X.log(X.ONE + e))
    m_isfinite = _mk_un(lambda e: E(1) if e.is_const else X.fn("isfinite", [e]), False, BOOL)
    m_isnan = _mk_un(lambda e: E(0) if e.is_const else X.fn("isnan", [e]), False, BOOL)
    m_isinf = _mk_un(lambda e: E(0) if e.is_const else X.fn("isinf", [e]), False, BOOL)
    def m_logical_not(self, t):
        val = self.v(t)
        return self.out(val.map((lambda e: X.ONE - e) if val.dt is BOOL else (lambda e: X.compare("eq", e, X.ZERO)), dt=BOOL))

    def m_abs(self, t):
        val = self.v(t)
        return self.out(val.map(X.cabs, dt=DType("f", val.dt.prec) if val.dt.kind == "c" else val.dt))

    def m_angle(self, t):
        raise TooHard("angle")

    def m_conj(self, t):
        val = self.v(t)
        if val.dt.kind != "c":
            return t
        return self.out(val.map(X.conj, contig=val.contig))
    m_conj_physical = m_conj

    def m_clamp(self, t, min=None, max=None):
        val = self.v(t)
        vs, names = [val], []
        for nm, x in (("max2", min), ("min2", max)):
            if x is None:
                continue
            y = self.v(x)
            vs.append(y.rep(dev=val.dev) if self.is_scalar(x) else y)
            names.append(nm)

        def f(e, *xs):
            for nm, x in zip(names, xs):
                e = self._mm(nm, e, x)
            return e
        return self.out(T.ewise(f, *vs, dt=val.dt))

    def _mm(self, nm, e, x):
        if e == x:
            return e
        if e.is_const and x.is_const:
            return E(max(e.value, x.value) if nm == "max2" else min(e.value, x.value))
        return X.fn(nm, sorted([e, x], key=X.ekey))

    def m_clamp_min(self, t, min):
        return self.m_clamp(t, min=min)

    def m_maximum(self, t, o):
        return self.m_clamp(t, min=o)

    def m_minimum(self, t, o):
        return self.m_clamp(t, max=o)

    def m_add(self, t, o, alpha=1):
        return self.binary("add", t, o if alpha == 1 else self.scal_mul(o, alpha))

    def scal_mul(self, o, k):
        return self.binary("mul", o, k) if isinstance(o, TensorObj) else self.it.arith("mul", o, k)

    def m_sub(self, t, o, alpha=1):
        return self.binary("sub", t, o if alpha == 1 else self.scal_mul(o, alpha))

    def m_mul(self, t, o):
        return self.binary("mul", t, o)

    def m_div(self, t, o, rounding_mode=None):
        if rounding_mode is not None:
            raise TooHard("rounding_mode")
        return self.binary("truediv", t, o)

    def m_pow(self, t, o):
        return self.binary("pow", t, o)

    def m_eq(self, t, o):
        return self.compare("eq", t, o)

    def m_ne(self, t, o):
        return self.compare("ne", t, o)

    def m_lt(self, t, o):
        return self.compare("lt", t, o)

    def m_le(self, t, o):
        return self.compare("le", t, o)

    def m_gt(self, t, o):
        return self.compare("gt", t, o)

    def m_ge(self, t, o):
        return self.compare("ge", t, o)

    def m_logical_and(self, t, o):
        return self.binary("and", t, o)

    def m_logical_or(self, t, o):
        return self.binary("or", t, o)

    def m_masked_fill(self, t, mask, value):
        return self.f_where(mask, value, t)

    def m_addcmul(self, t, a, b, value=1):
        return self.m_add(t, self.scal_mul(self.m_mul(a, b), value))

    def m_lerp(self, t, o, w):
        return self.m_add(t, self.binary("mul", w, self.binary("sub", o, t)))

    # reductions
    def dims(self, t, dim):
        n = t.get().ndim if isinstance(t, TensorObj) else self.v(t).ndim
        if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
            return list(range(n))
        if isinstance(dim, (list, tuple)):
            return [T.normdim(self.dimarg(d), n) for d in dim]
        return [T.normdim(self.dimarg(dim), n)]

    def _dim_args(self, args, dim, keepdim, axis):
        if axis is not None:
            dim = axis
        args = list(args)
        if args and dim is None:
            if len(args) > 1 and all(self.isint(a) for a in args):
                dim = tuple(args)
                args = []
            else:
                dim = args.pop(0)
        if args:
            keepdim = args.pop(0)
        return dim, keepdim

    def m_sum(self, t, *args, dim=None, keepdim=False, dtype=None, axis=None):
        dim, keepdim = self._dim_args(args, dim, keepdim, axis)
        val = self.v(t)
        if dtype is not None:
            val = self.cast(val, dtype)
        ds = [d for d in self.dims(t, dim) if d < val.ndim]
        r = T.reduce_sum(val, ds, keepdim)
        if r.dt.kind == "b":
            r = r.rep(dt=I64)
        return self.out(r)

    def m_mean(self, t, *args, dim=None, keepdim=False, dtype=None, axis=None):
        dim, keepdim = self._dim_args(args, dim, keepdim, axis)
        val = self.v(t)
        if val.dt.kind in "ib":
            raise TorchError("mean(): input dtype should be either floating point or complex")
        ds = [d for d in self.dims(t, dim) if d < val.ndim]
        n = T.dims_prod([val.shape[d] for d in ds])
        r = T.reduce_sum(val, ds, keepdim)
        k = X.inv(E(P(n)) if isinstance(n, Poly) else E(n))
        return self.out(r.map(lambda e: X.mul(e, k)))

    def m_norm(self, t, p=2, dim=None, keepdim=False, dtype=None):
        if p not in (2, "fro", None):
            raise TooHard("norm order")
        val = self.v(t)
        if val.dt.kind in "ib":
            raise TorchError("norm(): input dtype should be floating point or complex")
        sq = val.map(lambda e: X.mul(e, X.conj(e)))
        r = T.reduce_sum(sq, [d for d in self.dims(t, dim) if d < val.ndim], keepdim)
        return self.out(r.map(lambda e: X.powr(e, HALF), dt=DType("f", val.dt.prec)))

    def _red(self, t, fname, dim, keepdim, dt=None):
        val = self.v(t)
        ds = [d for d in self.dims(t, dim) if d < val.ndim]
        if fname in ("all", "any"):
            if not val.cells and not T.avars(val.axes):
                return self.out(TVal((), {(): E(fname == "all")}, BOOL, val.dev))
            if all(e.is_const for e in val.cells.values()) and len(ds) == val.ndim:
                b = (all if fname == "all" else any)(e.value != 0 for e in val.cells.values())
                return self.out(TVal((), {(): E(int(b))}, BOOL, val.dev))
        return self.out(T.reduce_fn(val, ds, fname, keepdim).rep(dt=dt or val.dt))

    def m_all(self, t, dim=None, keepdim=False):
        return self._red(t, "all", dim, keepdim, BOOL)

    def m_any(self, t, dim=None, keepdim=False):
        return self._red(t, "any", dim, keepdim, BOOL)

    def m_amax(self, t, dim=None, keepdim=False):
        return self._red(t, "max", dim, keepdim)

    def m_amin(self, t, dim=None, keepdim=False):
        return self._red(t, "min", dim, keepdim)

    def m_max(self, t, *args, dim=None, keepdim=False):
        if args and isinstance(args[0], TensorObj):
            return self.m_maximum(t, args[0])
        if args:
            dim = args[0]
        if dim is None:
            return self._red(t, "max", None, False)
        val = self._red(t, "max", dim, keepdim)
        return NamedTup((val, Opaque("indices")), ("values", "indices"))

    def m_min(self, t, *args, dim=None, keepdim=False):
        if args and isinstance(args[0], TensorObj):
            return self.m_minimum(t, args[0])
        if args:
            dim = args[0]
        if dim is None:
            return self._red(t, "min", None, False)
        return NamedTup((self._red(t, "min", dim, keepdim), Opaque("indices")), ("values", "indices"))

    def m_logsumexp(self, t, dim=MISSING, keepdim=False):
        if dim is MISSING:
            self.it.raise_(TypeError, "logsumexp() missing required argument dim")
        val = self.v(t)
        r = T.reduce_sum(val.map(X.exp), self.dims(t, dim), keepdim)
        return self.out(r.map(X.log))

    def m_trace(self, t):
        val = self.v(t)
        if val.ndim != 2:
            raise TorchError("trace: expected a matrix")
        return self.out(T.reduce_sum(T.diagonal(val, 0, 1), [0]))

    def m_diag(self, t, diagonal=0):
        val = self.v(t)
        if diagonal:
            raise TooHard("off-diagonal")
        if val.ndim == 1:
            return self.out(T.diag_embed1(val))
        if val.ndim == 2:
            return self.out(T.diagonal(val, 0, 1))
        raise TorchError("diag: expected a vector or matrix")

    def m_diagonal(self, t, offset=0, dim1=0, dim2=1):
        if offset:
            raise TooHard("off-diagonal")
        n = t.get().ndim
        def wr(b, new):
            if b.ndim != 2 or not dim_eq(b.shape[0], b.shape[1]):
                raise TooHard("write to a diagonal")
            e = T.eye(b.shape[0], b.shape[0], b.dt, b.dev)
            return T.ewise(lambda x, d, y: X.mul(X.ONE - d, x) + X.mul(d, y), b, e, T.diag_embed1(new), dt=b.dt)
        return self.view(t, lambda v: T.diagonal(v, dim1, dim2), wr if n == 2 else None)

    def m_diag_embed(self, t, *a):
        val = self.v(t)
        if a or val.ndim != 1:
            raise TooHard("diag_embed")
        return self.out(T.diag_embed1(val))

    def m_count_nonzero(self, t):
        val = self.v(t)
        if val.dt.kind != "b":
            val = val.map(lambda e: X.compare("ne", e, X.ZERO))
        return self.out(T.reduce_sum(val, range(val.ndim)).rep(dt=I64))

    # layout
    def m_transpose(self, t, a, b):
        n = t.get().ndim
        a, b = T.normdim(self.dimarg(a), n), T.normdim(self.dimarg(b), n)
        perm = list(range(n))
        if n:
            perm[a], perm[b] = perm[b], perm[a]
        return self._perm(t, perm)

    def _perm(self, t, perm):
        inv = [perm.index(k) for k in range(len(perm))]
        return self.view(t, lambda v: T.permute(v, perm), lambda b, n: T.permute(n, inv), lambda st: tuple(st[k] for k in perm))

    def m_permute(self, t, *dims):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = dims[0]
        n = t.get().ndim
        if len(dims) != n:
            raise TorchError("permute: number of dimensions doesn't match")
        perm = [T.normdim(self.dimarg(d), n) for d in dims]
        if sorted(perm) != list(range(n)):
            raise TorchError("permute: repeated dim")
        return self._perm(t, perm)

    def m_movedim(self, t, src, dst):
        n = t.get().ndim
        src = [src] if isinstance(src, int) else list(src)
        dst = [dst] if isinstance(dst, int) else list(dst)
        src = [T.normdim(x, n) for x in src]
        dst = [T.normdim(x, n) for x in dst]
        rest = [k for k in range(n) if k not in src]
        perm = [None] * n
        for s, d in zip(src, dst):
            perm[d] = s
        for k in range(n):
            if perm[k] is None:
                perm[k] = rest.pop(0)
        return self._perm(t, perm)

    def m_t(self, t):
        n = t.get().ndim
        if n > 2:
            raise TorchError("t() expects a tensor with <= 2 dimensions")
        return self.m_transpose(t, 0, 1) if n == 2 else t

    def m_unsqueeze(self, t, dim):
        dim = self.dimarg(dim)
        n = t.get().ndim
        d = dim if dim >= 0 else dim + n + 1
        return self.view(t, lambda v: T.unsqueeze(v, d), lambda b, new: T.squeeze(new, [d]), lambda st: st[:d] + (0,) + st[d:])

    def m_squeeze(self, t, dim=None):
        val = t.get()
        if dim is None:
            dims = [k for k, a in enumerate(val.axes) if self._is1(T.asize(a))]
        else:
            dims = [T.normdim(self.dimarg(d), val.ndim) for d in (dim if isinstance(dim, (list, tuple)) else [dim])] if val.ndim else []
        return self.view(t, lambda v: T.squeeze(v, dims), lambda b, new: T.reshape(new, b.shape),
                         lambda st: tuple(x for k, x in enumerate(st) if k not in dims or not self._is1(val.shape[k])))

    def _is1(self, s):
        return isinstance(s, int) and s == 1

    def _inplace_meta(self, t, r):
        o = getattr(t, "handle", None)
        if o is not None and r is not t and r.path != t.path:
            a, b = t.get().shape, r.get().shape
            if len(a) != len(b) or not all(T.dim_eq(x, y) for x, y in zip(a, b)):
                self.it.event("mutate" if o[0] == "arg" else "mutate_param",
                              f"in-place view operation changes the shape of the {'caller' if o[0] == 'arg' else 'model'}'s tensor {o[1]!r}", o)
        t.path, t._cache = r.path, None
        return t

    def m_squeeze_(self, t, dim=None):
        return self._inplace_meta(t, self.m_squeeze(t, dim))

    def m_unsqueeze_(self, t, dim):
        return self._inplace_meta(t, self.m_unsqueeze(t, dim))

    def m_transpose_(self, t, a, b):
        return self._inplace_meta(t, self.m_transpose(t, a, b))

    def m_t_(self, t):
        return self._inplace_meta(t, self.m_t(t))

    def m_expand(self, t, *sizes):
        s = self.sizes(sizes)
        return self.view(t, lambda v: T.expand(v, s), None)

    def m_expand_as(self, t, o):
        return self.m_expand(t, *o.get().shape)

    def m_broadcast_to(self, t, shape):
        return self.m_expand(t, shape)

    def m_view(self, t, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], DType):
            raise TooHard("view(dtype)")
        s = self.sizes(sizes)
        new = T.reshape(t.get(), s)
        st = self.view_strides(t, new.shape)
        if st is False:
            raise TorchError("view size is not compatible with input tensor's size and stride (at least one dimension spans across two "
                             "contiguous subspaces). Use .reshape(...) instead.")
        return self.view(t, lambda v: T.reshape(v, s), lambda b, n: T.reshape(n, b.shape), lambda _: st)

    def view_strides(self, t, new):
        """Strides of a tensor viewed with another shape; None if unknown, False
        if no such view exists.  Only strides that were given to an input are known."""
        st = getattr(t, "strides", None)
        if st is None:
            return None
        chunks = []
        for n, x in zip(t.get().shape, st):
            if self._is1(n):
                continue
            if chunks and cmp_eq(P(chunks[-1][1]), P(n) * P(x)) is True:
                chunks[-1] = (norm(P(chunks[-1][0]) * P(n)), x)
            else:
                chunks.append((n, x))
        out, k = [], 0
        for n, x in chunks:
            # the dimensions of the new shape that make up this chunk of memory
            p, g = 1, []
            while k < len(new) and not dim_eq(p, n):
                p = norm(P(p) * P(new[k]))
                g.append(new[k])
                k += 1
                if isinstance(p, int) and isinstance(n, int) and p > n:
                    return False
            if not dim_eq(p, n):
                return False
            r = []
            for m in reversed(g):
                r.insert(0, x)
                x = x * P(m)
            out += r
        out += [poly.P(0)] * (len(new) - k)
        return tuple(out)

    def m_view_as(self, t, o):
        return self.m_view(t, *o.get().shape)

    def m_reshape(self, t, *sizes, shape=None):
        s = self.sizes(sizes if shape is None else [shape])
        st = getattr(t, "strides", None)
        if st is not None and self.view_strides(t, T.reshape(t.get(), s).shape) is False:
            return self.out(T.reshape(self.v(t), s))
        if t.get().contig or st is not None:
            return self.m_view(t, *s)
        return self.maybe_view(t, self.out(T.reshape(self.v(t), s)))

    def maybe_view(self, t, r):
        """Whether r is a copy of t or a view depends on strides that are not tracked."""
        t.root.links += (r.root,)
        r.root.links += (t.root,)
        return r

    def m_flatten(self, t, start_dim=0, end_dim=-1):
        sh = list(t.get().shape)
        if not sh:
            return self.m_reshape(t, 1)
        a, b = T.normdim(start_dim, len(sh)), T.normdim(end_dim, len(sh))
        return self.m_reshape(t, *(sh[:a] + [T.dims_prod(sh[a:b + 1])] + sh[b + 1:]))

    def m_unflatten(self, t, dim, sizes):
        sh = list(t.get().shape)
        d = T.normdim(dim, len(sh))
        return self.m_reshape(t, *(sh[:d] + list(sizes) + sh[d + 1:]))

    def m_ravel(self, t):
        return self.m_flatten(t)

    def m_repeat(self, t, *reps):
        r = self.sizes(reps)
        val = self.v(t)
        while val.ndim < len(r):
            val = T.unsqueeze(val, 0)
        for d, k in enumerate(r):
            if isinstance(k, int) and k == 1:
                continue
            if val.axes[d][0] == "1":
                sh = list(val.shape)
                sh[d] = k
                val = T.expand(val, sh)
            elif isinstance(k, int) and k > 0:
                val = T.cat([val] * k, d)
            else:
                raise TooHard("repeat")
        return self.out(val.rep(contig=True))

    def m_narrow(self, t, dim, start, length):
        n = t.get().ndim
        d = T.normdim(dim, n)
        return self.t_getitem(t, (slice(None),) * d + (slice(start, self.it.arith("add", start, length)),))

    def m_select(self, t, dim, index):
        d = T.normdim(dim, t.get().ndim)
        return self.t_getitem(t, (slice(None),) * d + (index,))

    def m_index_select(self, t, dim, index):
        d = T.normdim(dim, t.get().ndim)
        return self.t_getitem(t, (slice(None),) * d + (index,))

    def m_unbind(self, t, dim=0):
        d = T.normdim(dim, t.get().ndim)
        n = norm(t.get().shape[d])
        if not isinstance(n, int):
            raise TooHard("unbind of a symbolic axis")
        return tuple(self.t_getitem(t, (slice(None),) * d + (k,)) for k in range(n))

    def m_chunk(self, t, chunks, dim=0):
        chunks = self.dimarg(chunks)
        d = T.normdim(dim, t.get().ndim)
        n = norm(t.get().shape[d])
        if not isinstance(chunks, int) or not isinstance(n, int):
            raise TooHard("chunk of a symbolic axis")
        if chunks <= 0:
            raise TorchError("chunk expects `chunks` to be greater than 0")
        sz = -(-n // chunks) if n else 0
        if sz == 0:
            return (t,) * chunks if False else (self.t_getitem(t, slice(None)),) * chunks
        return self.m_split(t, sz, dim)

    def m_split(self, t, size, dim=0):
        d = T.normdim(dim, t.get().ndim)
        n = norm(t.get().shape[d])
        pre = (slice(None),) * d
        if isinstance(size, (list, tuple)):
            out, k = [], 0
            for s in size:
                e = self.it.arith("add", k, s)
                out.append(self.t_getitem(t, pre + (slice(k, e),)))
                k = e
            return tuple(out)
        if not isinstance(n, int) or not isinstance(size, int):
            raise TooHard("split of a symbolic axis")
        return tuple(self.t_getitem(t, pre + (slice(k, min(k + size, n)),)) for k in range(0, n, size))

    # creation from
    def m_new_zeros(self, t, *sizes, dtype=None, device=None, **kw):
        dt, dev = self.new_like(t.get(), dtype, device)
        return self.out(T.const_tensor(self.sizes(sizes), 0, dt, dev))

    def m_new_ones(self, t, *sizes, dtype=None, device=None, **kw):
        dt, dev = self.new_like(t.get(), dtype, device)
        return self.out(T.const_tensor(self.sizes(sizes), 1, dt, dev))

    def m_new_full(self, t, size, value, dtype=None, device=None, **kw):
        dt, dev = self.new_like(t.get(), dtype, device)
        return self.out(T.const_tensor(self.sizes([size]), self.ex(value), dt, dev))

    def m_new_empty(self, t, *sizes, dtype=None, device=None, **kw):
        dt, dev = self.new_like(t.get(), dtype, device)
        return self.out(self.uninit(self.sizes(sizes), dt, dev))

    def m_new_tensor(self, t, data, dtype=None, device=None, **kw):
        val = self.v(data) if isinstance(data, TensorObj) else self.from_data(data)
        dt, dev = self.new_like(t.get(), dtype, device)
        return self.out(self.cast(val, dt).rep(dev=dev), det=True)

    def uninit(self, sizes, dt, dev):
        n = self.uid("uninit")
        return T.base_tensor(n, sizes, dt, dev, uninit=True)

    # in-place
    def m_copy_(self, t, src, non_blocking=False):
        val = self.v(src)
        T_dt = t.get().dt
        self.write(t, self.cast_write(val, T_dt), "copy_")
        return t

    def cast_write(self, val, dt):
        if val.dt.kind == "c" and dt.kind != "c":
            self.it.event("dtype", "copies a complex tensor into a real one")
            return val.map(X.re)
        return val

    def m_fill_(self, t, value):
        self.write(t, self.v(value), "fill_")
        return t

    def m_zero_(self, t):
        return self.m_fill_(t, 0)

    def m_add_(self, t, o, alpha=1):
        self.write(t, self.v(self.m_add(t, o, alpha)), "in-place add_")
        return t

    def m_sub_(self, t, o, alpha=1):
        self.write(t, self.v(self.m_sub(t, o, alpha)), "in-place sub_")
        return t

    def m_normal_(self, t, mean=0, std=1):
        r = self.rand_tensor("randn", t.get().shape, t.get().dt, t.get().dev)
        self.write(t, r.map(lambda e: X.mul(e, self.ex(std)) + self.ex(mean)), "normal_")
        return t

    def m_uniform_(self, t, a=0, b=1):
        r = self.rand_tensor("rand", t.get().shape, t.get().dt, t.get().dev)
        self.write(t, r.map(lambda e: X.mul(e, self.ex(b) - self.ex(a)) + self.ex(a)), "uniform_")
        return t

    def m_scatter_(self, t, dim, index, src=None, value=None, **kw):
        if kw:
            raise TooHard("scatter_ reduce")
        self.write(t, self._scatter(t, dim, index, value if src is None else src), "scatter_")
        return t

    def m_scatter(self, t, dim, index, src=None, value=None):
        return self.out(self._scatter(t, dim, index, value if src is None else src))

    def _scatter(self, t, dim, index, src):
        cur, ix = t.get(), self.v(index)
        d = T.normdim(dim, cur.ndim)
        if ix.dt is not I64:
            raise TorchError("scatter(): Expected dtype int64 for index")
        if ix.ndim != cur.ndim:
            raise TorchError("scatter(): index must have the same number of dimensions as self")
        T.join_dev([cur, ix], "scatter_")
        for k in range(cur.ndim):
            if k != d and not dim_eq(ix.shape[k], cur.shape[k]):
                raise TooHard("scatter with a smaller index")
        if isinstance(src, TensorObj) and src.get().ndim:
            raise TooHard("scatter of a tensor")
        m = norm(ix.shape[d])
        if m != 1:
            raise TooHard("scatter of several positions")
        a = cur.axes[d]
        val = self.ex(src) if not isinstance(src, TensorObj) else self.v(src).scalar
        # broadcast the index along d against an iota
        n = norm(cur.shape[d])
        shape1 = [1] * cur.ndim
        shape1[d] = n
        io = T.reshape(self.arange_val(n), shape1).rep(dev=cur.dev)
        return T.ewise(lambda i, k, o: self._sel(X.compare("eq", i, k), val, o), ix.rep(dev=cur.dev), io, cur, dt=cur.dt)

    def _sel(self, c, a, b):
        """c ? a : b for a 0/1 condition, as arithmetic when b is constant."""
        return X.mul(c, a) + X.mul(X.ONE - c, b)

    def m_index_put_(self, t, *a, **k):
        raise TooHard("index_put_")

    # products
    def m_matmul(self, a, b):
        if not isinstance(a, TensorObj) or not isinstance(b, TensorObj):
            self.it.raise_(TypeError, "matmul expects tensors")
        return self.out(T.matmul(self.v(a), self.v(b)))

    def m_mm(self, a, b):
        va, vb = self.v(a), self.v(b)
        if va.ndim != 2 or vb.ndim != 2:
            raise TorchError("mm: expected matrices")
        return self.out(T.matmul(va, vb, "mm"))

    def m_mv(self, a, b):
        return self.out(T.matmul(self.v(a), self.v(b), "mv"))

    def m_dot(self, a, b):
        return self.out(T.matmul(self.v(a), self.v(b), "dot"))
    m_inner = m_dot

    def m_vdot(self, a, b):
        return self.m_dot(self.m_conj(a), b)

    def m_outer(self, a, b):
        return self.f_einsum("i,j->ij", a, b)

    def m_bmm(self, a, b):
        va, vb = self.v(a), self.v(b)
        if va.ndim != 3 or vb.ndim != 3:
            raise TorchError("bmm: batch1 and batch2 must be 3D tensors")
        if not dim_eq(va.shape[0], vb.shape[0]):
            raise TorchError(f"bmm: batch sizes differ: {list(va.shape)} and {list(vb.shape)}")
        return self.out(T.matmul(va, vb, "bmm"))

    def m_allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        va, vb = self.v(a), self.v(b)
        try:
            d = T.ewise(lambda x, y: x - y, va, vb)
        except TorchError:
            raise
        if all(not e.d or T.eq_expr(e, X.ZERO) for e in d.cells.values()):
            return True
        if all(e.is_const for e in d.cells.values()):
            return all(abs(e.value) < Fraction(1, 100000) for e in d.cells.values())
        r = T.reduce_fn(d.map(lambda x: X.cabs(X.undetach(x))), list(range(d.ndim)), "rmax")
        loose = None
        if all(isinstance(x, (int, float, Fraction)) for x in (rtol, atol)) and (rtol > 1e-4 or atol > 1e-6):
            loose = (str(rtol), str(atol))
        e = X.fn("allclose", [r.scalar], loose)
        return Undec(("truth", X.undetach(e)), "allclose")

    def m_equal(self, a, b):
        va, vb = self.v(a), self.v(b)
        if va.ndim != vb.ndim or not all(dim_eq(x, y) for x, y in zip(va.shape, vb.shape)):
            return False
        return self.m_allclose(a, b, 0, 0)

    def is_sv(self, val):
        for e in val.cells.values():
            f = X.single_factor(X.undetach(e))
            if not f or f[0] != "T" or not str(f[1][0]).startswith("svdS"):
                return False
        return True

    def m_svd(self, t, some=True, compute_uv=True):
        u, s, v = self._svd(self.v(t))
        return NamedTup((self.out(u), self.out(s), self.out(v)), ("U", "S", "V"))

    def f_linalg_svd(self, t, full_matrices=True):
        if full_matrices:
            raise TooHard("full SVD")
        u, s, v = self._svd(self.v(t))
        return NamedTup((self.out(u), self.out(s), self.out(T.permute(v, [1, 0]))), ("U", "S", "Vh"))

    def _svd(self, val):
        if val.ndim != 2:
            raise TooHard("batched svd")
        val = val.map(X.undetach, contig=True)
        val = T.fresh(val)
        m, n = norm(val.shape[0]), norm(val.shape[1])
        r = self.pmin(m, n)
        vs = T.avars(val.axes)
        mp = {v: 500 + k for k, v in enumerate(vs)}
        key = (tuple(map(repr, val.shape)), tuple(sorted((p, X.rename(e, mp)) for p, e in val.cells.items())) if False
               else tuple((p, X.rename(val.cells[p], mp)) for p in sorted(val.cells)))
        if key not in self.svds:
            self.svds[key] = (len(self.svds), val)
        k, val = self.svds[key]
        i = T.axis_for(r)
        real = val.dt.kind != "c"
        if not real:
            raise TooHard("complex svd")
        fd = val.dt

        def mk(nm, axes):
            name = f"{nm}{k}"
            X.TINFO[name] = {"real": True, "svd": k, "pos": nm == "svdS"}
            axes = [self.fresh_axis(a) for a in axes]
            vv = tuple(T.avars(axes))
            return TVal(tuple(axes), {p: X.T(name, vv, p) for p in T.positions(T.enums(axes))}, fd, val.dev)
        return mk("svdU", [val.axes[0], i]), mk("svdS", [i]), mk("svdV", [val.axes[1], i])

    def fresh_axis(self, a):
        if a[0] == "V":
            return ("V", X.newvar(X.VSIZE[a[1]], X.VTAG.get(a[1])))
        if a[0] == "F":
            return ("F", tuple(self.fresh_axis(x) for x in a[1]))
        return a

    def pmin(self, a, b):
        if dim_eq(a, b):
            return a
        if isinstance(a, int) and isinstance(b, int):
            return min(a, b)
        return a if self.it.truth(self.it.num_cmp("lt", a, b)) else b

    # ------------------------------------------------------------ torch.* functions
    def f_stack(self, tensors, dim=0):
        ts = list(self.it.iterate(tensors))
        for x in ts:
            if not isinstance(x, TensorObj):
                self.it.raise_(TypeError, "expected Tensor as element")
        vals = [self.v(x) for x in ts]
        if not vals:
            raise TorchError("stack expects a non-empty TensorList")
        return self.out(T.stack(vals, self.dimarg(dim)))

    def f_cat(self, tensors, dim=0, axis=None):
        vals = [self.v(x) for x in self.it.iterate(tensors)]
        if not vals:
            raise TorchError("torch.cat(): expected a non-empty list of Tensors")
        return self.out(T.cat(vals, self.dimarg(dim if axis is None else axis)))

    def mk(self, kw, dt=FD):
        dtype, dev = kw.pop("dtype", None), kw.pop("device", None)
        kw.pop("requires_grad", None)
        kw.pop("out", None)
        if kw.pop("size", None) is not None or kw:
            raise TooHard(f"keyword {list(kw)}")
        return dtype or dt, self.dev_of(dev) or "C"

    def f_zeros(self, *s, **kw):
        if "size" in kw:
            s = (kw.pop("size"),)
        dt, dev = self.mk(kw)
        return self.out(T.const_tensor(self.sizes(s), 0, dt, dev))

    def f_ones(self, *s, **kw):
        dt, dev = self.mk(kw)
        return self.out(T.const_tensor(self.sizes(s), 1, dt, dev))

    def f_full(self, size, fill_value, **kw):
        dt, dev = self.mk(kw, self.sdt(fill_value))
        return self.out(T.const_tensor(self.sizes([size]), self.ex(fill_value), dt, dev))

    def f_empty(self, *s, **kw):
        dt, dev = self.mk(kw)
        return self.out(self.uninit(self.sizes(s), dt, dev))

    def _like(self, t, kw):
        val = t.get()
        kw.pop("memory_format", None)
        dtype, dev = kw.pop("dtype", None), kw.pop("device", None)
        return val.shape, dtype or val.dt, self.dev_of(dev) or val.dev

    def f_zeros_like(self, t, **kw):
        s, dt, dev = self._like(t, kw)
        return self.out(T.const_tensor(s, 0, dt, dev))

    def f_ones_like(self, t, **kw):
        s, dt, dev = self._like(t, kw)
        return self.out(T.const_tensor(s, 1, dt, dev))

    def f_full_like(self, t, value, **kw):
        s, dt, dev = self._like(t, kw)
        return self.out(T.const_tensor(s, self.ex(value), dt, dev))

    def f_empty_like(self, t, **kw):
        s, dt, dev = self._like(t, kw)
        return self.out(self.uninit(s, dt, dev))

    def rand_tensor(self, kind, sizes, dt, dev):
        self.it.event("rng", f"draws random numbers ({kind})")
        n = self.uid(kind + "#")
        if dt.kind not in "fc":
            raise TorchError(f"{kind} is not implemented for integer dtypes")
        return T.base_tensor(n, sizes, dt, dev, rand=kind)

    def f_randn(self, *s, **kw):
        dt, dev = self.mk(kw)
        return self.out(self.rand_tensor("randn", self.sizes(s), dt, dev))

    def f_rand(self, *s, **kw):
        dt, dev = self.mk(kw)
        return self.out(self.rand_tensor("rand", self.sizes(s), dt, dev))

    def f_randn_like(self, t, **kw):
        s, dt, dev = self._like(t, kw)
        return self.out(self.rand_tensor("randn", s, dt, dev))

    def f_rand_like(self, t, **kw):
        s, dt, dev = self._like(t, kw)
        r = self.rand_tensor("rand", s, dt, dev)
        return self.out(r)

    def f_eye(self, n, m=None, **kw):
        dt, dev = self.mk(kw)
        n = self.dimarg(n)
        m = n if m is None else self.dimarg(m)
        return self.out(T.eye(n, m, dt, dev))

    def arange_val(self, n, dt=I64, dev="C"):
        n = norm(n)
        a = T.axis_for(n)
        if a[0] == "V":
            X.TINFO["iota"] = {"real": True}
            return TVal((a,), {(): X.T("iota", (a[1],))}, dt, dev)
        if a[0] == "1":
            return TVal((a,), {(): X.ZERO}, dt, dev)
        return TVal((a,), {(k,): E(k) for k in range(a[1])}, dt, dev)

    def f_arange(self, *args, **kw):
        args = [self.item_int(a) if isinstance(a, TensorObj) else a for a in args]
        if any(isinstance(a, (SNum, float)) or isinstance(a, Fraction) and a.denominator != 1 for a in args):
            raise TooHard("fractional arange")
        start, step = 0, 1
        fl = any(isinstance(a, Fraction) for a in args)
        args = [int(a) if isinstance(a, Fraction) else a for a in args]
        if len(args) == 1:
            end, = args
        elif len(args) == 2:
            start, end = args
        else:
            start, end, step = args
        dt, dev = self.mk(kw, FD if fl else I64)
        if isinstance(step, int) and step != 1:
            if isinstance(start, int) and isinstance(end, int):
                vals = list(range(start, end, step))
                return self.out(self.from_data(vals).rep(dt=dt, dev=dev))
            raise TooHard("arange step")
        n = self.it.arith("sub", end, start)
        if isinstance(n, int) and n < 0:
            raise TorchError("upper bound and lower bound inconsistent with step sign")
        val = self.arange_val(n, dt, dev)
        if start != 0:
            s = self.ex(start)
            val = val.map(lambda e: e + s)
        return self.out(val)

    def f_linspace(self, start, end, steps=None, **kw):
        dt, dev = self.mk(kw)
        steps = self.dimarg(steps)
        a, b = self.ex(self.num(start)), self.ex(self.num(end))
        if isinstance(steps, int) and steps <= 12:
            ax = T.axis_for(steps)
            if steps == 1:
                return self.out(TVal((ax,), {(): a}, dt, dev))
            cells = {(k,): a + X.mul(b - a, E(Fraction(k, steps - 1))) for k in range(steps)}
            return self.out(TVal((ax,), cells, dt, dev))
        v = X.newvar(steps)
        X.TINFO["iota"] = {"real": True}
        d = X.inv(E(P(steps) - 1))
        e = a + X.mul(X.mul(b - a, d), X.T("iota", (v,)))
        return self.out(TVal((("V", v),), {(): e}, dt, dev))

    def num(self, x):
        if isinstance(x, TensorObj):
            return self.m_item(x)
        return x

    def from_data(self, data):
        """nested sequences -> TVal"""
        def shape(d):
            if isinstance(d, (list, tuple)):
                if not d:
                    return [0]
                return [len(d)] + shape(d[0])
            return []
        if isinstance(data, NpArr):
            return data.t.get()
        if isinstance(data, TensorObj):
            return self.v(data)
        if isinstance(data, range):
            data = list(data)
        sh = shape(data)
        cells = {}
        dts = []

        def walk(d, p, depth):
            if depth == len(sh):
                if isinstance(d, TensorObj):
                    val = d.get()
                    cells[p] = val.scalar
                    dts.append(val.dt)
                elif self.is_scalar(d):
                    cells[p] = self.ex(d)
                    dts.append(self.sdt(d))
                else:
                    raise TooHard("tensor data")
                return
            if not isinstance(d, (list, tuple)) or len(d) != sh[depth]:
                self.it.raise_(ValueError, "expected sequence of equal lengths")
            for k, x in enumerate(d):
                walk(x, p + ((k,) if sh[depth] != 1 else ()), depth + 1)
        walk(data, (), 0)
        dt = FD if not dts else max(dts, key=lambda d: T._ORD[d.kind])
        return TVal(tuple(T.axis_for(s) for s in sh), cells, dt, "C")

    def f_tensor(self, data, **kw):
        val = self.from_data(data)
        dt, dev = self.mk(kw, val.dt)
        return self.out(self.cast(val, dt).rep(dev=dev if dev != "C" or not isinstance(data, TensorObj) else val.dev), det=True)

    def f_as_tensor(self, data, dtype=None, device=None):
        if isinstance(data, TensorObj):
            return self.m_to(data, dtype=dtype, device=device) if (dtype or device) else data
        return self.f_tensor(data, **({"dtype": dtype} if dtype else {}), **({"device": device} if device else {}))

    def f_from_numpy(self, a):
        if not isinstance(a, NpArr):
            self.it.raise_(TypeError, "expected np.ndarray")
        return self.view(a.t, lambda v: v, lambda b, n: n, self.same)

    def f_where(self, c, a=None, b=None):
        if a is None:
            raise TooHard("where(cond)")
        vals = [self.v(c), self.v(a), self.v(b)]
        dts = [self.sdt(x) if self.is_scalar(x) else y for x, y in ((a, vals[1]), (b, vals[2]))]
        dt = T.promote_dt(dts)
        dev = vals[0].dev
        for k, x in ((1, a), (2, b)):
            if self.is_scalar(x):
                vals[k] = vals[k].rep(dev=dev)
        return self.out(T.ewise(X.where, *vals, dt=dt, what="where"))

    def f_einsum(self, eq, *ops, **kw):
        kw.pop("backend", None)
        kw.pop("optimize", None)
        if kw:
            raise TooHard("einsum keywords")
        if not isinstance(eq, str):
            raise TooHard("einsum sublist format")
        if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
            ops = ops[0]
        vals = []
        for o in ops:
            if not isinstance(o, TensorObj):
                self.it.raise_(TypeError, "einsum operands must be tensors")
            vals.append(self.v(o))
        eq = eq.replace(" ", "")
        if "->" in eq:
            lhs, out = eq.split("->", 1)
        else:
            lhs, out = eq, None
        terms = lhs.split(",")
        if len(terms) != len(vals):
            raise TorchError(f"einsum: {len(terms)} subscripts but {len(vals)} operands")
        labels = []
        nell = 0
        for tm, val in zip(terms, vals):
            if "..." in tm:
                nell = max(nell, val.ndim - (len(tm) - 3))
        for tm, val in zip(terms, vals):
            if "..." in tm:
                k = val.ndim - (len(tm) - 3)
                if k < 0:
                    raise TorchError("einsum: too many subscripts")
                pre, post = tm.split("...")
                lab = list(pre) + [("...", nell - k + j) for j in range(k)] + list(post)
            else:
                lab = list(tm)
            if not all(isinstance(c, tuple) or c.isalpha() for c in lab):
                raise TorchError(f"einsum: invalid subscript {tm!r}")
            labels.append(tuple(lab))
        if out is None:
            cnt = {}
            for lab in labels:
                for c in lab:
                    cnt[c] = cnt.get(c, 0) + 1
            o = [("...", j) for j in range(nell)] + sorted(c for c in cnt if isinstance(c, str) and cnt[c] == 1)
        elif "..." in out:
            pre, post = out.split("...")
            o = list(pre) + [("...", j) for j in range(nell)] + list(post)
        else:
            o = list(out)
        if len(ops) == 1 and len(set(o)) == len(o) == len(labels[0]) == vals[0].ndim and set(o) == set(labels[0]):
            return self._perm(ops[0], [labels[0].index(c) for c in o])
        return self.out(T.einsum(vals, labels, tuple(o)))

    def f_tensordot(self, a, b, dims=2):
        va, vb = self.v(a), self.v(b)
        if isinstance(dims, int):
            da = list(range(va.ndim - dims, va.ndim))
            db = list(range(dims))
        else:
            da, db = [list(x) if isinstance(x, (list, tuple)) else [x] for x in dims]
        la = [("a", k) for k in range(va.ndim)]
        lb = [("b", k) for k in range(vb.ndim)]
        for k, (x, y) in enumerate(zip(da, db)):
            x, y = T.normdim(x, va.ndim), T.normdim(y, vb.ndim)
            if not dim_eq(va.shape[x], vb.shape[y]):
                raise TorchError("tensordot: contracted dimensions differ")
            la[x] = lb[y] = ("c", k)
        o = [x for x in la if x[0] == "a"] + [x for x in lb if x[0] == "b"]
        return self.out(T.einsum([va, vb], [tuple(la), tuple(lb)], tuple(o), "tensordot"))

    def m_trapz(self, y, x=None, dx=None, dim=-1):
        vy = self.v(y)
        d = T.normdim(dim, vy.ndim)
        if x is None:
            w = X.E(1) if dx is None else self.ex(dx)
            wx = None
        else:
            wx = self.v(x)
            if wx.ndim != 1:
                raise TooHard("trapz with a matrix of points")
            if not dim_eq(wx.shape[0], vy.shape[d]):
                raise TorchError("trapezoid: x and y sizes differ")
        pre = (slice(None),) * d
        hi, lo = T.getitem(vy, pre + (slice(1, None),)), T.getitem(vy, pre + (slice(None, -1),))
        s = T.ewise(lambda a, b: X.mul(a + b, E(HALF)), hi, lo)
        if wx is not None:
            dxv = T.ewise(lambda a, b: a - b, T.getitem(wx, (slice(1, None),)), T.getitem(wx, (slice(None, -1),)))
            sh = [1] * vy.ndim
            sh[d] = dxv.shape[0]
            s = T.ewise(X.mul, s, T.reshape(dxv, sh))
        else:
            s = s.map(lambda e: X.mul(e, w))
        return self.out(T.reduce_sum(s, [d]))

    def f_is_tensor(self, x):
        return isinstance(x, TensorObj)

    def f_broadcast_tensors(self, *ts):
        if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
            ts = ts[0]
        sh = self.f_broadcast_shapes(*[t.get().shape for t in ts])
        return tuple(self.m_expand(t, *sh) for t in ts)

    def f_broadcast_shapes(self, *shapes):
        n = max((len(s) for s in shapes), default=0)
        out = [1] * n
        for s in shapes:
            for k, x in enumerate(s, n - len(s)):
                if isinstance(x, int) and x == 1:
                    continue
                if isinstance(out[k], int) and out[k] == 1:
                    out[k] = x
                elif not dim_eq(out[k], x):
                    raise TorchError("Shape mismatch: objects cannot be broadcast to a single shape")
        return Size(out)

    def f_complex(self, a, b):
        i = X.number("I")
        r = T.ewise(lambda x, y: x + X.mul(i, y), self.v(a), self.v(b))
        return self.out(r.rep(dt=DType("c", r.dt.prec)))

    def f_polar(self, a, b):
        i = X.number("I")
        r = T.ewise(lambda x, y: X.mul(x, X.exp(X.mul(i, y))), self.v(a), self.v(b))
        return self.out(r.rep(dt=DType("c", r.dt.prec)))

    def f_chain_matmul(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self.m_mm(r, m)
        return r

    def f_multi_dot(self, ms):
        return self.f_chain_matmul(*ms)

    def f_one_hot(self, t, num_classes=-1):
        if num_classes == -1:
            raise TooHard("one_hot without size")
        val = self.v(t)
        n = self.dimarg(num_classes)
        io = self.arange_val(n, I64, val.dev)
        return self.out(T.ewise(lambda i, k: X.compare("eq", i, k), T.unsqueeze(val, val.ndim), io, dt=I64))

    def f_linear(self, x, w, b=None):
        r = self.binary("matmul", x, self.m_t(w))
        return r if b is None else self.binary("add", r, b)

    def f_result_type(self, a, b):
        return T.promote_dt([self.v(a), self.v(b)])

    def f_promote_types(self, a, b):
        return max((a, b), key=lambda d: (T._ORD[d.kind], T._PR[d.prec]))

    def f_no_grad(self, f=None):
        c = CtxV("no_grad")
        return c if f is None else self.it.call(c, [f], {})

    def f_enable_grad(self, f=None):
        c = CtxV("enable_grad")
        return c if f is None else self.it.call(c, [f], {})

    def f_set_grad_enabled(self, v):
        if not isinstance(v, bool):
            raise TooHard("set_grad_enabled")
        c = CtxV("set_grad", v)
        c.prev, self.it.grad = self.it.grad, v
        return c

    def f_setting(self, *a, **k):
        self.it.event("setting", "changes a global setting of the library")

    def f_manual_seed(self, s):
        self.it.event("global", "seeds the global random number generator")

    # ------------------------------------------------------------ numpy
    def np_wrap(self, t):
        return NpArr(t)

    def np_getitem(self, a, idx):
        if isinstance(idx, tuple):
            idx = tuple(i.t if isinstance(i, NpArr) else i for i in idx)
        elif isinstance(idx, NpArr):
            idx = idx.t
        if isinstance(idx, slice) and idx == slice(None, None, -1):
            return NpArr(self.m_flip(a.t, 0))
        for i in idx if isinstance(idx, tuple) else (idx,):
            if isinstance(i, slice) and isinstance(i.step, int) and i.step < 0:
                raise TooHard("slice with a negative step")
        return NpArr(self.t_getitem(a.t, idx))

    def np_setitem(self, a, idx, v):
        if isinstance(idx, NpArr):
            raise TooHard("fancy assignment")
        self.t_setitem(a.t, idx, v.t if isinstance(v, NpArr) else v)

    def np_iter(self, a):
        return iter([NpArr(x) for x in self.t_iter(a.t)])

    def np_binary(self, name, a, b):
        f = lambda x: x.t if isinstance(x, NpArr) else x
        return NpArr(self.binary(name, f(a), f(b)))

    def np_dt(self, d):
        if isinstance(d, DType):
            return d
        if isinstance(d, TypeTok):
            return {"int": I64, "float": F64, "bool": BOOL}.get(d.name, FD)
        if d is None:
            return F64
        raise TooHard("numpy dtype")

    def np_make(self, value):
        def f(shape, dtype=None, **kw):
            sh = [shape] if self.isint(shape) else list(shape)
            dt = self.np_dt(dtype)
            if value is None:
                return NpArr(TensorObj(Root(self.uninit(self.sizes([sh]), dt, "C"))))
            return NpArr(TensorObj(Root(T.const_tensor(self.sizes([sh]), value, dt, "C"))))
        return f

    def np_arange(self, *a, dtype=None):
        return NpArr(self.f_arange(*a))

    def np_seed(self, s=None):
        self.it.npstate = ("seed", repr(s))
        self.it.event("global", "seeds numpy's global random number generator")

    def np_perm(self, n):
        st = (self.it.npstate, repr(n))
        if self.it.npstate[0] == "init":
            self.it.event("rng", "draws random numbers from numpy's global generator")
        tab = self.__dict__.setdefault("perms", {})
        k = tab.setdefault(st, len(tab))
        self.it.npstate = ("drawn",) + st
        return f"perm{k}"

    def np_take_perm(self, val, name):
        n = norm(val.shape[0])
        a = T.axis_for(n)
        X.TINFO[name] = {"real": True, "perm": True, "n": n}
        if a[0] == "1":
            return val
        vv = tuple(T.avars([a]))
        idx = TVal((a,), {p: X.T(name, vv, p) for p in T.positions(T.enums([a]))}, I64, val.dev)
        return T.getitem(val, (idx,))

    def np_shuffle(self, a):
        if isinstance(a, list):
            raise TooHard("shuffle of a list")
        t = a.t if isinstance(a, NpArr) else a
        val = t.get()
        name = self.np_perm(norm(val.shape[0]))
        new = self.np_take_perm(val, name)
        self.write(t, new, "shuffle")

    def np_rng(self, kind, seed=None):
        """A generator with a state of its own."""
        if seed is None:
            self.it.event("rng", "draws a seed for a numpy generator")
        state = [("seed" if kind == "RandomState" else kind, repr(seed))]

        def own(f):
            def g(*a):
                keep, self.it.npstate = self.it.npstate, state[0]
                try:
                    return f(*a)
                finally:
                    state[0], self.it.npstate = self.it.npstate, keep
            return g

        def ints(n):
            if not isinstance(n, (int, Poly)):
                raise TooHard(kind + ".permutation of an array")
            return self.np_permutation(n)
        tab = {"permutation": Native("permutation", own(ints if kind == "default_rng" else self.np_permutation))}
        if kind == "RandomState":
            tab["shuffle"] = Native("shuffle", own(self.np_shuffle))
        return NativeMod("numpy.random." + kind, tab)

    def np_take(self, a, idx, axis=None, **kw):
        val = a.t.get()
        if axis is None:
            if val.ndim != 1:
                raise TooHard("take of a flattened array")
            axis = 0
        axis = T.normdim(self.dimarg(axis), val.ndim)
        return self.np_getitem(a, (slice(None),) * axis + (idx,))

    def np_argsort(self, a, axis=-1, kind=None, **kw):
        val = (a.t if isinstance(a, NpArr) else a).get()
        if val.ndim != 1:
            raise TooHard("argsort")
        names = {n for e in val.cells.values() for n, *_ in X.base_tensors(e)}
        perms = {n for n in names if X.TINFO.get(n, {}).get("perm")}
        if len(perms) != 1:
            raise TooHard("argsort")
        name, = perms
        ax = val.axes[0]
        vv = tuple(T.avars([ax]))
        if any(e != X.T(name, vv, p) for p, e in val.cells.items()):
            raise TooHard("argsort")
        inv = X.TINFO[name].get("inverse") or "inverse_of_" + name
        X.TINFO[inv] = {"real": True, "perm": True, "n": X.TINFO[name]["n"], "inverse": name}
        r = TVal(val.axes, {p: X.T(inv, vv, p) for p in val.cells}, I64, val.dev)
        return NpArr(TensorObj(Root(r))) if isinstance(a, NpArr) else self.out(r)

    def np_permutation(self, n):
        if isinstance(n, NpArr):
            val = n.t.get()
            return NpArr(TensorObj(Root(self.np_take_perm(val, self.np_perm(norm(val.shape[0]))))))
        n = norm(n)
        name = self.np_perm(n)
        a = T.axis_for(n)
        X.TINFO[name] = {"real": True, "perm": True, "n": n}
        if a[0] == "1":
            return NpArr(TensorObj(Root(self.arange_val(n))))
        vv = tuple(T.avars([a]))
        return NpArr(TensorObj(Root(TVal((a,), {p: X.T(name, vv, p) for p in T.positions(T.enums([a]))}, I64, "C"))))

    def np_asarray(self, x, dtype=None):
        if isinstance(x, NpArr):
            return x
        return NpArr(TensorObj(Root(self.from_data(x))))

    # ------------------------------------------------------------ attributes of python objects
    def py_attr(self, o, name):
        it = self.it
        if isinstance(o, NpArr):
            if name == "copy":
                return Native(name, lambda: NpArr(TensorObj(Root(o.t.get().rep()))))
            if name == "shape":
                return tuple(o.t.get().shape)
            if name == "dtype":
                return o.t.get().dt
            if name == "size":
                return T.dims_prod(o.t.get().shape)
            if name == "astype":
                return Native(name, lambda d: NpArr(self.out(self.cast(o.t.get(), self.np_dt(d)))))
            if name == "__array__":
                raise TooHard("numpy attribute")
            if name in ("argsort", "take"):
                return Native(name, lambda *k, **kw: getattr(self, "np_" + name)(o, *k, **kw))
            if name in ("reshape", "transpose", "sum", "mean", "ndim", "flatten"):
                r = self.tensor_attr(o.t, name)
                if isinstance(r, Native):
                    return Native(name, lambda *a, **k: NpArr(r.fn(*a, **k)))
                return r
            raise TooHard(f"ndarray.{name}")
        if isinstance(o, list):
            return self.list_attr(o, name)
        if isinstance(o, Size):
            if name == "numel":
                return Native(name, lambda: T.dims_prod(o))
        if isinstance(o, tuple):
            if name == "index":
                return Native(name, lambda x: self.seq_index(o, x))
            if name == "count":
                return Native(name, lambda x: sum(1 for y in o if it.truth(it.cmp("eq", x, y))))
            return MISSING if not hasattr(tuple, name) else self.hard("tuple." + name)
        if isinstance(o, str):
            return self.str_attr(o, name)
        if isinstance(o, collections.deque):
            return self.deque_attr(o, name)
        if isinstance(o, GenV) and name in ("send", "throw"):
            return self.hard("generator." + name)
        if isinstance(o, GenV) and name == "close":
            return Native(name, lambda: None)
        if isinstance(o, dict):
            return self.dict_attr(o, name)
        if isinstance(o, (set, frozenset)):
            return self.set_attr(o, name)
        if isinstance(o, slice):
            return {"start": o.start, "stop": o.stop, "step": o.step}.get(name, MISSING)
        if isinstance(o, TypeTok):
            if name == "__name__":
                return o.name
            if o.name == "Tensor":
                m = getattr(self, "m_" + ALIAS.get(name, name), None)
                if m is not None:
                    return Native(name, m)
            if o.name == "dict" and name == "fromkeys":
                return Native(name, lambda ks, v=None: {k: v for k in it.iterate(ks)})
            if name in getattr(o, "attrs", ()):
                return o.attrs[name]
            if o.name == "str" and name == "maketrans":
                return Native(name, str.maketrans)
            if o.name == "str" and name == "join":
                return Native(name, lambda s, xs: s.join(list(it.iterate(xs))))
            return self.hard(f"{o.name}.{name}")
        if isinstance(o, DevTok):
            if name == "type":
                return "cuda" if o.name == "M" else "cpu"
            return MISSING
        if isinstance(o, (int, Fraction, float, Poly, SNum)):
            if name == "real":
                return o
            if name in ("bit_length",) and isinstance(o, int):
                return Native(name, lambda: o.bit_length())
            if name == "is_integer" and isinstance(o, Fraction):
                return Native(name, lambda: o.denominator == 1)
            host = int if isinstance(o, (int, Poly)) else float
            return MISSING if not hasattr(host, name) else self.hard(f"number.{name}")
        if o is None:
            return MISSING
        if isinstance(o, Opaque):
            return self.hard(f"{o.name}.{name}")
        if isinstance(o, CtxV):
            return MISSING
        if isinstance(o, ModDict):
            return self.py_attr(o.d, name)
        if isinstance(o, type):
            return o.__name__ if name == "__name__" else MISSING
        if hasattr(o, "__next__"):
            return MISSING
        return MISSING

    def hard(self, what):
        raise TooHard(what)

    def seq_index(self, o, x):
        for k, y in enumerate(o):
            if x is y or self.it.truth(self.it.cmp("eq", x, y)):
                return k
        self.it.raise_(ValueError, "is not in list")

    def list_attr(self, o, name):
        it = self.it

        def mut(f):
            def g(*a, **k):
                it.list_mut(o)
                return f(*a, **k)
            return Native("list." + name, g)
        if name == "append":
            return mut(o.append)
        if name == "extend":
            return mut(lambda x: o.extend(list(it.iterate(x))))
        if name == "insert":
            return mut(lambda k, x: o.insert(k, x))
        if name == "pop":
            def pop(k=-1):
                try:
                    return o.pop(k)
                except IndexError as e:
                    it.raise_(IndexError, str(e))
            return mut(pop)
        if name == "remove":
            return mut(lambda x: o.pop(self.seq_index(o, x)) and None)
        if name == "reverse":
            return mut(lambda: o.reverse())
        if name == "clear":
            return mut(lambda: o.clear())
        if name == "sort":
            def srt(key=None, reverse=False):
                o[:] = self.b_sorted(o, key=key, reverse=reverse)
            return mut(srt)
        if name == "copy":
            return Native(name, lambda: list(o))
        if name == "index":
            return Native(name, lambda x: self.seq_index(o, x))
        if name == "count":
            return Native(name, lambda x: sum(1 for y in o if it.truth(it.cmp("eq", x, y))))
        return MISSING if not hasattr(list, name) else self.hard("list." + name)

    def str_attr(self, o, name):
        it = self.it
        if name == "join":
            def join(xs):
                xs = list(it.iterate(xs))
                for x in xs:
                    if not isinstance(x, str):
                        it.raise_(TypeError, "sequence item: expected str instance")
                return o.join(xs)
            return Native(name, join)
        if name == "format":
            def fmt(*a, **k):
                try:
                    return o.format(*[x if isinstance(x, (int, str)) else self.to_str(x) for x in a],
                                    **{n: x if isinstance(x, (int, str)) else self.to_str(x) for n, x in k.items()})
                except (IndexError, KeyError, ValueError) as e:
                    it.raise_(type(e), str(e))
            return Native(name, fmt)
        if not hasattr(str, name):
            return MISSING
        f = getattr(o, name)

        def call(*a, **k):
            for x in a:
                if not isinstance(x, (str, int, tuple, type(None))):
                    raise TooHard(f"str.{name}")
            try:
                return f(*a, **k)
            except (ValueError, IndexError) as e:
                it.raise_(type(e), str(e))
        return Native("str." + name, call)

    def dict_attr(self, o, name):
        it = self.it
        if isinstance(o, DefDict):
            r = self.defdict_attr(o, name)
            if r is not MISSING:
                return r
        if name == "keys":
            return Native(name, lambda: Keys(o))
        if name in ("items", "values"):
            return Native(name, lambda: list(getattr(o, name)()))
        if name == "get":
            return Native(name, lambda k, d=None: o.get(k, d))
        if name == "pop":
            def pop(k, *d):
                if k not in o and not d:
                    it.raise_(KeyError, str(k))
                return o.pop(k, *d)
            return Native(name, pop)
        if name == "update":
            return Native(name, lambda *a, **k: o.update(*[dict(x) if not isinstance(x, dict) else x for x in a], **k))
        if name == "setdefault":
            return Native(name, lambda k, d=None: o.setdefault(k, d))
        if name == "copy":
            return Native(name, lambda: self.hard("copy") if isinstance(o, DefDict) else dict(o))
        if name == "clear":
            return Native(name, lambda: o.clear())
        return MISSING if not hasattr(dict, name) else self.hard("dict." + name)

    def set_attr(self, o, name):
        it = self.it
        conv = lambda xs: [set(it.iterate(x)) for x in xs]
        if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            return Native(name, lambda *a: getattr(o, name)(*conv(a)))
        if name == "pop":
            def pop():
                if not o:
                    it.raise_(KeyError, "pop from an empty set")
                x = sorted(o, key=repr)[0]
                o.discard(x)
                return x
            return Native(name, pop)
        if name in ("add", "discard"):
            return Native(name, lambda x: getattr(o, name)(x))
        if name == "remove":
            return Native(name, lambda x: o.remove(x) if x in o else it.raise_(KeyError, str(x)))
        if name == "update":
            return Native(name, lambda *a: o.update(*conv(a)))
        if name == "copy":
            return Native(name, lambda: set(o))
        return MISSING if not hasattr(set, name) else self.hard("set." + name)

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, (int, bool, type(None))):
            return str(x)
        if isinstance(x, Poly):
            return str(x)
        if isinstance(x, AbsRaise):
            return self.exc_str(x)
        if isinstance(x, Unknown):
            raise TooHard(x.name)
        if type(x) is Fraction:
            return str(float(x))
        if type(x) in (list, tuple):
            l = [repr(y) if isinstance(y, str) else self.to_str(y) for y in x]
            return f"[{', '.join(l)}]" if type(x) is list else f"({', '.join(l)}{',' * (len(l) == 1)})"
        if isinstance(x, Instance):
            for nm in ("__str__", "__repr__"):
                f = self.it.find_method(x, nm)
                if f is not None and isinstance(f.func, FuncV):
                    return self.it.call(f, [], {})
        return f"<{self.it.tname(x)}>"

    # ------------------------------------------------------------ builtins
    def b_len(self, x):
        it = self.it
        if isinstance(x, TensorObj):
            v = x.get()
            if v.ndim == 0:
                it.raise_(TypeError, "len() of a 0-d tensor")
            return v.shape[0]
        if isinstance(x, NpArr):
            return x.t.get().shape[0]
        if isinstance(x, (list, tuple, str, dict, set, frozenset, range, collections.deque)):
            return len(x)
        if isinstance(x, ClassV) and x.enum is not None:
            return len(x.enum)
        if isinstance(x, Unknown):
            raise TooHard(x.name)
        if isinstance(x, Instance):
            f = it.find_method(x, "__len__")
            if f is not None:
                return it.call(f, [], {})
        if isinstance(x, ModDict):
            return len(x.d)
        self.plain(x, "len()")
        it.raise_(TypeError, f"object of type {it.tname(x)} has no len()")

    def plain(self, x, what):
        """A TypeError is only definite for values of kinds modelled in full."""
        if not (x is None or hasattr(x, "__next__") or isinstance(x, (int, float, complex, Fraction, Poly, SNum, str, bytes,
                list, tuple, dict, set, frozenset, range, collections.deque, FuncV, BoundV, Instance, TensorObj))):
            raise TooHard(f"{what} of {type(x).__name__}")

    def b_isinstance(self, x, t):
        if isinstance(t, tuple):
            return any(self.b_isinstance(x, y) for y in t)
        if isinstance(t, TypeTok):
            return bool(t.test(x))
        if isinstance(x, Unknown):
            raise TooHard(x.name)
        if isinstance(t, ClassV):
            if isinstance(x, AbsRaise):
                return isinstance(x.cls, ClassV) and x.cls.issub(t)
            return isinstance(x, Instance) and x.cls.issub(t)
        if isinstance(t, type) and issubclass(t, tuple):
            return isinstance(x, t)
        if isinstance(t, type) and issubclass(t, BaseException):
            return isinstance(x, AbsRaise) and self.it.exc_match(x, t)
        if isinstance(t, Native) and t.name == "Parameter":
            return isinstance(x, TensorObj) and x.is_param
        if isinstance(t, Opaque):
            raise TooHard(f"isinstance with {t.name}")
        raise TooHard("isinstance")

    def b_sum(self, xs, start=0):
        r = start
        import ast
        for x in self.it.iterate(xs):
            r = self.it.binop(ast.Add(), r, x)
        return r

    def b_all(self, xs):
        und = None
        for x in self.it.iterate(xs):
            r = self.it.truth3(x)
            if r is False:
                return False
            if r is None and und is None:
                und = self.it.undec_of(x)
        return True if und is None else und

    def b_any(self, xs):
        und = None
        for x in self.it.iterate(xs):
            r = self.it.truth3(x)
            if r is True:
                return True
            if r is None and und is None:
                und = self.it.undec_of(x)
        return False if und is None else und

    def _minmax(self, args, key, default, op):
        it = self.it
        xs = list(it.iterate(args[0])) if len(args) == 1 else list(args)
        if not xs:
            if default is MISSING:
                it.raise_(ValueError, "arg is an empty sequence")
            return default
        ks = [it.call(key, [x], {}) if key is not None else x for x in xs]
        b = 0
        for k in range(1, len(xs)):
            if it.truth(it.cmp(op, ks[k], ks[b])):
                b = k
        return xs[b]

    def b_max(self, *a, key=None, default=MISSING):
        return self._minmax(a, key, default, "gt")

    def b_min(self, *a, key=None, default=MISSING):
        return self._minmax(a, key, default, "lt")

    def b_sorted(self, xs, key=None, reverse=False):
        it = self.it
        xs = list(it.iterate(xs))
        ks = [it.call(key, [x], {}) if key is not None else x for x in xs]
        import functools

        def c(i, j):
            if it.truth(it.cmp("lt", ks[i], ks[j])):
                return -1
            if it.truth(it.cmp("lt", ks[j], ks[i])):
                return 1
            return 0
        o = sorted(range(len(xs)), key=functools.cmp_to_key(c), reverse=reverse)
        return [xs[i] for i in o]

    def b_range(self, *a):
        a = [self.it.as_index(x) for x in a]
        if any(isinstance(x, Poly) for x in a):
            a = [norm(x) for x in a]
            if any(isinstance(x, Poly) for x in a):
                raise TooHard("range over a symbolic size")
        for x in a:
            if not isinstance(x, int):
                self.it.raise_(TypeError, "range() needs integers")
        try:
            return range(*a)
        except ValueError as e:
            self.it.raise_(ValueError, str(e))

    def b_zip(self, *xs, strict=False):
        its = [iter(self.it.iterate(x)) for x in xs]

        def gen():
            while its:
                row = []
                for k, i in enumerate(its):
                    try:
                        row.append(next(i))
                    except StopIteration:
                        if strict:
                            rest = []
                            for j in its[k + 1:]:
                                try:
                                    next(j)
                                    rest.append(1)
                                except StopIteration:
                                    pass
                            if k > 0 or rest:
                                self.it.raise_(ValueError, "zip() arguments have different lengths")
                        return
                yield tuple(row)
        return gen()

    def b_enumerate(self, x, start=0):
        def gen():
            k = start
            for y in self.it.iterate(x):
                yield (k, y)
                k += 1
        return gen()

    def b_map(self, f, *xs):
        def gen():
            for row in self.b_zip(*xs):
                yield self.it.call(f, list(row), {})
        return gen()

    def b_filter(self, f, xs):
        def gen():
            for x in self.it.iterate(xs):
                if self.it.truth(x if f is None else self.it.call(f, [x], {})):
                    yield x
        return gen()

    def b_reversed(self, x):
        if isinstance(x, (list, tuple, range, str, dict, collections.deque)):
            return iter(list(x)[::-1])
        if isinstance(x, (TensorObj, Instance)):
            return iter(list(self.it.iterate(x))[::-1])
        self.plain(x, "reversed()")
        self.it.raise_(TypeError, "not reversible")

    def b_iter(self, x, *a):
        if a:
            raise TooHard("iter with a sentinel")
        if isinstance(x, Instance) and self.it.find_method(x, "__next__") is not None:
            return self.it.call(self.it.find_method(x, "__iter__"), [], {})
        return iter(self.it.iterate(x))

    def b_vars(self, x):
        if isinstance(x, Instance):
            return x.attrs
        raise TooHard("vars")

    def b_next(self, x, *d):
        if isinstance(x, Instance):
            f = self.it.find_method(x, "__next__")
            if f is None:
                self.it.raise_(TypeError, "not an iterator")
            try:
                return self.it.call(f, [], {})
            except AbsRaise as ex:
                if ex.cls is StopIteration and d:
                    return d[0]
                raise
        try:
            return next(x)
        except StopIteration:
            if d:
                return d[0]
            self.it.raise_(StopIteration)
        except TypeError:
            self.plain(x, "next()")
            self.it.raise_(TypeError, "not an iterator")

    def b_int(self, x=0, *a):
        it = self.it
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, Poly)):
            return x
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x, *a)
            except ValueError as e:
                it.raise_(ValueError, str(e))
        if isinstance(x, TensorObj):
            return self.item_int(x)
        if isinstance(x, Undec):
            return int(it.truth(x))
        if isinstance(x, SNum):
            p = self.as_poly(x.e)
            if p is not None:
                return norm(p)
            raise TooHard("int() of a symbolic float")
        it.raise_(TypeError, "int() argument")

    def b_float(self, x=0):
        if isinstance(x, bool):
            return Fraction(int(x))
        if isinstance(x, (int, Fraction)):
            return Fraction(x)
        if isinstance(x, Poly):
            return snum(E(x))
        if isinstance(x, SNum):
            return x
        if isinstance(x, TensorObj):
            r = self.m_item(x)
            return Fraction(r) if isinstance(r, int) else r
        if isinstance(x, str):
            if x in ("inf", "-inf", "nan"):
                return float(x)
            return Fraction(x)
        if isinstance(x, float):
            return x
        self.it.raise_(TypeError, "float() argument")

    def b_bool(self, x=False):
        r = self.it.truth3(x)
        return self.it.undec_of(x) if r is None else r

    def b_abs(self, x):
        if isinstance(x, TensorObj):
            return self.m_abs(x)
        if isinstance(x, SNum):
            return snum(X.cabs(x.e))
        if isinstance(x, Poly):
            raise TooHard("abs of a size")
        return abs(x)

    def b_type(self, x, *a):
        if a:
            raise TooHard("type()")
        if isinstance(x, Instance):
            return x.cls
        for nm in ("bool", "int", "float", "str", "list", "Size", "tuple", "dict", "set", "Tensor", "slice"):
            t = self.types.get(nm)
            if t is not None and t.test(x):
                return t
        if x is None:
            return self.types["NoneType"]
        return Opaque("type")

    def b_getattr(self, o, name, *d):
        return self.it.getattr(o, name, d[0] if d else MISSING)

    def b_hasattr(self, o, name):
        if name == "__call__" and not isinstance(o, (Instance, Opaque)):
            return isinstance(o, (FuncV, BoundV, Native, ClassV, PartialV, TypeTok))
        return self.it._getattr(o, name) is not MISSING

    def b_property(self, fget=None, fset=None, *a):
        return PropV(fget, fset)

    def b_pow(self, a, b):
        import ast
        return self.it.binop(ast.Pow(), a, b)

    def builtins(self):
        it = self.it
        N = Native
        L = lambda x: list(it.iterate(x)) if x is not None else it.raise_(TypeError, "NoneType is not iterable")
        self.types = {
            "int": TypeTok("int", lambda x: isinstance(x, (int, Poly)), self.b_int),
            "float": TypeTok("float", lambda x: isinstance(x, (Fraction, SNum, float)), self.b_float),
            "bool": TypeTok("bool", lambda x: isinstance(x, (bool, Undec)), self.b_bool),
            "str": TypeTok("str", lambda x: isinstance(x, str), lambda x="": self.to_str(x)),
            "list": TypeTok("list", lambda x: isinstance(x, list), lambda x=(): L(x)),
            "Size": TypeTok("Size", lambda x: isinstance(x, Size), lambda x=(): Size(L(x))),
            "tuple": TypeTok("tuple", lambda x: isinstance(x, tuple), lambda x=(): tuple(L(x))),
            "dict": TypeTok("dict", lambda x: isinstance(x, dict),
                            lambda *a, **k: dict(*[x if isinstance(x, dict) else L(x) for x in a], **k)),
            "set": TypeTok("set", lambda x: isinstance(x, set), lambda x=(): set(L(x))),
            "frozenset": TypeTok("frozenset", lambda x: isinstance(x, frozenset), lambda x=(): frozenset(L(x))),
            "slice": TypeTok("slice", lambda x: isinstance(x, slice), lambda *a: slice(*a)),
            "Tensor": TypeTok("Tensor", lambda x: isinstance(x, TensorObj)),
            "complex": TypeTok("complex", lambda x: isinstance(x, SNum) and not X.is_real(x.e),
                               lambda a=0, b=0: snum(self.ex(a) + X.mul(X.number("I"), self.ex(b)))),
            "NoneType": TypeTok("NoneType", lambda x: x is None),
            "range": TypeTok("range", lambda x: isinstance(x, range), self.b_range),
            "type": TypeTok("type", lambda x: isinstance(x, (ClassV, TypeTok)), self.b_type),
        }
        b = {k: v for k, v in self.types.items() if k not in ("Size", "Tensor", "NoneType")}
        b.update({
            "len": N("len", self.b_len), "isinstance": N("isinstance", self.b_isinstance),
            "issubclass": N("issubclass", lambda a, c: self.b_issubclass(a, c)),
            "sum": N("sum", self.b_sum), "all": N("all", self.b_all), "any": N("any", self.b_any),
            "max": N("max", self.b_max), "min": N("min", self.b_min), "sorted": N("sorted", self.b_sorted),
            "zip": N("zip", self.b_zip), "enumerate": N("enumerate", self.b_enumerate),
            "map": N("map", self.b_map), "filter": N("filter", self.b_filter), "reversed": N("reversed", self.b_reversed),
            "next": N("next", self.b_next), "iter": N("iter", self.b_iter), "vars": N("vars", self.b_vars),
            "abs": N("abs", self.b_abs), "getattr": N("getattr", self.b_getattr), "hasattr": N("hasattr", self.b_hasattr),
            "setattr": N("setattr", lambda o, n, v: it.setattr(o, n, v)),
            "print": N("print", lambda *a, **k: None), "chr": N("chr", lambda x: chr(x)), "ord": N("ord", lambda x: ord(x)),
            "property": N("property", self.b_property), "staticmethod": N("staticmethod", lambda f: StaticV(f, "static")),
            "classmethod": N("classmethod", lambda f: StaticV(f, "class")), "repr": N("repr", self.to_str),
            "callable": N("callable", lambda f: isinstance(f, (FuncV, BoundV, Native, ClassV, PartialV, TypeTok)) or
                          isinstance(f, Instance) and f.cls.lookup("__call__")[1] is not None),
            "round": N("round", lambda x, n=None: round(x) if isinstance(x, (int, Fraction)) else self.hard("round")),
            "pow": N("pow", self.b_pow), "id": N("id", lambda x: id(x)),
            "divmod": N("divmod", lambda a, c: (it.arith("floordiv", a, c), it.arith("mod", a, c))),
            "object": object, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
            "__name__": "__builtin__", "hash": N("hash", lambda x: hash(x)),
        })
        for k in dir(_bi):
            v = getattr(_bi, k)
            if isinstance(v, type) and issubclass(v, BaseException):
                b[k] = v
        return b

    # ------------------------------------------------------------ library modules
    def native_modules(self):
        it = self.it
        N = Native
        t = {}
        for nm in dir(self):
            if nm.startswith("f_"):
                t[nm[2:]] = N("torch." + nm[2:], getattr(self, nm))
        for nm in dir(self):
            if nm.startswith("m_") and not nm.endswith("_"):
                t.setdefault(nm[2:], N("torch." + nm[2:], getattr(self, nm)))
        for a, b in ALIAS.items():
            if b in t:
                t.setdefault(a, t[b])
        dts = {"float32": FD, "float": FD, "float64": F64, "double": F64, "float16": F16, "half": F16, "bfloat16": F16,
               "complex64": CD, "cfloat": CD, "complex128": C64, "cdouble": C64, "int64": I64, "long": I64,
               "int32": I32, "int": I32, "bool": BOOL}
        t.update(dts)
        t["real"] = N("torch.real", lambda x: self.tensor_attr(x, "real"))
        t["imag"] = N("torch.imag", lambda x: self.tensor_attr(x, "imag"))
        t["Tensor"] = self.types["Tensor"]
        t["Size"] = self.types["Size"]
        t["dtype"] = TypeTok("dtype", lambda x: isinstance(x, DType))
        t["device"] = TypeTok("device", lambda x: isinstance(x, DevTok),
                              lambda x, *a: DEVC if self.dev_of(x) == "C" else DEVM)
        t["pi"] = SNum(X.number("pi"))
        t["get_default_dtype"] = N("get_default_dtype", lambda: FD)
        t["permute"] = N("torch.permute", lambda x, dims: self.m_permute(x, dims))
        for nm in ("set_default_dtype", "set_default_tensor_type", "set_default_device", "set_num_threads", "set_flush_denormal",
                   "use_deterministic_algorithms", "set_float32_matmul_precision", "set_warn_always"):
            t[nm] = N(nm, self.f_setting)
        t["reshape"] = N("torch.reshape", lambda x, shape: self.m_reshape(x, shape))
        t["is_grad_enabled"] = N("is_grad_enabled", lambda: it.grad)
        for bad in ("size", "view", "expand", "item", "numpy", "to", "float", "type"):
            if not isinstance(t.get(bad), DType):
                t.pop(bad, None)
        t["linalg"] = NativeMod("torch.linalg", {
            "svd": N("torch.linalg.svd", self.f_linalg_svd),
            "norm": N("torch.linalg.norm", lambda x, ord=None, dim=None, keepdim=False: self.m_norm(x, 2 if ord is None else ord, dim, keepdim)),
            "vector_norm": N("torch.linalg.vector_norm", lambda x, ord=2, dim=None, keepdim=False: self.m_norm(x, ord, dim, keepdim)),
            "multi_dot": N("multi_dot", self.f_multi_dot), "matmul": t["matmul"],
            "svdvals": t["linalg_svdvals"], "vecdot": t["linalg_vecdot"], "matrix_power": t["matrix_power"],
            "matrix_norm": N("matrix_norm", lambda x, ord="fro", dim=(-2, -1), keepdim=False: self.m_norm(x, ord, dim, keepdim)),
            "diagonal": N("diagonal", lambda x, offset=0, dim1=-2, dim2=-1: self.m_diagonal(x, offset, dim1, dim2)),
        })
        t["cuda"] = NativeMod("torch.cuda", {"is_available": N("is_available", lambda: False)})
        t["random"] = NativeMod("torch.random", {"manual_seed": t["manual_seed"]})
        fn = NativeMod("torch.nn.functional", {
            "one_hot": N("one_hot", self.f_one_hot), "linear": N("linear", self.f_linear),
            "sigmoid": t["sigmoid"], "relu": t["relu"], "tanh": t["tanh"], "pad": t["pad"], "normalize": t["normalize"],
            "softmax": t["softmax"], "log_softmax": t["log_softmax"], "softplus": t["softplus"], "dropout": t["dropout"],
            "logsigmoid": N("logsigmoid", lambda x: self.out(self.v(x).map(lambda e: X.ZERO - X.log(X.ONE + X.exp(X.ZERO - e)))))})
        nn = NativeMod("torch.nn", self.nn_table())
        nn.table["functional"] = fn
        nn.table["parameter"] = NativeMod("torch.nn.parameter", {"Parameter": nn.table["Parameter"]})
        nn.table["init"] = NativeMod("torch.nn.init", {k[2:]: N("nn.init." + k[2:], getattr(self, k)) for k in dir(self) if k.startswith("i_")})
        nn.table["modules"] = NativeMod("torch.nn.modules", {})
        t["nn"] = nn
        t["finfo"] = N("finfo", self.f_finfo)
        t["special"] = NativeMod("torch.special", {"xlogy": t["xlogy"], "expit": t["sigmoid"], "logsumexp": t["logsumexp"],
                                                   "softmax": t["softmax"], "log_softmax": t["log_softmax"], "log1p": t.get("log1p")})
        torch = NativeMod("torch", t)
        m = self.math_table()
        np_t = {"empty": N("np.empty", self.np_make(None)), "zeros": N("np.zeros", self.np_make(0)),
                "ones": N("np.ones", self.np_make(1)), "arange": N("np.arange", self.np_arange),
                "float32": FD, "float64": F64, "int64": I64, "int32": I32, "bool_": BOOL, "intp": I64,
                "pi": SNum(X.number("pi")), "ndarray": TypeTok("ndarray", lambda x: isinstance(x, NpArr)),
                "asarray": N("asarray", self.np_asarray), "array": N("array", self.np_asarray),
                "sqrt": N("np.sqrt", lambda x: m["sqrt"].fn(x) if self.is_scalar(x) else self.hard("np.sqrt")),
                "log": N("np.log", lambda x: m["log"].fn(x) if self.is_scalar(x) else self.hard("np.log")),
                "prod": N("np.prod", lambda x: m["prod"].fn(x) if isinstance(x, (list, tuple)) else self.hard("np.prod")),
                "argsort": N("np.argsort", self.np_argsort), "take": N("np.take", self.np_take),
                "random": NativeMod("numpy.random", {
                    "seed": N("np.random.seed", self.np_seed), "shuffle": N("np.random.shuffle", self.np_shuffle),
                    "permutation": N("np.random.permutation", self.np_permutation),
                    "RandomState": N("RandomState", lambda seed=None: self.np_rng("RandomState", seed)),
                    "default_rng": N("default_rng", lambda seed=None: self.np_rng("default_rng", seed))})}
        numpy = NativeMod("numpy", np_t)
        ft = {"partial": N("partial", lambda f, *a, **k: PartialV(f, a, k)),
              "reduce": N("reduce", self.f_reduce), "wraps": N("wraps", lambda f: N("wraps", lambda g: g)),
              "lru_cache": N("lru_cache", self.f_lru_cache), "cache": N("cache", self.f_cache),
              "cached_property": N("cached_property", lambda f: PropV(f, None, True))}
        import itertools

        def repeat(x, n=None):
            if n is None:
                return itertools.repeat(x)
            n = norm(n)
            if not isinstance(n, int):
                raise TooHard("repeat a symbolic number of times")
            return iter([x] * n)
        I = lambda x: iter(it.iterate(x))
        itt = {"repeat": N("repeat", repeat), "chain": N("chain", lambda *a: itertools.chain(*[I(x) for x in a])),
               "count": N("count", lambda s=0, d=1: itertools.count(s, d)),
               "product": N("product", lambda *a, repeat=1: itertools.product(*[list(I(x)) for x in a], repeat=repeat)),
               "islice": N("islice", lambda x, *a: itertools.islice(I(x), *a)),
               "cycle": N("cycle", lambda x: itertools.cycle(I(x))),
               "zip_longest": N("zip_longest", lambda *a, fillvalue=None: itertools.zip_longest(*[I(x) for x in a], fillvalue=fillvalue)),
               "accumulate": N("accumulate", self.f_accumulate),
               "pairwise": N("pairwise", lambda x: itertools.pairwise(list(I(x)))),
               "starmap": N("starmap", lambda f, xs: iter([it.call(f, list(x), {}) for x in it.iterate(xs)]))}
        import ast as A
        ops = {"mul": A.Mult, "add": A.Add, "sub": A.Sub, "matmul": A.MatMult, "truediv": A.Div}
        opt = {k: N(k, (lambda c: lambda a, b: it.binop(c(), a, b))(c)) for k, c in ops.items()}
        opt["itemgetter"] = N("itemgetter", lambda k: N("ig", lambda o: it.getitem(o, k)))
        opt["attrgetter"] = N("attrgetter", lambda k: N("ag", lambda o: it.getattr(o, k)))
        typ = {k: Opaque(k) for k in ("Union", "Sequence", "Optional", "Tuple", "List", "Callable", "Any", "Dict",
                                      "Iterable", "TypeVar", "Type", "Set", "NamedTuple", "Iterator", "Literal",
                                      "Generator", "Mapping", "overload", "TYPE_CHECKING", "Final", "ClassVar")}
        typ["TYPE_CHECKING"] = False
        typ["cast"] = N("cast", lambda t, x: x)
        abc = {k: TypeTok(k, (lambda x: isinstance(x, (list, tuple, str, range))) if k == "Sequence" else
                          (lambda x: isinstance(x, (list, tuple, str, dict, set, range, TensorObj)))) for k in ("Sequence", "Iterable")}
        return self.std_modules({"torch": torch, "torch.nn": nn, "torch.nn.functional": fn, "torch.linalg": t["linalg"],
                "torch.nn.parameter": nn.table["parameter"],
                "numpy": numpy, "numpy.random": np_t["random"], "math": NativeMod("math", m),
                "functools": NativeMod("functools", ft), "itertools": NativeMod("itertools", itt),
                "operator": NativeMod("operator", opt), "typing": NativeMod("typing", typ),
                "collections.abc": NativeMod("collections.abc", abc),
                "collections": NativeMod("collections", {"OrderedDict": self.types["dict"], "abc": NativeMod("collections.abc", abc)}),
                "warnings": NativeMod("warnings", {"warn": N("warn", lambda *a, **k: it.event("warn", str(a[:1])))}),
                "opt_einsum": NativeMod("opt_einsum", {"contract": N("opt_einsum.contract", self.f_einsum)}),
                "string": NativeMod("string", {"ascii_lowercase": "abcdefghijklmnopqrstuvwxyz",
                                               "ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
                                               "ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"}),
                "copy": NativeMod("copy", {"copy": N("copy", self.f_copy), "deepcopy": N("deepcopy", self.f_deepcopy)}),
                "contextlib": NativeMod("contextlib", {"nullcontext": N("nullcontext", lambda x=None: CtxV("null", x))}),
                "torch.nn.init": nn.table["init"], "torch.special": t["special"],
                "__future__": NativeMod("__future__", {"annotations": None}),
                "sys": NativeMod("sys", {}), "os": NativeMod("os", {}), "time": NativeMod("time", {}),
                "random": NativeMod("random", {})})

    def f_reduce(self, f, xs, *init):
        xs = list(self.it.iterate(xs))
        if init:
            r = init[0]
        elif xs:
            r = xs.pop(0)
        else:
            self.it.raise_(TypeError, "reduce() of empty iterable with no initial value")
        for x in xs:
            r = self.it.call(f, [r, x], {})
        return r

    def f_accumulate(self, xs, func=None, initial=None):
        import ast as A
        out, r = [], initial
        if initial is not None:
            out.append(r)
        for x in self.it.iterate(xs):
            r = x if r is None else (self.it.binop(A.Add(), r, x) if func is None else self.it.call(func, [r, x], {}))
            out.append(r)
        return iter(out)

    def math_table(self):
        N = Native
        it = self.it

        def chk(x):
            if isinstance(x, TensorObj):
                return self.m_item(x)
            if not self.is_scalar(x):
                it.raise_(TypeError, "must be real number")
            return x

        def un(f, g=None):
            def h(x):
                x = chk(x)
                return snum(f(self.ex(x)))
            return h

        def mlog(x, base=None):
            e = X.log(self.ex(chk(x)))
            if base is not None:
                e = X.mul(e, X.inv(X.log(self.ex(chk(base)))))
            return snum(e)

        def sqrt(x):
            x = chk(x)
            if isinstance(x, (int, Fraction)) and x < 0:
                it.raise_(ValueError, "math domain error")
            return snum(X.powr(self.ex(x), HALF))

        def prod(xs, start=1):
            import ast as A
            r = start
            for x in it.iterate(xs):
                r = it.binop(A.Mult(), r, x)
            return r

        def fl(x):
            x = chk(x)
            if isinstance(x, (int, Poly)):
                return x
            return _math.floor(x) if isinstance(x, Fraction) else self.hard("floor")

        def ce(x):
            x = chk(x)
            if isinstance(x, (int, Poly)):
                return x
            return _math.ceil(x) if isinstance(x, Fraction) else self.hard("ceil")

        def comb(n, k):
            if isinstance(n, int) and isinstance(k, int):
                if n < 0 or k < 0:
                    it.raise_(ValueError, "n must be a non-negative integer")
                return _math.comb(n, k)
            raise TooHard("comb of symbolic sizes")
        host = lambda f: (lambda *a: f(*a) if all(isinstance(x, int) for x in a) else self.hard(f.__name__))
        return {"sqrt": N("sqrt", sqrt), "pi": SNum(X.number("pi")), "log": N("log", mlog),
                "log2": N("log2", lambda x: mlog(x, 2)), "exp": N("exp", un(X.exp)), "comb": N("comb", comb),
                "prod": N("prod", prod), "floor": N("floor", fl), "ceil": N("ceil", ce),
                "cos": N("cos", un(lambda e: X.fn("cos", [e]))), "sin": N("sin", un(lambda e: X.fn("sin", [e]))),
                "gcd": N("gcd", host(_math.gcd)), "factorial": N("factorial", host(_math.factorial)),
                "isqrt": N("isqrt", host(_math.isqrt)), "inf": float("inf"), "pow": N("pow", self.b_pow),
                "fabs": N("fabs", self.b_abs), "isfinite": N("isfinite", lambda x: True), "isclose": N("isclose", self.math_isclose), "e": SNum(X.exp(E(1)))}

    # ------------------------------------------------------------ torch.nn
    def nn_table(self):
        it = self.it
        N = Native
        M = self.Module

        def init(self_, *a, **k):
            self_.params, self_.buffers, self_.modules = {}, {}, {}
            self_.attrs["training"] = True

        def need(s):
            if s.params is None:
                it.raise_(AttributeError, "cannot assign before Module.__init__() call")

        def register_parameter(s, name, param):
            need(s)
            if not isinstance(name, str):
                it.raise_(TypeError, "parameter name should be a string")
            if name in s.attrs or (s.cls.lookup(name)[1] is not None) or name in s.buffers or name in s.modules:
                it.raise_(KeyError, f"attribute '{name}' already exists")
            if param is not None and not (isinstance(param, TensorObj) and param.is_param):
                it.raise_(TypeError, f"cannot assign object to parameter '{name}' (torch.nn.Parameter or None required)")
            s.params[name] = param

        def register_buffer(s, name, tensor, persistent=True):
            need(s)
            if name in s.attrs or (s.cls.lookup(name)[1] is not None) or name in s.params or name in s.modules:
                it.raise_(KeyError, f"attribute '{name}' already exists")
            if tensor is not None and not isinstance(tensor, TensorObj):
                it.raise_(TypeError, f"cannot assign object to buffer '{name}' (torch Tensor or None required)")
            s.buffers[name] = tensor
            if not persistent:
                s.nonpersistent.add(name)

        def add_module(s, name, m):
            need(s)
            s.modules[name] = m

        def named(s, kind, prefix="", seen=None, recurse=True):
            seen = set() if seen is None else seen
            if s.params is None:
                return
            for k, p in getattr(s, kind).items():
                if p is None or id(p) in seen:
                    continue
                seen.add(id(p))
                yield (prefix + k, p)
            if recurse:
                for k, m in s.modules.items():
                    if m is not None:
                        yield from named(m, kind, prefix + k + ".", seen)

        def mods(s, prefix="", seen=None):
            seen = set() if seen is None else seen
            if id(s) in seen:
                return
            seen.add(id(s))
            yield (prefix, s)
            for k, m in (s.modules or {}).items():
                if m is not None:
                    yield from mods(m, prefix + ("." if prefix else "") + k, seen)
        self.named = named
        self.mods = mods

        def call(s, *a, **k):
            f = it.find_method(s, "forward")
            if f is None:
                it.raise_(NotImplementedError, "forward")
            return it.call(f, list(a), k)

        def state_dict(s, *a, **k):
            out = {}
            for n, p in named(s, "params"):
                out[n] = p
            for pre, m in mods(s):
                for n, b in (m.buffers or {}).items():
                    if b is not None and n not in m.nonpersistent:
                        out[(pre + "." if pre else "") + n] = b
            return out

        def train(s, mode=True):
            for _, m in mods(s):
                m.attrs["training"] = mode
            return s

        def to(s, *a, **k):
            raise TooHard("Module.to")

        def requires_grad_(s, flag=True):
            for _, p in named(s, "params"):
                p.req_grad = flag
            return s

        M.attrs.update({
            "__init__": N("Module.__init__", init), "register_parameter": N("register_parameter", register_parameter),
            "register_buffer": N("register_buffer", register_buffer), "add_module": N("add_module", add_module),
            "register_module": N("register_module", add_module),
            "parameters": N("parameters", lambda s, recurse=True: iter([p for _, p in named(s, "params", recurse=recurse)])),
            "named_parameters": N("named_parameters", lambda s, prefix="", recurse=True: iter(list(named(s, "params", prefix, None, recurse)))),
            "buffers": N("buffers", lambda s, recurse=True: iter([p for _, p in named(s, "buffers", recurse=recurse)])),
            "named_buffers": N("named_buffers", lambda s: iter(list(named(s, "buffers")))),
            "modules": N("modules", lambda s: iter([m for _, m in mods(s)])),
            "named_modules": N("named_modules", lambda s: iter(list(mods(s)))),
            "children": N("children", lambda s: iter([m for m in s.modules.values() if m is not None])),
            "named_children": N("named_children", lambda s: iter([(k, m) for k, m in s.modules.items() if m is not None])),
            "__call__": N("Module.__call__", call), "state_dict": N("state_dict", state_dict),
            "train": N("train", train), "eval": N("eval", lambda s: train(s, False)), "to": N("Module.to", to),
            "requires_grad_": N("requires_grad_", requires_grad_),
            "zero_grad": N("zero_grad", lambda s, *a, **k: None),
            "extra_repr": N("extra_repr", lambda s: ""),
        })
        # containers
        ML = ClassV("ModuleList", [M])

        def ml_init(s, modules=None):
            init(s)
            for x in (it.iterate(modules) if modules is not None else ()):
                ml_append(s, x)

        def ml_append(s, x):
            if not it.is_module(x) and x is not None:
                it.raise_(TypeError, f"{it.tname(x)} is not a Module subclass")
            s.modules[str(len(s.modules))] = x
            return s

        def ml_get(s, k):
            xs = list(s.modules.values())
            if isinstance(k, slice):
                o = Instance(s.cls)
                if s.cls.name == "Sequential":
                    seq_init(o, *xs[k])
                else:
                    ml_init(o, xs[k])
                return o
            if isinstance(k, TensorObj):
                k = self.item_int(k)
            if not isinstance(k, int):
                raise TooHard("symbolic module index")
            if k < -len(xs) or k >= len(xs):
                it.raise_(IndexError, "index out of range")
            return xs[k]

        def renum(s, xs):
            s.modules = {str(k): x for k, x in enumerate(xs)}

        def ml_set(s, k, x):
            xs = list(s.modules.values())
            xs[k] = x
            renum(s, xs)

        def ml_del(s, k):
            xs = list(s.modules.values())
            del xs[k]
            renum(s, xs)

        def ml_insert(s, k, x):
            xs = list(s.modules.values())
            xs.insert(k, x)
            renum(s, xs)

        def ml_extend(s, xs):
            for x in it.iterate(xs):
                ml_append(s, x)
            return s
        common = {"__len__": N("len", lambda s: len(s.modules)), "__iter__": N("iter", lambda s: iter(list(s.modules.values()))),
                  "__getitem__": N("getitem", ml_get), "__setitem__": N("setitem", ml_set), "append": N("append", ml_append),
                  "extend": N("extend", ml_extend), "insert": N("insert", ml_insert), "__delitem__": N("delitem", ml_del)}
        ML.attrs.update(common)
        ML.attrs["__init__"] = N("ModuleList.__init__", ml_init)
        SQ = ClassV("Sequential", [M])

        def seq_init(s, *mods_):
            init(s)
            for x in mods_:
                ml_append(s, x)

        def seq_fwd(s, x):
            for m in s.modules.values():
                x = it.call(m, [x], {})
            return x
        SQ.attrs.update(common)
        SQ.attrs.update({"__init__": N("Sequential.__init__", seq_init), "forward": N("Sequential.forward", seq_fwd)})
        LI = ClassV("Linear", [M])

        def lin_init(s, nin, nout, bias=True, **kw):
            init(s)
            s.params["weight"] = parameter(self.out(self.rand_tensor("rand", [nout, nin], FD, "C")))
            s.params["bias"] = parameter(self.out(self.rand_tensor("rand", [nout], FD, "C"))) if bias else None
            s.attrs.update({"in_features": nin, "out_features": nout})

        def lin_fwd(s, x):
            v, w = self.v(x), self.v(s.params["weight"])
            if not dim_eq(v.shape[-1], w.shape[1]):
                raise TorchError("linear: mat1 and mat2 shapes cannot be multiplied")
            if v.dt.kind != w.dt.kind:
                raise TorchError("linear: mat1 and mat2 must have the same dtype")
            la = tuple(("x", k) for k in range(v.ndim - 1)) + ("i",)
            r = T.einsum([v, w], [la, ("o", "i")], la[:-1] + ("o",), "Linear")
            r = self.out(r)
            return r if s.params["bias"] is None else self.binary("add", r, s.params["bias"])
        LI.attrs.update({"__init__": N("Linear.__init__", lin_init), "forward": N("Linear.forward", lin_fwd)})

        def act(name, m):
            C = ClassV(name, [M])
            C.attrs.update({"__init__": N(name, lambda s, *a, **k: init(s)), "forward": N(name, lambda s, x: m(x))})
            return C

        def parameter(data=None, requires_grad=True):
            if data is None:
                data = self.out(T.const_tensor([0], 0))
            if not isinstance(data, TensorObj):
                it.raise_(TypeError, "Parameter data must be a tensor")
            if data.get().dt.kind in "ib" and requires_grad:
                raise TorchError("Only Tensors of floating point and complex dtype can require gradients")
            r = TensorObj(data.root, data.path, True)
            r.req_grad = requires_grad
            return r
        self.parameter = parameter
        PT = TypeTok("Parameter", lambda x: isinstance(x, TensorObj) and x.is_param, parameter)
        return {"Module": M, "ModuleList": ML, "Sequential": SQ, "Linear": LI, "Parameter": PT,
                "Sigmoid": act("Sigmoid", self.m_sigmoid), "ReLU": act("ReLU", self.m_relu),
                "Tanh": act("Tanh", self.m_tanh), "Identity": act("Identity", lambda x: x)}

    # ------------------------------------------------------------ loops over symbolic axes
    def symbolic_for(self, itp, s, t, env, mod):
        """`for x in t` over an axis of symbolic length n.

        The body may only count (name += constant) and break: it is analysed for
        one generic iteration k; if it breaks on an undetermined condition the
        loop stops at a fresh symbol `stop` in [0, n)."""
        val = t.get()
        n = norm(val.shape[0])
        import ast as A
        if s.orelse:
            raise TooHard("for-else over a symbolic axis")
        before = dict(env.vars)
        kvar = X.newvar(n)
        gen = T.getitem(val, (0,))
        a = val.axes[0]
        item = TVal(val.axes[1:], {p: X.subst(e, {a[1]: kvar}) for p, e in val.cells.items()}, val.dt, val.dev)
        # generic element: keep the index variable free
        itp.assign(s.target, TensorObj(Root(item)), env, mod)
        ndec = len(itp.decisions)
        nkeys = len(itp.new_keys)
        broke = False
        try:
            itp.block(s.body, env, mod)
        except _Break:
            broke = True
        except _Continue:
            pass
        conds = [(k, a_) for k, _, a_ in itp.decisions[ndec:]]
        if broke and not conds:
            raise TooHard("loop leaves in its first iteration")
        if len(conds) > 1:
            raise TooHard("loop over a symbolic axis with several conditions")
        if not conds:
            count = n
        else:
            key, ans = conds[0]
            if broke:
                sym_ = poly.sym(f"stop{len(self.__dict__.setdefault('stops', []))}", lo=0)
                self.stops.append((sym_, key, ans, n, kvar))
                count = sym_
                self.stopfacts = getattr(self, "stopfacts", [])
                self.stopfacts.append((sym_, n))
                poly.assume_lt(sym_, P(n))
            else:
                count = n
                self.__dict__.setdefault("full", []).append((key, ans, n, kvar))
        # names changed by the generic iteration
        names = {x.id for b in s.body for x in A.walk(b) if isinstance(x, A.Name) and isinstance(x.ctx, A.Store)}
        tgt = {x.id for x in A.walk(s.target) if isinstance(x, A.Name)}
        for b in s.body:
            for x in A.walk(b):
                if isinstance(x, (A.Call, A.Attribute)) and isinstance(getattr(x, "ctx", None), A.Store):
                    raise TooHard("side effect in a symbolic loop")
        incs = {}
        for b in self._counting(s.body):
            if not (isinstance(b.target, A.Name) and isinstance(b.op, A.Add) and isinstance(b.value, A.Constant)
                    and isinstance(b.value.value, int)):
                raise TooHard("symbolic loop body")
            incs[b.target.id] = incs.get(b.target.id, 0) + b.value.value
        for nm in names - tgt:
            if nm not in incs:
                raise TooHard(f"symbolic loop assigns {nm}")
        for nm, c in incs.items():
            extra = itp.arith("sub", env.vars[nm], before[nm]) if broke else 0
            env.vars[nm] = itp.arith("add", itp.arith("add", before[nm], itp.arith("mul", c, count)), extra)
        for nm in tgt:
            env.vars.pop(nm, None)

    def _counting(self, body):
        import ast as A
        out = []
        for st in body:
            if isinstance(st, A.AugAssign):
                out.append(st)
            elif isinstance(st, A.If):
                if any(isinstance(x, (A.Break, A.Continue)) for x in st.body) and len(st.body) == 1:
                    out += self._counting(st.orelse)
                elif any(isinstance(x, (A.Break, A.Continue)) for x in st.orelse) and len(st.orelse) == 1:
                    out += self._counting(st.body)
                else:
                    raise TooHard("symbolic loop body")
            elif isinstance(st, (A.Pass, A.Break)) or isinstance(st, A.Expr) and isinstance(st.value, A.Constant):
                pass
            else:
                raise TooHard("symbolic loop body")
        return out


INPLACE_OK = {"mul", "div", "sub", "add", "exp", "log", "sqrt", "abs", "clamp", "pow", "neg", "sigmoid", "cos", "sin",
              "clamp_min", "masked_fill", "floor", "ceil", "tanh", "relu", "reciprocal", "square", "addcmul", "lerp",
              "multiply", "divide", "subtract"}
