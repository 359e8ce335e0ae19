"""Driver utilities for scenarios: build inputs and models in the abstract
domain, run repository functions through the interpreter, compare results with
reference terms."""
import os
from fractions import Fraction
from . import poly, expr as X, tensor as T
from .poly import P, Poly
from .separate import separated, separated_small, separated_grad, row_dependent, reads_row, satisfiable
from .expr import TooHard
from .tensor import TVal, TorchError, FD, CD, FP, CP, F64, C64, I64, BOOL
from .interp import (Env, Frame, ModuleV, parse, Interp, AbsRaise, TensorObj, Root, Instance, ClassV, LObj, Native, GradNode, BoundV, FuncV, snum, SNum, Size)


class Finding:
    __slots__ = ("prop", "oblig", "msg", "where")

    def __init__(self, prop, oblig, msg, where):
        self.prop, self.oblig, self.msg, self.where = prop, oblig, msg, where


SCENARIOS = []


class Scenario:
    __slots__ = ("props", "name", "driver", "args", "moved", "paths", "tier", "limit", "raises")

    def __init__(self, props, name, driver, args, moved, paths, tier, limit, raises):
        self.props, self.name, self.driver, self.args = props, name, driver, args
        self.moved, self.paths, self.tier, self.limit, self.raises = moved, paths, tier, limit, raises


def scenario(props, name, driver, moved=False, paths=24, tier="quick", limit=240, raises=None, **args):
    """Register driver(c, **args).  `props` are the properties it has obligations
    for; `raises` the one violated if the code raises on a valid input."""
    props = props.split()
    SCENARIOS.append(Scenario(props, name, driver, args, moved, paths, tier, limit, raises or props[0]))


class Missing(Exception):
    """A construct the scenario relies on is gone (not an API of the library)."""


class Skip(Exception):
    """The scenario does not apply to this path."""


class Ctx:
    """One path of one scenario."""

    def __init__(self, it, moved=False):
        self.it = it
        self.checked = []       # (prop, name) obligations discharged
        self.findings = []
        self.undecided = []
        self.models = []
        self.report_events = True   # check the recorded effects when the path ends
        self.did_run = True
        self.strided = False        # inputs are views of larger tensors, not contiguous
        self.mult = None            # all symbolic sizes are multiples of this number
        self.allow = set()          # effects that are legitimate in this scenario
        self.moved = moved
        self.fdt, self.cdt, self.dev = (FP, CP, "M") if moved else (FD, CD, "C")
        self.last = None            # the callable last evaluated

    def begin(self, model=None):
        """Construction is over: of its events only changed arguments count."""
        self.it.events[:] = [e for e in self.it.events if e.kind == "mutate"]

    # ---- sizes and inputs
    def size(self, name, lo=2):
        if self.mult:
            return poly.P(self.mult) * poly.sym(name, 1)
        return poly.sym(name, lo)

    def tensor(self, name, shape, dt=None, dev=None, batch=0, owner=True, real=None, **info):
        tags = {batch: "b"} if batch is not None else {}
        v = T.base_tensor(name, shape, dt or self.fdt, dev or self.dev, tags=tags, **info)
        t = TensorObj(Root(v, ("arg", name) if owner else None))
        t.handle = t.root.owner
        if v.ndim:
            # strided: every other element along each dimension of a larger tensor
            st, gap = [], poly.P(2 if self.strided else 1)
            k = gap
            for n in reversed(v.shape):
                st.insert(0, k)
                k = k * poly.P(n) * gap
            t.strides = tuple(st)
            if self.strided:
                t.root.val = v.rep(contig=False)
        if info.get("param"):
            t.root.grad = GradNode("input", [], [], "")
        return t

    def ints(self, name, shape, dev=None, batch=0):
        return self.tensor(name, shape, I64, dev, batch)

    def lst(self, items, name="list"):
        l = LObj(items)
        l.owner = ("arg", name)
        return l

    # ---- repository objects
    def get(self, mod, name):
        m = self.it.module("torchmps." + mod if mod else "torchmps")
        if name not in m.vars:
            raise AbsRaise(ImportError, (f"cannot import name {name!r} from torchmps.{mod}",), mod)
        return m.vars[name]

    def run(self, f, *args, **kw):
        self.last = f
        return self.evaluate(f, args, kw)

    def fn(self, mod, name, *args, **kw):
        self.last = self.get(mod, name)
        return self.evaluate(self.last, args, kw)

    def construct(self, f, *args, **kw):
        """Run code whose effects are not part of the evaluation."""
        self.it.quiet += 1
        try:
            return self.it.call(f, list(args), kw)
        finally:
            self.it.quiet -= 1

    def meth(self, obj, name, *args, **kw):
        self.last = self.it.getattr(obj, name)
        return self.evaluate(self.last, args, kw)

    def evaluate(self, f, args, kw):
        """Call f; the gradient mode is the caller's, before and afterwards."""
        before = self.it.grad
        try:
            return self.it.call(f, list(args), kw)
        finally:
            if self.it.grad != before:
                self.bad("C17", "gradient mode", f"the call leaves gradients switched {'on' if self.it.grad else 'off'} for the rest of the program")
                self.it.grad = before

    def attr(self, obj, name):
        """An attribute the scenario uses as an anchor."""
        try:
            return self.it.getattr(obj, name)
        except AbsRaise as ex:
            if ex.name == "AttributeError":
                raise Missing(f"{self.it.tname(obj)} has no attribute {name}")
            raise

    def user(self, name):
        """A class or function of user/code.py: code of a user of the library, analysed like the library's."""
        it = self.it
        m = it.modules.get("user_code")
        if m is None:
            f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "user", "code.py")
            m = it.modules["user_code"] = ModuleV("user_code", f)
            m.vars.update(__name__="user_code", __file__=f)
            sf, sn = it.file, it.node
            it.file = "user/code.py"
            env = Env()
            env.vars = m.vars
            it.stack.append(Frame("<module>"))
            try:
                for st in parse(f).body:
                    it.exec(st, env, m)
            finally:
                it.stack.pop()
                it.file, it.node = sf, sn
            m.done = True
        return m.vars[name]

    # ---- parameters
    def named(self, model, kind="params"):
        out = []
        seen = set()

        def go(o, pre):
            if not isinstance(o, Instance) or id(o) in seen:
                return
            seen.add(id(o))
            for k, v in (getattr(o, kind) or {}).items():
                out.append((pre + k, v))
            for k, v in (o.modules or {}).items():
                go(v, pre + k + ".")
        go(model, "")
        return out

    def name_params(self, model, pre=""):
        """Give every parameter arbitrary content (a base tensor) in precision P
        on device M; buffers keep their content and move along."""
        move = self.moved
        res = {}
        done = set()
        for n, p in self.named(model):
            if not isinstance(p, TensorObj) or id(p.root) in done:
                continue
            v = p.get()
            if p.path:
                if sum(q.root is p.root for _, q in self.named(model)) > 1:
                    raise TooHard("parameters sharing memory")
                p.root, p.path = Root(v), ()
            done.add(id(p.root))
            dt = T.DType(v.dt.kind, "P") if v.dt.kind in "fc" and move else v.dt
            nv = T.base_tensor(pre + n, v.shape, dt, self.dev, param=True)
            p.root.val = nv
            p.root.version += 1
            p.root.owner = p.handle = ("param", pre + n)
            res[n] = p
        for n, p in self.named(model, "buffers"):
            if not isinstance(p, TensorObj) or id(p.root) in done:
                continue
            v = p.get()
            if p.path:
                p.root, p.path = Root(v), ()
            done.add(id(p.root))
            if move:
                dt = T.DType(v.dt.kind, "P") if v.dt.kind in "fc" else v.dt
                v = v.rep(dt=dt, dev="M", cells=v.cells)
            p.root.val = v
            p.root.version += 1
            p.root.owner = ("buffer", pre + n)
        return res

    # ---- obligations
    def ok(self, prop, name):
        self.checked.append((prop, name))

    # ---- the decisions this path depends on
    def conds(self):
        """Value-dependent decisions as (Expr, answer); None if some decision
        cannot be evaluated by a valuation."""
        skip = {x[1] for x in getattr(self.it.lib, "stops", [])} | {x[0] for x in getattr(self.it.lib, "full", [])}
        out = []
        for key, _, ans in self.it.decisions:
            if key in skip or key[0] in ("plt", "le"):
                continue
            if key[0] == "truth" and isinstance(key[1], X.Expr):
                out.append((key[1], ans))
            elif key[0] == "cmp" and isinstance(key[2], X.Expr):
                d = key[3] - key[2]
                op = key[1]
                if op in ("gt", "ge"):
                    d = -d
                out.append((X.fn("gt" if op in ("lt", "gt") else "ge", [d, X.ZERO]), ans))
            else:
                return None
        return out

    def generic(self, prop="C20"):
        """Leave paths that assume a numerical coincidence of arbitrary values
        (allclose): they hold on a set no term equality can describe."""
        for key, _, ans in self.it.decisions:
            if ans and key[0] == "truth" and isinstance(key[1], X.Expr):
                f = X.single_factor(key[1])
                if f and f[0] == "F" and X.FN[f[1]][0].startswith("allclose"):
                    loose = X.FN[f[1]][2]
                    if loose:
                        self.bad(prop, "exact", f"takes different values for equal if they agree up to rtol={loose[0]}, atol={loose[1]}: "
                                 + X.show(X.FN[f[1]][1][0], {})[:300], None, True)
                    raise Skip()

    def feasible(self):
        cs = self.conds()
        if cs is None:
            return None
        if not cs:
            return True
        return satisfiable(cs, self.it.lib)

    def bad(self, prop, name, msg, where=None, feasible=None):
        f = feasible or self.feasible()
        if f:
            self.findings.append(Finding(prop, name, msg, where or self.where()))
        elif f is None:
            self.und(prop, name, "on a path whose conditions are not evaluable: " + msg)

    def und(self, prop, name, msg):
        self.undecided.append((prop, name, msg))

    def where(self):
        """The construct whose result is judged: the callable last evaluated."""
        f = self.last
        try:
            if isinstance(f, Instance):
                f = f.cls.lookup("forward")[0]
            elif isinstance(f, ClassV):
                f = f.lookup("__init__")[0]
            if isinstance(f, BoundV):
                f = f.func
            return f"{f.module.path}:{f.node.lineno} ({f.qual})"
        except (AttributeError, TypeError):
            return None

    def check(self, prop, name, cond, msg, where=None):
        if cond is None:
            self.und(prop, name, msg)
        elif cond:
            self.ok(prop, name)
        else:
            self.bad(prop, name, msg, where)

    def same(self, prop, name, got, want, where=None, grad=False):
        """got (abstract value returned by the code) equals the reference tensor."""
        if isinstance(got, TensorObj):
            g = got.get()
        elif isinstance(got, TVal):
            g = got
        else:
            self.bad(prop, name, f"returned {self.it.tname(got)} instead of a tensor", where)
            return False
        if grad and isinstance(got, TensorObj):
            n = self.it.stale(got)
            if n is not None:
                self.bad(prop, name, f"the tensor that the gradient of '{n.op}' at {n.where} needs is overwritten in place afterwards", n.where)
                return False
        if isinstance(want, TensorObj):
            want = want.get()
        if not grad:
            g = g.map(X.undetach)
            want = want.map(X.undetach)
        try:
            d = T.same_value(g, want)
        except TooHard as ex:
            self.und(prop, name, str(ex))
            return None
        if d is None:
            self.ok(prop, name)
            return True
        return self.judge(prop, name, d, g, where, grad)

    def by_row(self, prop, name, got, names, axis=0, where=None):
        """Every entry of `got` reads the named tensors (batch axis first) only at
        its own index along `axis`."""
        g = val(got)
        if g.axes[axis][0] != "V":
            return self.und(prop, name, "batch axis is not symbolic")
        row = g.axes[axis][1]
        todo = [(p, e) for p, e in g.cells.items() if not reads_row(e, names, row)]
        if not todo:
            return self.ok(prop, name)
        cs = self.conds()
        for p, e in todo:
            r = None if cs is None else row_dependent(e, names, row, sorted(e.free | {row}), self.it.lib, conds=cs)
            if r:
                nm = {v: f"ax{k}" for k, v in enumerate(T.avars(g.axes))}
                return self.bad(prop, name, f"entry {p} depends on other elements of the batch: {X.show(e, nm)[:900]}", where, True)
        self.und(prop, name, "reads other rows, but no valuation shows a dependence")

    def judge(self, prop, name, d, g, where=None, grad=False):
        """A difference of canonical forms is a violation if shapes differ or a
        valuation of the symbols separates the two terms."""
        if isinstance(d, str):
            self.bad(prop, name, d, where)
            return False
        if d[0] == "structure":
            self.und(prop, name, "axis structures differ")
            return None
        pos, e, f = d
        vs = sorted((e.free | f.free))
        cs = self.conds()
        if cs is None:
            self.und(prop, name, "difference on a path whose conditions are not evaluable")
            return None
        sep = separated(e, f, vs, self.it.lib, conds=cs)
        if not sep and X.nonfinite(e) and not X.nonfinite(f) and (not cs or satisfiable(cs, self.it.lib)):
            sep = True
        if not sep:
            sep = separated_small(e, f, vs, self.it.lib, conds=cs)
        if sep:
            nm = {v: f"ax{k}" for k, v in enumerate(T.avars(g.axes))}
            ee, ff = X.show(e, nm), X.show(f, nm)
            self.bad(prop, name, f"entry {pos}: code computes {ee[:900]} but the property requires {ff[:900]}", where, True)
            return False
        if grad and separated_grad(e, f, vs, self.it.lib, conds=cs):
            nm = {v: f"ax{k}" for k, v in enumerate(T.avars(g.axes))}
            self.bad(prop, name, f"entry {pos}: the value is right but its gradient is not; code computes {X.show(e, nm)[:900]} "
                     "where 'nograd marks occurrences of parameters that gradients do not reach", where, True)
            return False
        self.und(prop, name, "normal forms differ but no valuation separates them")
        return None


def es(spec, *ops):
    """Reference einsum."""
    ins, out = spec.split("->")
    ops = [o.get() if isinstance(o, TensorObj) else o for o in ops]
    return T.einsum(list(ops), ins.split(","), out)


def val(t):
    return t.get() if isinstance(t, TensorObj) else t


def pick(t, *idx):
    return T.getitem(val(t), tuple(idx))


def ew(f, *vals, dt=None):
    return T.ewise(f, *[val(v) for v in vals], dt=dt)


def conj(t):
    t = val(t)
    return t.map(X.conj)
