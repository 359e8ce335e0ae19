"""Abstract interpreter for the Python source of the repository.

It walks the syntax tree of the modules under torchmps/ with abstract tensors
(sa/tensor.py), symbolic sizes (sa/poly.py) and modelled library functions
(sa/torchlib.py).  Nothing of the repository is imported or executed.  Branches
on values the abstraction does not determine partition the analysis into paths
(explore); a construct outside the modelled language ends the scenario with
"no answer" (TooHard), never with an alarm.
"""
import ast
import operator
import os
import sys
from collections import deque
from fractions import Fraction
from .poly import Poly, P, cmp_lt, cmp_le, cmp_eq, floordiv, mod, FACTS
from . import poly, expr as X
from .expr import TooHard
from . import tensor as T, attrs as A
from .tensor import dim_eq as T_dim_eq
from .tensor import TVal, TorchError, norm


# ---------------------------------------------------------------- values
class SNum:
    """A Python float known only symbolically."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SNum({self.e})"

    def __eq__(self, o):
        return isinstance(o, SNum) and self.e == o.e

    def __hash__(self):
        return hash(self.e)


def snum(e):
    if e.is_const:
        return e.value
    return SNum(e)


class Undec:
    """A truth value that is not determined."""
    __slots__ = ("key", "why", "neg", "polys")

    def __init__(self, key, why="", neg=False, polys=None):
        self.key, self.why, self.neg, self.polys = key, why, neg, polys


class Size(tuple):
    """torch.Size."""

    def __repr__(self):
        return f"torch.Size({list(self)})"


class NamedTup(tuple):
    """A tuple whose entries have names (torch.return_types)."""

    def __new__(cls, items, fields):
        o = tuple.__new__(cls, items)
        o.fields = tuple(fields)
        return o


class LObj(list):
    """A list belonging to the caller."""
    owner = None
    __hash__ = object.__hash__


class FuncV:
    def __init__(self, node, env, module, qual, defaults, kwdefaults, cls=None):
        self.node, self.env, self.module, self.qual = node, env, module, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    def __repr__(self):
        return f"<func {self.qual}>"


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class BoundV:
    def __init__(self, func, slf):
        self.func, self.self = func, slf

    def __repr__(self):
        return f"<bound {self.func}>"


class ClassV:
    def __init__(self, name, bases, module=None, node=None):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.attrs = {}
        self.enum = None        # members of an Enum
        self.foreign = None     # base class of the library without a model

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def host_exc(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type) and issubclass(b, BaseException):
                    return b
        return None

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.params = None      # nn.Module after __init__
        self.buffers = None
        self.modules = None
        self.nonpersistent = set()
        self.native = None      # payload of modelled library modules

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Native:
    __slots__ = ("name", "fn", "special", "t")

    def __init__(self, name, fn, special=False, t=None):
        self.name, self.fn, self.special, self.t = name, fn, special, t

    def __repr__(self):
        return f"<native {self.name}>"


class NativeMod:
    def __init__(self, name, table):
        self.name, self.table = name, table

    def __repr__(self):
        return f"<module {self.name}>"


class ModuleV:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.vars = {}
        self.done = False


class TypeTok:
    def __init__(self, name, test, ctor=None):
        self.name, self.test, self.ctor = name, test, ctor

    def __repr__(self):
        return f"<type {self.name}>"


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class PropV:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticV:
    def __init__(self, func, kind):
        self.func, self.kind = func, kind


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class CtxV:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Opaque:
    """A library object without behaviour (typing constructs and the like)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def parent_of(name):
    return name.rsplit(".", 1)[0] if "." in name else None


class Unknown(Opaque):
    """A value this analysis has no model of; every use of it is undecided."""


class Keys(list):
    """dict.keys()"""


class DefDict(dict):
    """collections.defaultdict"""
    factory = None


class GenV:
    """A generator: runs when it is iterated over."""

    def __init__(self, it, f, env, frame):
        self.it, self.f, self.env, self.frame = it, f, env, frame
        self.items, self.pos, self.ret = None, 0, None

    def run(self, on_yield=None):
        it, self.items = self.it, self.frame.yields
        self.frame.on_yield = on_yield
        self.ret = it.run_body(self.f, self.env, self.frame)

    def __iter__(self):
        return self

    def __next__(self):
        if self.items is None:
            self.run()
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class CMV:
    """contextlib.contextmanager: a generator function as a context manager."""

    def __init__(self, gen):
        self.gen = gen


class _GenClose(BaseException):
    """A loop over a generator was left."""


class AbsRaise(Exception):
    def __init__(self, cls, args=(), where=None, inst=None):
        super().__init__(cls, args)
        self.cls, self.eargs, self.where, self.inst = cls, args, where, inst
        self.shown = self.msg = None

    def args_(self):
        """What the program sees as the arguments."""
        if self.msg is not None:
            self.shown, self.msg = self.msg(), None
        return tuple(self.eargs) if self.shown is None else self.shown

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassV) else self.cls.__name__

    def __repr__(self):
        return f"{self.name}({', '.join(map(str, self.eargs))}) at {self.where}"


class ExcObj:
    def __init__(self, cls, args):
        self.cls, self.eargs = cls, args


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- tensors as objects
class Root:
    __slots__ = ("val", "owner", "version", "name", "grad", "links", "poison")

    def __init__(self, val, owner=None):
        self.val, self.owner, self.version = val, owner, 0
        self.links, self.poison = (), False     # storages that may or may not be the same memory
        self.grad = None        # GradNode of the operation that last wrote it


class GradNode:
    """A recorded operation: its inputs' records and the storages (with their
    version) that computing its gradient needs."""
    __slots__ = ("op", "parents", "saves", "where")

    def __init__(self, op, parents, saves, where):
        self.op, self.parents, self.saves, self.where = op, parents, saves, where


class TensorObj:
    """A reference to (a view of) a storage."""

    def __init__(self, root, path=(), param=False):
        self.root, self.path = root, path
        self.is_param = param
        self.req_grad = param
        self._cache = None
        self.attrs = {}

    def get(self):
        if self.root.poison:
            raise TooHard("memory possibly shared with a tensor that was modified")
        if not self.path:
            return self.root.val
        if self._cache and self._cache[0] == self.root.version:
            return self._cache[1]
        v = self.root.val
        for ap, _ in self.path:
            v = ap(v)
        self._cache = (self.root.version, v)
        return v

    def set(self, v):
        vals = [self.root.val]
        for ap, _ in self.path[:-1]:
            vals.append(ap(vals[-1]))
        for (ap, wr), base in zip(reversed(self.path), reversed(vals)):
            if wr is None:
                raise TooHard("in-place write through this view")
            v = wr(base, v)
        self.root.val = v
        self.root.version += 1
        for l in self.root.links:
            l.poison = True

    def __repr__(self):
        return repr(self.get())


class Env:
    __slots__ = ("vars", "parent", "glob", "nonloc", "is_class", "frame")

    def __init__(self, parent=None, frame=None):
        self.vars, self.parent = {}, parent
        self.glob, self.nonloc = set(), set()
        self.is_class = False
        self.frame = frame


class Frame:
    def __init__(self, func, cls=None, slf=None):
        self.func, self.cls, self.slf = func, cls, slf
        self.yields = []
        self.on_yield = self.outer_file = None


class Event:
    __slots__ = ("kind", "msg", "where", "stack", "obj")

    def __init__(self, kind, msg, where, stack, obj=None):
        self.kind, self.msg, self.where, self.stack, self.obj = kind, msg, where, stack, obj

    def __repr__(self):
        return f"{self.kind}: {self.msg} at {self.where}"


MISSING = object()

BINOPS = {ast.Add: ("add", "+"), ast.Sub: ("sub", "-"), ast.Mult: ("mul", "*"), ast.Div: ("truediv", "/"),
          ast.FloorDiv: ("floordiv", "//"), ast.Mod: ("mod", "%"), ast.Pow: ("pow", "**"),
          ast.MatMult: ("matmul", "@"), ast.BitAnd: ("and", "&"), ast.BitOr: ("or", "|"),
          ast.BitXor: ("xor", "^"), ast.LShift: ("lshift", "<<"), ast.RShift: ("rshift", ">>")}
CMPOPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
REFL = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


class Interp:
    MAXSTEPS = 3_000_000

    def __init__(self, repo, oracle=None):
        self.repo = repo
        self.modules = {}
        self.events = []
        self.grad = True
        self.stack = []
        self.node = None
        self.file = None
        self.steps = 0
        self.oracle = oracle or {}
        self.decisions = []       # (key, why, answer) of this run
        self.funcs_seen = set()
        self.calls = 0
        self.assumed = []
        self.rng = 0
        self.npstate = ("init",)
        self.hooks = {}           # qualname -> callable(interp, args, kwargs)
        self.quiet = 0
        T.Hooks.event = lambda kind, msg: self.event(kind, msg)
        T.Hooks.decide = lambda key, why="": self.decide(key, why)
        from . import torchlib
        self.lib = torchlib.Lib(self)
        self.builtins = self.lib.builtins()
        self.natives = self.lib.native_modules()

    # -- bookkeeping ----------------------------------------------------
    def where(self):
        if self.node is None or not hasattr(self.node, "lineno"):
            return "?"
        fn = self.stack[-1].func if self.stack else "<module>"
        q = fn.qual if isinstance(fn, FuncV) else str(fn)
        return f"{self.file}:{self.node.lineno} ({q})"

    def event(self, kind, msg, obj=None):
        if self.quiet:
            return
        st = [f.func.qual for f in self.stack if isinstance(f.func, FuncV)]
        if not st:
            return          # reference computations of a scenario
        self.events.append(Event(kind, msg, self.where(), st, obj))

    def decide(self, key, why=""):
        for k, _, a in self.decisions:
            if k == key:
                return a
        if key in self.oracle:
            a = self.oracle[key]
        else:
            a = True
            self.oracle[key] = a
            self.new_keys.append(key)
        self.decisions.append((key, why, a))
        return a

    new_keys = None

    def raise_(self, cls, *args):
        raise AbsRaise(cls, args, self.where())

    # -- modules ----------------------------------------------------------
    def module(self, name):
        if name in self.natives:
            return self.natives[name]
        if name in self.modules:
            m = self.modules[name]
            return m
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path):
            f = os.path.join(path, "__init__.py")
        else:
            f = path + ".py"
        if not os.path.exists(f):
            root = name.split(".")[0]
            if root in sys.stdlib_module_names and name not in self.natives:
                m = self.natives[name] = NativeMod(name, {})
                if parent_of(name) in self.natives:
                    self.natives[parent_of(name)].table.setdefault(name.rsplit(".", 1)[1], m)
                return m
            if root in self.natives:
                raise TooHard(f"import of {name}")
            if os.path.isdir(os.path.join(self.repo, root)):
                self.raise_(ModuleNotFoundError, name)
            raise TooHard(f"import of {name}")
        parent = name.rsplit(".", 1)[0] if "." in name else None
        if parent:
            self.module(parent)
            if name in self.modules:
                return self.modules[name]
        m = ModuleV(name, f)
        self.modules[name] = m
        m.vars["__name__"] = name
        m.vars["__file__"] = f
        tree = parse(f)
        sf, sn = self.file, self.node
        self.file = os.path.relpath(f, self.repo)
        env = Env()
        env.vars = m.vars
        self.stack.append(Frame("<module>"))
        try:
            for s in tree.body:
                self.top(s, env, m)
        finally:
            self.stack.pop()
            self.file, self.node = sf, sn
        m.done = True
        pm = self.modules.get(parent)
        if isinstance(pm, ModuleV):
            pm.vars.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def top(self, s, env, m):
        """A statement of a module: what it binds is unknown if it has no model."""
        try:
            self.exec(s, env, m)
        except TooHard as ex:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                names = [s.name]
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                names = [a.asname or a.name.split(".")[0] for a in s.names if a.name != "*"]
                names = [n for n in names if n not in env.vars]
                if s.names[0].name == "*":
                    raise
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if not all(isinstance(t, (ast.Name, ast.Tuple)) and all(isinstance(n, (ast.Name, ast.Tuple, ast.Store)) for n in ast.walk(t)) for t in ts):
                    raise
                names = [n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name)]
            else:
                raise
            for n in names:
                env.vars[n] = Unknown(f"{n} ({ex})")

    # -- statements ---------------------------------------------------------
    def block(self, body, env, mod):
        for s in body:
            self.exec(s, env, mod)

    def exec(self, s, env, mod):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooHard("analysis budget exceeded")
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise TooHard(f"statement {type(s).__name__}")
        m(s, env, mod)

    def s_Expr(self, s, env, mod):
        self.eval(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Break(self, s, env, mod):
        raise _Break()

    def s_Continue(self, s, env, mod):
        raise _Continue()

    def s_Return(self, s, env, mod):
        raise _Return(self.eval(s.value, env, mod) if s.value else None)

    def s_Global(self, s, env, mod):
        env.glob.update(s.names)

    def s_Nonlocal(self, s, env, mod):
        env.nonloc.update(s.names)

    def s_Assign(self, s, env, mod):
        v = self.eval(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(t.id, ast.Load(), lineno=t.lineno, col_offset=0), env, mod)
            self.store_name(t.id, self.inplace(s.op, cur, self.eval(s.value, env, mod)), env, mod)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env, mod)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.inplace(s.op, cur, self.eval(s.value, env, mod)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env, mod)
            idx = self.eval_index(t.slice, env, mod)
            cur = self.getitem(obj, idx)
            val = self.eval(s.value, env, mod)
            self.node = s
            self.setitem(obj, idx, self.inplace(s.op, cur, val))
        else:
            raise TooHard("augmented assignment")

    def inplace(self, op, cur, val):
        if isinstance(cur, TensorObj):
            r = self.lib.inplace(BINOPS[type(op)][0], cur, val)
            self.record("in-place " + BINOPS[type(op)][0], [cur, val], cur)
            return r
        if isinstance(cur, list) and isinstance(op, ast.Add):
            self.list_mut(cur)
            cur.extend(self.iterate(val))
            return cur
        if isinstance(cur, list) and isinstance(op, ast.Mult):
            self.list_mut(cur)
            cur[:] = list(cur) * val
            return cur
        if isinstance(cur, Instance):
            name = BINOPS[type(op)][0]
            f = self.find_method(cur, f"__i{name}__")
            if f is not None:
                r = self.call(f, [val], {})
                if r is not NotImplemented:
                    return r
        if isinstance(cur, set) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            if isinstance(op, ast.BitOr):
                cur |= val
            elif isinstance(op, ast.BitAnd):
                cur &= val
            else:
                cur -= val
            return cur
        return self.binop(op, cur, val)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, env, mod)
                idx = self.eval_index(t.slice, env, mod)
                if isinstance(obj, list):
                    self.list_mut(obj)
                    try:
                        del obj[idx]
                    except IndexError as e:
                        self.raise_(IndexError, str(e))
                elif isinstance(obj, dict):
                    del obj[idx]
                else:
                    f = self.find_method(obj, "__delitem__")
                    if f is None:
                        raise TooHard("del item")
                    self.call(f, [idx], {})
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, env, mod)
                if isinstance(obj, Instance):
                    for d in (obj.attrs, obj.params, obj.buffers, obj.modules):
                        if d and t.attr in d:
                            del d[t.attr]
                            break
                    else:
                        self.raise_(AttributeError, t.attr)
                else:
                    raise TooHard("del attribute")

    def s_If(self, s, env, mod):
        c = self.truth(self.eval(s.test, env, mod), s.test)
        self.block(s.body if c else s.orelse, env, mod)

    def s_Assert(self, s, env, mod):
        r = True
        for test in s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]:
            v = self.eval(test, env, mod)
            r1 = self.truth3(v)
            if r1 is not True:
                r = r1
            if r1 is False:
                break
        if r is False:
            self.node = s
            ex = AbsRaise(AssertionError, (ast.unparse(s.test)[:120],), self.where())
            if s.msg is None:
                ex.shown = ()
            else:
                ex.msg = lambda: (self.eval(s.msg, env, mod),)
            raise ex
        if r is None:
            self.assumed.append((self.where(), ast.unparse(s.test)[:80]))

    def s_Match(self, s, env, mod):
        v = self.eval(s.subject, env, mod)
        for case in s.cases:
            got = {}
            if not self.match(case.pattern, v, got, env, mod):
                continue
            for k, x in got.items():
                self.store_name(k, x, env, mod)
            if case.guard is None or self.truth(self.eval(case.guard, env, mod), case.guard):
                return self.block(case.body, env, mod)

    def match(self, p, v, got, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.cmp("eq", v, self.eval(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, got, env, mod):
                return False
            if p.name is not None:
                got[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, got, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple, range)):
                if isinstance(v, (str, int, Fraction, type(None), dict, TensorObj, Poly, SNum)):
                    return False
                raise TooHard("match of a sequence")
            st = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if len(v) != n if not st else len(v) < n - 1:
                return False
            if not st:
                return all(self.match(q, x, got, env, mod) for q, x in zip(p.patterns, v))
            k = st[0]
            e = len(v) - (n - k - 1)
            if p.patterns[k].name is not None:
                got[p.patterns[k].name] = list(v[k:e])
            return all(self.match(q, x, got, env, mod) for q, x in zip(p.patterns[:k] + p.patterns[k + 1:], list(v[:k]) + list(v[e:])))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            for k, q in zip(p.keys, p.patterns):
                k = self.eval(k, env, mod)
                if k not in v or not self.match(q, v[k], got, env, mod):
                    return False
            if p.rest is not None:
                raise TooHard("match of a mapping")
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env, mod)
            if not self.truth(self.lib.b_isinstance(v, c)):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, TypeTok) and c.name in ("int", "str", "float", "bool", "list", "tuple", "dict", "set"):
                    if not self.match(p.patterns[0], v, got, env, mod):
                        return False
                else:
                    raise TooHard("match of a class")
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, k, None)
                if not self.match(q, x, got, env, mod):
                    return False
            return True
        raise TooHard("match pattern")

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            raise self.cur_exc
        v = self.eval(s.exc, env, mod)
        self.node = s
        if isinstance(v, type) and issubclass(v, BaseException):
            raise AbsRaise(v, (), self.where())
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, ExcObj):
            raise AbsRaise(v.cls, v.eargs, self.where())
        if isinstance(v, Instance) and v.cls.host_exc():
            raise AbsRaise(v.cls, tuple(v.attrs.get("args", ())), self.where(), v)
        if isinstance(v, AbsRaise):
            raise v
        self.raise_(TypeError, "exceptions must derive from BaseException")

    cur_exc = None

    def s_Try(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except AbsRaise as ex:
                for h in s.handlers:
                    if h.type is None or self.exc_match(ex, self.eval(h.type, env, mod)):
                        if h.name:
                            env.vars[h.name] = ex
                        old, self.cur_exc = self.cur_exc, ex
                        try:
                            self.block(h.body, env, mod)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, mod)

    def exc_match(self, ex, t):
        if isinstance(t, Unknown):
            raise TooHard(t.name)
        if isinstance(t, tuple):
            return any(self.exc_match(ex, x) for x in t)
        if isinstance(ex.cls, ClassV):
            if isinstance(t, ClassV):
                return ex.cls.issub(t)
            h = ex.cls.host_exc()
            return isinstance(t, type) and h is not None and issubclass(h, t)
        return isinstance(t, type) and issubclass(ex.cls, t)

    def s_With(self, s, env, mod):
        self.with_(s.items, lambda: self.block(s.body, env, mod), env, mod)

    def with_(self, items, body, env, mod):
        if not items:
            return body()
        w, rest = items[0], items[1:]
        c = self.eval(w.context_expr, env, mod)

        def inner(val):
            if w.optional_vars is not None:
                self.assign(w.optional_vars, val, env, mod)
            self.with_(rest, body, env, mod)
        if isinstance(c, CMV):
            return self.with_gen(c, inner)
        val = self.ctx_enter(c)
        try:
            inner(val)
        except AbsRaise as ex:
            r = self.ctx_exit(c, ex)
            if r is None or r is False or not self.truth(r):
                raise
            return
        except BaseException:
            self.ctx_exit(c)
            raise
        self.ctx_exit(c)

    def with_gen(self, c, inner):
        """The body runs where the generator yields: exceptions pass through the
        generator, a return, break or continue waits until it has ended."""
        n, ctl = [0], []

        def at_yield(v):
            n[0] += 1
            if n[0] > 1:
                self.raise_(RuntimeError, "generator didn't stop")
            try:
                inner(v)
            except (_Return, _Break, _Continue, _GenClose) as ex:
                ctl.append(ex)
        if c.gen.items is not None:
            raise TooHard("context manager used again")
        c.gen.run(at_yield)
        if not n[0]:
            self.raise_(RuntimeError, "generator didn't yield")
        if ctl:
            raise ctl[0]

    def ctx_enter(self, c):
        if isinstance(c, CtxV):
            c.saved = getattr(c, "saved", [])
            c.saved.append(getattr(c, "prev", self.grad))
            if c.kind == "no_grad":
                self.grad = False
            elif c.kind == "enable_grad":
                self.grad = True
            elif c.kind == "set_grad":
                self.grad = bool(c.val)
            elif c.kind == "null":
                return c.val
            return None
        if isinstance(c, Instance):
            f = self.find_method(c, "__enter__")
            if f is not None:
                return self.call(f, [], {})
        raise TooHard(f"context manager {c!r}")

    def ctx_exit(self, c, ex=None):
        if isinstance(c, CtxV):
            self.grad = c.saved.pop()
            return None
        return self.call(self.find_method(c, "__exit__"), [None, None, None] if ex is None else [ex.cls, ex, Unknown("traceback")], {})

    def s_For(self, s, env, mod):
        it = self.eval(s.iter, env, mod)
        broke = False
        if isinstance(it, TensorObj):
            v = it.get()
            if v.ndim and v.axes[0][0] == "V":
                return self.symbolic_for(s, it, env, mod)
        if isinstance(it, GenV) and it.items is None:
            return self.for_gen(s, it, env, mod)
        for x in self.iterate(it):
            self.assign(s.target, x, env, mod)
            try:
                self.block(s.body, env, mod)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, env, mod)

    def for_gen(self, s, g, env, mod):
        """Loop over a generator: the body runs at each yield."""
        left, close = [], _GenClose()

        def at_yield(v):
            try:
                self.assign(s.target, v, env, mod)
                self.block(s.body, env, mod)
            except _Continue:
                pass
            except TooHard:
                raise
            except BaseException as ex:
                left.append(ex)
                raise close
        try:
            g.run(at_yield)
        except _GenClose as ex:
            if ex is not close:
                raise
            if not isinstance(left[0], _Break):
                raise left[0]
            return
        if left:
            raise TooHard("generator goes on after it was closed")
        self.block(s.orelse, env, mod)

    def symbolic_for(self, s, it, env, mod):
        """Loop over a symbolic-length axis: one generic iteration, then a
        closed form for counters; `break` on an undetermined condition stops
        after an unknown number of iterations."""
        return self.lib.symbolic_for(self, s, it, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        while True:
            self.node = s
            if not self.truth(self.eval(s.test, env, mod), s.test):
                self.block(s.orelse, env, mod)
                return
            n += 1
            if n > 2000:
                raise TooHard("while loop does not end")
            try:
                self.block(s.body, env, mod)
            except _Break:
                return
            except _Continue:
                continue

    def s_Import(self, s, env, mod):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                root = a.name.split(".")[0]
                env.vars[root] = self.module(root)

    def s_ImportFrom(self, s, env, mod):
        name = s.module or ""
        if s.level:
            base = mod.name.split(".")
            is_pkg = mod.path.endswith("__init__.py")
            up = s.level - (1 if is_pkg else 0)
            base = base[:len(base) - up] if up else base
            name = ".".join(base + ([name] if name else []))
        m = self.module(name)
        for a in s.names:
            if a.name == "*":
                src = m.vars if isinstance(m, ModuleV) else m.table
                names = src.get("__all__") if isinstance(m, ModuleV) else None
                for k in (names or [k for k in src if not k.startswith("_")]):
                    env.vars[k] = src[k]
                continue
            env.vars[a.asname or a.name] = self.import_name(m, name, a.name)

    def import_name(self, m, name, attr):
        if isinstance(m, ModuleV):
            if attr in m.vars:
                return m.vars[attr]
            sub = os.path.join(self.repo, *name.split("."), attr)
            if os.path.exists(sub + ".py") or os.path.isdir(sub):
                return self.module(name + "." + attr)
            self.raise_(ImportError, f"cannot import name {attr} from {name}")
        try:
            return self.getattr(m, attr)
        except TooHard:
            return Unknown(f"{name}.{attr}")

    def s_FunctionDef(self, s, env, mod):
        f = self.make_func(s, env, mod)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.eval(d, env, mod), f)
        self.store_name(s.name, f, env, mod)

    def decorate(self, d, f):
        return self.call(d, [f], {})

    def make_func(self, s, env, mod):
        a = s.args
        defaults = [self.eval(d, env, mod) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cls = env.frame.cls if env.is_class else None
        q = s.name if not isinstance(s, ast.Lambda) else "<lambda>"
        if env.is_class:
            q = f"{env.frame.cls.name}.{q}"
        elif env.frame is not None and isinstance(env.frame.func, FuncV):
            q = f"{env.frame.func.qual}.{q}"
        f = FuncV(s, env, mod, q, defaults, kwd, cls)
        f.file = self.file
        return f

    def s_ClassDef(self, s, env, mod):
        bases = [self.eval(b, env, mod) for b in s.bases]
        for b in bases:
            if isinstance(b, Unknown):
                self.store_name(s.name, Unknown(f"subclass of {b.name}"), env, mod)
                return
        tup = [b for b in bases if isinstance(b, type) and issubclass(b, tuple) and hasattr(b, "_fields")]
        named = any(isinstance(b, Opaque) and b.name == "NamedTuple" for b in bases)
        enum = any(isinstance(b, Opaque) and b.name in ("Enum", "IntEnum", "StrEnum") or isinstance(b, ClassV) and b.enum is not None for b in bases)
        if any(isinstance(b, Opaque) and b.name in ("IntEnum", "StrEnum", "Flag") for b in bases):
            self.store_name(s.name, Unknown("IntEnum"), env, mod)
            return
        kept = [b for b in bases if not isinstance(b, Opaque) and b is not object and b not in tup]
        c = ClassV(s.name, kept, mod, s)
        if any(not isinstance(b, ClassV) and not (isinstance(b, type) and issubclass(b, BaseException)) for b in kept):
            c.foreign = ", ".join(map(str, kept))
        cenv = Env(env, Frame(s.name, cls=c))
        cenv.is_class = True
        ann = []
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and "ClassVar" not in ast.unparse(st.annotation):
                ann.append(st.target.id)
            self.exec(st, cenv, mod)
        c.attrs.update(cenv.vars)
        c.fields = ann
        v = c
        if named or tup:
            v = self.lib.tuple_class(s.name, ann if named else list(tup[0]._fields), c, tup[0] if tup else None)
        elif enum:
            c.enum = {}
            last = 0
            for k in list(cenv.vars):
                x = c.attrs[k]
                if k.startswith("_") or isinstance(x, (FuncV, StaticV, PropV, Native)):
                    continue
                if isinstance(x, Opaque) and x.name == "auto()":
                    x = last + 1
                last = x if isinstance(x, int) else last
                o = Instance(c)
                o.attrs.update(value=x, name=k, _value_=x, _name_=k)
                c.enum[k] = c.attrs[k] = o
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, env, mod), v)
        self.store_name(s.name, v, env, mod)

    # -- names ------------------------------------------------------------
    def store_name(self, name, v, env, mod):
        if name in env.glob:
            mod.vars[name] = v
            self.event("global", f"assigns module variable {name}")
            return
        if name in env.nonloc:
            e = env.parent
            while e is not None:
                if name in e.vars and not e.is_class:
                    e.vars[name] = v
                    return
                e = e.parent
            raise TooHard("nonlocal")
        env.vars[name] = v

    def load_name(self, name, env, mod):
        e = env
        first = True
        if name in env.glob:
            e = None
        while e is not None:
            if name in e.vars and (first or not e.is_class):
                return e.vars[name]
            first = False
            e = e.parent
        if name in mod.vars:
            return mod.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(__import__("builtins"), name):
            raise TooHard(f"builtin {name}")
        self.raise_(NameError, f"name '{name}' is not defined")

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env, mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < k + after:
                    self.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[k].value, items[k:len(items) - after], env, mod)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env, mod)
                return
            if len(items) != len(t.elts):
                self.raise_(ValueError, f"cannot unpack {len(items)} values into {len(t.elts)}")
            for e, x in zip(t.elts, items):
                self.assign(e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env, mod)
            idx = self.eval_index(t.slice, env, mod)
            self.node = t
            self.setitem(obj, idx, v)
        else:
            raise TooHard("assignment target")

    # -- expressions --------------------------------------------------------
    def eval(self, n, env, mod):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooHard("analysis budget exceeded")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise TooHard(f"expression {type(n).__name__}")
        old = self.node
        if hasattr(n, "lineno"):
            self.node = n
        try:
            return m(n, env, mod)
        except TorchError as ex:
            raise AbsRaise(getattr(__import__("builtins"), ex.cls), (str(ex),), self.where())

    def e_Constant(self, n, env, mod):
        v = n.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else v
        if isinstance(v, complex):
            return SNum(X.mul(X.number("I"), X.E(v.imag)) + X.E(v.real))
        return v

    def e_Name(self, n, env, mod):
        return self.load_name(n.id, env, mod)

    def e_Tuple(self, n, env, mod):
        return tuple(self.eval_elts(n.elts, env, mod))

    def e_List(self, n, env, mod):
        return list(self.eval_elts(n.elts, env, mod))

    def e_Set(self, n, env, mod):
        return set(self.eval_elts(n.elts, env, mod))

    def eval_elts(self, elts, env, mod):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += list(self.iterate(self.eval(e.value, env, mod)))
            else:
                out.append(self.eval(e, env, mod))
        return out

    def e_Dict(self, n, env, mod):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, env, mod))
            else:
                d[self.eval(k, env, mod)] = self.eval(v, env, mod)
        return d

    def e_NamedExpr(self, n, env, mod):
        v = self.eval(n.value, env, mod)
        self.assign(n.target, v, env, mod)
        return v

    def e_IfExp(self, n, env, mod):
        return self.eval(n.body if self.truth(self.eval(n.test, env, mod), n.test) else n.orelse, env, mod)

    def e_BoolOp(self, n, env, mod):
        is_and = isinstance(n.op, ast.And)
        v = None
        und = None
        for k, e in enumerate(n.values):
            v = self.eval(e, env, mod)
            if k == len(n.values) - 1:
                break
            r = self.truth3(v)
            if r is None:
                r = self.truth(v, e)
            if r != is_and:
                return v
        return v

    def e_UnaryOp(self, n, env, mod):
        v = self.eval(n.operand, env, mod)
        self.node = n
        if isinstance(n.op, ast.Not):
            if isinstance(v, Undec):
                return Undec(v.key, v.why, not v.neg)
            r = self.truth3(v)
            if r is None:
                u = self.undec_of(v)
                return Undec(u.key, u.why, not u.neg)
            return not r
        if isinstance(v, TensorObj):
            r = self.lib.unary(type(n.op).__name__, v)
            self.record(type(n.op).__name__, [v], r)
            return r
        if isinstance(n.op, ast.USub):
            if isinstance(v, SNum):
                return snum(-v.e)
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, (int, Fraction, float)):
                return -v
            if isinstance(v, Poly):
                return norm(-v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(v, Instance):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(n.op).__name__]
            f = self.find_method(v, nm)
            if f is not None:
                return self.call(f, [], {})
        raise TooHard(f"unary operator on {v!r}")

    def e_BinOp(self, n, env, mod):
        a = self.eval(n.left, env, mod)
        b = self.eval(n.right, env, mod)
        self.node = n
        return self.binop(n.op, a, b)

    def record(self, op, args, res):
        """Remember what the gradient of this operation needs (torch raises in the
        backward pass if one of these tensors is overwritten later)."""
        if not self.grad:
            return
        ts, todo = [], list(args)
        while todo:
            x = todo.pop()
            if isinstance(x, TensorObj):
                ts.insert(0, x)
            elif isinstance(x, (list, tuple)):
                todo += list(x)

        def req(t):
            return not getattr(t, "det", False) and (t.root.grad is not None or t.is_param and t.req_grad or getattr(t, "of_param", False)
                                                     or t.root.owner is not None and t.root.owner[0] == "param" and t.root.val.dt.kind in "fc")
        if not any(req(t) for t in ts):
            return
        op = op.split(".")[-1]
        outs = [x for x in (res if isinstance(res, (list, tuple)) else [res]) if isinstance(x, TensorObj) and not getattr(x, "det", False)]
        inplace = op.startswith("in-place") or op.endswith("_")
        saves = []
        base = op.replace("in-place ", "").rstrip("_")
        save = lambda t: saves.append((t.root, t.root.version))
        fl = [t for t in ts if t.get().dt.kind in "fc"]
        if base in ("mul", "multiply") and len(fl) == 2:
            for a, b in ((fl[0], fl[1]), (fl[1], fl[0])):
                if req(b) and not (inplace and a is fl[0]):
                    save(a)
        elif base in ("truediv", "div", "divide") and len(fl) == 2 and isinstance(args[0], TensorObj):
            if req(fl[0]) or req(fl[1]):
                save(fl[1])
            if req(fl[1]) and not inplace:
                save(fl[0])
        elif base in ("matmul", "bmm", "mm", "mv", "dot") and len(fl) == 2:
            a, b = fl[0].get(), fl[1].get()
            if a.ndim == b.ndim and a.ndim <= 3 and (a.ndim < 3 or T_dim_eq(a.shape[0], b.shape[0])):
                if req(fl[1]):
                    save(fl[0])
                if req(fl[0]):
                    save(fl[1])
        elif base in ("abs", "log", "cos", "sin", "pow", "square", "norm", "log2", "log10") and fl and not inplace:
            if isinstance(args[0], TensorObj) and req(fl[0]) or base != "pow":
                save(fl[0])
        elif base in ("exp", "sqrt", "sigmoid", "tanh"):
            for t in outs:
                save(t)
        parents = [t.root.grad for t in ts if t.root.grad is not None and not getattr(t, "det", False)]
        roots = {id(t.root) for t in ts}
        for o in outs:
            if not inplace and id(o.root) in roots:
                continue            # a view
            o.root.grad = GradNode(op, parents, saves, self.where())

    def stale(self, t):
        """An operation in the history of t one of whose saved tensors was overwritten."""
        seen, todo = set(), [t.root.grad]
        while todo:
            n = todo.pop()
            if n is None or id(n) in seen:
                continue
            seen.add(id(n))
            for root, version in n.saves:
                if root.version != version:
                    return n
            todo += n.parents
        return None

    def binop(self, op, a, b):
        name, s = BINOPS[type(op)]
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise TooHard("operator on an unknown value")
        # classes of the repository
        if isinstance(a, Instance) or isinstance(b, Instance):
            return self.inst_binop(name, s, a, b)
        if isinstance(a, TensorObj) or isinstance(b, TensorObj):
            if isinstance(a, self.lib.NpArr) or isinstance(b, self.lib.NpArr):
                raise TooHard("mixing numpy and torch")
            for x in (a, b):
                if not isinstance(x, TensorObj) and not self.lib.is_scalar(x):
                    self.raise_(TypeError, f"unsupported operand type(s) for {s}")
            r = self.lib.binary(name, a, b)
            self.record(name, [a, b], r)
            return r
        if isinstance(a, self.lib.NpArr) or isinstance(b, self.lib.NpArr):
            return self.lib.np_binary(name, a, b)
        return self.py_binop(name, s, a, b)

    def inst_binop(self, name, s, a, b):
        la, lb = f"__{name}__", f"__r{name}__"
        fa = self.find_method(a, la) if isinstance(a, Instance) else None
        fb = self.find_method(b, lb) if isinstance(b, Instance) else None
        order = [(fa, b), (fb, a)]
        if isinstance(a, Instance) and isinstance(b, Instance):
            if a.cls is b.cls:
                order = [(fa, b)]      # Python does not try the reflected method
            elif b.cls.issub(a.cls) and fb is not None:
                ra = self.find_method(a, lb)
                if ra is None or ra.func is not fb.func:
                    order = [(fb, a), (fa, b)]
        if isinstance(a, TensorObj):
            # tensor.__op__(instance): not a tensor-like -> NotImplemented
            order = [(fb, a)]
        for f, o in order:
            if f is None:
                continue
            r = self.call(f, [o], {})
            if r is not NotImplemented:
                return r
        self.raise_(TypeError, f"unsupported operand type(s) for {s}: {self.tname(a)} and {self.tname(b)}")

    def tname(self, x):
        return x.cls.name if isinstance(x, Instance) else type(x).__name__

    def isnum(self, x):
        return isinstance(x, (int, Fraction, float, Poly, SNum, bool))

    def py_binop(self, name, s, a, b):
        if isinstance(a, bool):
            a = int(a) if not (isinstance(b, bool) and name in ("and", "or", "xor")) else a
        if isinstance(b, bool):
            b = int(b) if not (isinstance(a, bool) and name in ("and", "or", "xor")) else b
        if self.isnum(a) and self.isnum(b):
            return self.arith(name, a, b)
        try:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and name == "add":
                if isinstance(a, list) != isinstance(b, list):
                    self.raise_(TypeError, "can only concatenate like sequences")
                r = list(a) + list(b)
                return r if isinstance(a, list) else (Size(r) if isinstance(a, Size) else tuple(r))
            if isinstance(a, (list, tuple, str)) and isinstance(b, int) and name == "mul":
                r = a * b if isinstance(a, str) else type(a)(list(a) * b) if not isinstance(a, LObj) else list(a) * b
                return r
            if isinstance(b, (list, tuple, str)) and isinstance(a, int) and name == "mul":
                return self.py_binop(name, s, b, a)
            if isinstance(a, (list, tuple)) and isinstance(b, Poly) and name == "mul" or \
                    isinstance(b, (list, tuple)) and isinstance(a, Poly) and name == "mul":
                raise TooHard("sequence repeated a symbolic number of times")
            if isinstance(a, str) and isinstance(b, str) and name == "add":
                return a + b
            if isinstance(a, str) and name == "mod":
                return self.lib.percent(a, b)
            if isinstance(a, Keys) and isinstance(b, (set, frozenset, list)) or isinstance(b, Keys) and isinstance(a, (set, frozenset)):
                return {"and": operator.and_, "or": operator.or_, "sub": operator.sub, "xor": operator.xor}[name](set(a), set(b))
            if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) or isinstance(a, dict) and isinstance(b, dict):
                return {"and": operator.and_, "or": operator.or_, "sub": operator.sub, "xor": operator.xor}[name](a, b)
        except (KeyError, ValueError) as e:
            raise TooHard(str(e))
        if isinstance(a, (Opaque, TypeTok, type)) or isinstance(b, (Opaque, TypeTok, type)):
            return Opaque("type")
        known = (int, Fraction, float, str, list, tuple, dict, set, type(None), Poly, SNum)
        if isinstance(a, known) and isinstance(b, known):
            self.raise_(TypeError, f"unsupported operand type(s) for {s}: {type(a).__name__} and {type(b).__name__}")
        raise TooHard(f"operator {s} on {a!r}, {b!r}")

    def arith(self, name, a, b):
        if isinstance(a, float) and abs(a) != float("inf") and a == a:
            a = Fraction(repr(a))
        if isinstance(b, float) and abs(b) != float("inf") and b == b:
            b = Fraction(repr(b))
        if isinstance(a, SNum) or isinstance(b, SNum):
            ea = a.e if isinstance(a, SNum) else X.E(a)
            eb = b.e if isinstance(b, SNum) else X.E(b)
            if name == "add":
                return snum(ea + eb)
            if name == "sub":
                return snum(ea - eb)
            if name == "mul":
                return snum(X.mul(ea, eb))
            if name == "truediv":
                return snum(X.mul(ea, X.inv(eb)))
            if name == "pow" and eb.is_const:
                return snum(X.powr(ea, eb.value))
            raise TooHard(f"arithmetic {name} on symbolic floats")
        if isinstance(a, Poly) or isinstance(b, Poly):
            if isinstance(a, float) or isinstance(b, float):
                raise TooHard("inf")
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                return self.arith(name, SNum(X.E(a)), SNum(X.E(b)))
            if name == "add":
                return norm(P(a) + P(b))
            if name == "sub":
                return norm(P(a) - P(b))
            if name == "mul":
                return norm(P(a) * P(b))
            if name == "truediv":
                return snum(X.mul(X.E(P(a)), X.inv(X.E(P(b)))))
            if name == "floordiv":
                q = T.pdiv(a, b)
                if q is not None:
                    return q
                q = floordiv(P(a), b)
                if q is None:
                    raise TooHard("floor division of sizes")
                return norm(q)
            if name == "mod":
                if T.pdiv(a, b) is not None:
                    return 0
                q = mod(P(a), b)
                if q is None:
                    raise TooHard("modulus of sizes")
                return norm(q)
            if name == "pow" and isinstance(b, int):
                if b >= 0:
                    return norm(P(a) ** b)
                return snum(X.powr(X.E(P(a)), b))
            raise TooHard(f"arithmetic {name} on sizes")
        try:
            if name == "truediv":
                if isinstance(a, float) or isinstance(b, float):
                    return a / b
                return Fraction(a) / Fraction(b)
            if name == "pow":
                if isinstance(a, Fraction) or isinstance(b, Fraction) or (isinstance(b, int) and b < 0):
                    if isinstance(b, Fraction) and b.denominator != 1:
                        return snum(X.powr(X.E(a), b))
                    return Fraction(a) ** int(b)
                return a ** b
            r = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "floordiv": operator.floordiv,
                 "mod": operator.mod, "and": operator.and_, "or": operator.or_, "xor": operator.xor,
                 "lshift": operator.lshift, "rshift": operator.rshift}[name](a, b)
            if name in ("floordiv", "mod") and (isinstance(a, Fraction) or isinstance(b, Fraction)):
                r = Fraction(r)
            return r
        except ZeroDivisionError as e:
            self.raise_(ZeroDivisionError, str(e))
        except TypeError as e:
            self.raise_(TypeError, str(e))
        except KeyError:
            raise TooHard(f"operator {name}")

    def minmax_compare(self, n, env, mod):
        """min(a, b, ...) > k and max(a, b, ...) < k are conjunctions."""
        c, op = n.left, n.ops[0]
        if not (len(n.ops) == 1 and isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and not c.keywords
                and c.func.id in ("min", "max") and len(c.args) > 1
                and not any(isinstance(x, ast.Starred) for x in c.args)):
            return None
        if not isinstance(op, (ast.Gt, ast.GtE) if c.func.id == "min" else (ast.Lt, ast.LtE)):
            return None
        f = self.eval(c.func, env, mod)
        if f is not self.builtins.get(c.func.id):
            return None
        vs = [self.eval(x, env, mod) for x in c.args]
        b = self.eval(n.comparators[0], env, mod)
        self.node = n
        if not all(isinstance(v, (int, Poly)) for v in vs + [b]):
            return self.compare(op, self.call(f, vs, {}), b)
        rs = [self.compare(op, v, b) for v in vs]
        if any(r is False for r in rs):
            return False
        rs = [r for r in rs if r is not True]
        if not rs:
            return True
        if len(rs) == 1:
            return rs[0]
        return all([self.truth(r, n) for r in rs])

    def e_Compare(self, n, env, mod):
        r = self.minmax_compare(n, env, mod)
        if r is not None:
            return r
        a = self.eval(n.left, env, mod)
        res = True
        for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            b = self.eval(rn, env, mod)
            self.node = n
            res = self.compare(op, a, b)
            if k < len(n.ops) - 1:
                if not self.truth(res, n):
                    return False
            a = b
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(r, Undec):
                return Undec(r.key, r.why, r.neg ^ isinstance(op, ast.NotIn))
            return r if isinstance(op, ast.In) else not r
        return self.cmp(CMPOPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise TooHard("identity of an unknown value")
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return False
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b and type(a) is type(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            self.raise_(TypeError, "'in <string>' requires string")
        if isinstance(c, (set, frozenset)):
            try:
                return x in c
            except TypeError:
                self.raise_(TypeError, "unhashable")
        if isinstance(c, dict):
            return x in c
        if isinstance(c, (list, tuple, range)) or True:
            if isinstance(c, Instance):
                f = self.find_method(c, "__contains__")
                if f is not None:
                    return self.call(f, [x], {})
            if isinstance(c, range) and isinstance(x, int):
                return x in c
            if isinstance(c, self.lib.ModDict):
                return x in c.d
            for y in self.iterate(c):
                if x is y:
                    return True
                r = self.truth3(self.cmp("eq", x, y))
                if r is None:
                    return self.undec_of(self.cmp("eq", x, y))
                if r:
                    return True
            return False

    def cmp(self, op, a, b):
        if isinstance(a, TensorObj) or isinstance(b, TensorObj):
            if op in ("eq", "ne") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
                return op == "ne"
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                return op == "ne" if op in ("eq", "ne") else self.raise_(TypeError, "comparison")
            return self.lib.compare(op, a, b)
        if isinstance(a, self.lib.NpArr) or isinstance(b, self.lib.NpArr):
            raise TooHard("numpy comparison")
        if isinstance(a, Instance) or isinstance(b, Instance):
            nm = {"eq": "__eq__", "ne": "__ne__", "lt": "__lt__", "le": "__le__", "gt": "__gt__", "ge": "__ge__"}
            for x, y, o in ((a, b, op), (b, a, REFL[op])):
                if isinstance(x, Instance):
                    f = self.find_method(x, nm[o])
                    if f is not None:
                        r = self.call(f, [y], {})
                        if r is not NotImplemented:
                            return r
            if op in ("eq", "ne"):
                return (a is b) == (op == "eq")
            self.raise_(TypeError, "comparison not supported")
        if self.isnum(a) and self.isnum(b):
            return self.num_cmp(op, a, b)
        if op in ("eq", "ne"):
            r = self.eq(a, b)
            if r is None:
                raise TooHard("undetermined equality")
            return r if op == "eq" else not r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if self.truth(self.cmp("eq", x, y)):
                    continue
                return self.cmp(op, x, y)
            return self.num_cmp(op, len(a), len(b))
        if isinstance(a, str) and isinstance(b, str):
            return getattr(operator, op)(a, b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return getattr(operator, op)(a, b)
        self.raise_(TypeError, f"'{op}' not supported between {type(a).__name__} and {type(b).__name__}")

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Keys) or isinstance(b, Keys):
            return isinstance(a, (Keys, set, frozenset)) and isinstance(b, (Keys, set, frozenset)) and set(a) == set(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                r = self.truth3(self.cmp("eq", x, y))
                if r is None:
                    r = self.truth(self.cmp("eq", x, y))
                if not r:
                    return False
            return True
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.func is b.func and a.self is b.self
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return None
        try:
            return bool(a == b)
        except Exception:
            return None

    def num_cmp(self, op, a, b):
        """Numbers: bool or Undec.  Distinct symbolic sizes are different ("generic sizes")."""
        if isinstance(a, SNum) or isinstance(b, SNum):
            ea = a.e if isinstance(a, SNum) else X.E(a)
            eb = b.e if isinstance(b, SNum) else X.E(b)
            if ea == eb:
                return op in ("eq", "le", "ge")
            d = ea - eb
            if d.is_const:
                return getattr(operator, op)(d.value, 0)
            if op == "eq" or op == "ne":
                return op == "ne"
            return Undec(("cmp", op, ea, eb), f"{op}")
        if isinstance(a, Poly) or isinstance(b, Poly):
            if isinstance(a, float) or isinstance(b, float):      # inf
                return {"lt": b == float("inf"), "le": b == float("inf"), "gt": a == float("inf"),
                        "ge": a == float("inf"), "eq": False, "ne": True}[op]
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                k = P(a) - P(b)
                lo = poly.lower(k)
                hi = poly.lower(-k)
                if lo is not None and lo > 0:
                    return op in ("gt", "ge", "ne")
                if hi is not None and hi > 0:
                    return op in ("lt", "le", "ne")
                return Undec(("cmp", op, repr(a), repr(b)), op)
            a, b = P(a), P(b)
            if op in ("eq", "ne"):
                r = cmp_eq(a, b)
                if r is None:
                    r = False
                return r if op == "eq" else not r
            r = {"lt": lambda: cmp_lt(a, b), "le": lambda: cmp_le(a, b), "gt": lambda: cmp_lt(b, a),
                 "ge": lambda: cmp_le(b, a)}[op]()
            if r is not None:
                return r
            # one canonical question per pair
            if op in ("gt", "le"):
                return Undec(("plt", repr(b), repr(a)), f"{b} < {a}", neg=(op == "le"), polys=(b, a))
            return Undec(("plt", repr(a), repr(b)), f"{a} < {b}", neg=(op == "ge"), polys=(a, b))
        if isinstance(a, float) or isinstance(b, float):
            return getattr(operator, op)(float(a), float(b))
        return getattr(operator, op)(a, b)

    # -- truth ------------------------------------------------------------
    def truth3(self, v):
        """True / False / None."""
        if isinstance(v, Unknown):
            raise TooHard(v.name)
        if isinstance(v, deque):
            return len(v) > 0
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Undec):
            for k, _, a in self.decisions:
                if k == v.key:
                    return a ^ v.neg
            return None
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, (str, list, tuple, dict, set, frozenset, range)):
            return len(v) > 0
        if isinstance(v, Poly):
            r = cmp_eq(v, 0)
            return True if r is None and poly.lower(v) is not None and poly.lower(v) > 0 else (None if r is None else not r)
        if isinstance(v, SNum):
            return True
        if isinstance(v, TensorObj):
            return self.lib.truth3(v)
        if isinstance(v, Instance):
            f = self.find_method(v, "__bool__")
            if f is not None:
                return self.truth3(self.call(f, [], {}))
            f = self.find_method(v, "__len__")
            if f is not None:
                return self.truth3(self.call(f, [], {}))
            if v.native is not None and v.native[0] == "list":
                return len(v.modules) > 0
            return True
        if isinstance(v, self.lib.NpArr):
            raise TooHard("truth of array")
        return True

    def undec_of(self, v):
        if isinstance(v, Undec):
            return v
        if isinstance(v, TensorObj):
            return Undec(self.lib.truth_key(v), "tensor truth value")
        if isinstance(v, Poly):
            return Undec(("nz", repr(v)), f"{v} != 0")
        return Undec(("?", repr(v)), "")

    def truth(self, v, node=None):
        r = self.truth3(v)
        if r is not None:
            return r
        u = self.undec_of(v)
        new = all(k != u.key for k, _, _ in self.decisions)
        r = self.decide(u.key, u.why)
        if new and u.polys is not None:
            a, b = u.polys
            poly.FACTS.append(P(b) - P(a) - 1 if r else P(a) - P(b))
        return r ^ u.neg

    # -- comprehension ------------------------------------------------------
    def comp_iter(self, gens, env, mod, k=0):
        if k == len(gens):
            yield None
            return
        g = gens[k]
        for x in self.iterate(self.eval(g.iter, env, mod)):
            self.assign(g.target, x, env, mod)
            if all(self.truth(self.eval(c, env, mod), c) for c in g.ifs):
                yield from self.comp_iter(gens, env, mod, k + 1)

    def comp_env(self, env):
        e = Env(env, env.frame)
        return e

    def e_ListComp(self, n, env, mod):
        e = self.comp_env(env)
        return [self.eval(n.elt, e, mod) for _ in self.comp_iter(n.generators, e, mod)]

    def e_SetComp(self, n, env, mod):
        e = self.comp_env(env)
        return {self.eval(n.elt, e, mod) for _ in self.comp_iter(n.generators, e, mod)}

    def e_DictComp(self, n, env, mod):
        e = self.comp_env(env)
        return {self.eval(n.key, e, mod): self.eval(n.value, e, mod) for _ in self.comp_iter(n.generators, e, mod)}

    def e_GeneratorExp(self, n, env, mod):
        e = self.comp_env(env)

        def gen():
            for _ in self.comp_iter(n.generators, e, mod):
                yield self.eval(n.elt, e, mod)
        return gen()

    def e_Lambda(self, n, env, mod):
        return self.make_func(n, env, mod)

    def e_Starred(self, n, env, mod):
        raise TooHard("starred")

    def emit(self, env, v):
        while env.frame is None:
            env = env.parent
        fr = env.frame
        if fr.on_yield is None:
            fr.yields.append(v)
            if len(fr.yields) > 5000:
                raise TooHard("endless generator")
            return
        sf, sn, top = self.file, self.node, self.stack.pop()
        if fr.outer_file is not None:
            self.file = fr.outer_file
        try:
            fr.on_yield(v)
        finally:
            self.stack.append(top)
            self.file, self.node = sf, sn

    def e_Yield(self, n, env, mod):
        self.emit(env, self.eval(n.value, env, mod) if n.value else None)
        return None

    def e_YieldFrom(self, n, env, mod):
        v = self.eval(n.value, env, mod)
        if isinstance(v, GenV) and v.items is None:
            v.run(lambda x: self.emit(env, x))
            return v.ret
        for x in self.iterate(v):
            self.emit(env, x)
        return v.ret if isinstance(v, GenV) else None

    def e_JoinedStr(self, n, env, mod):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, env, mod)
                spec = ""
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env, mod)
                if isinstance(x, str) and v.conversion in (-1, 115):
                    out.append(format(x, spec) if spec else x)
                elif isinstance(x, int) and spec:
                    out.append(format(x, spec))
                elif isinstance(x, (int, bool, type(None))):
                    out.append(str(x))
                else:
                    out.append(self.lib.to_str(x))
        return "".join(out)

    def e_FormattedValue(self, n, env, mod):
        return self.e_JoinedStr(ast.JoinedStr([n]), env, mod)

    def e_Attribute(self, n, env, mod):
        v = self.eval(n.value, env, mod)
        self.node = n
        return self.getattr(v, n.attr)

    def e_Subscript(self, n, env, mod):
        v = self.eval(n.value, env, mod)
        idx = self.eval_index(n.slice, env, mod)
        self.node = n
        return self.getitem(v, idx)

    def eval_index(self, s, env, mod):
        if isinstance(s, ast.Tuple):
            out = []
            for e in s.elts:
                if isinstance(e, ast.Starred):
                    out += list(self.iterate(self.eval(e.value, env, mod)))
                else:
                    out.append(self.eval(e, env, mod))
            return tuple(out)
        return self.eval(s, env, mod)

    def e_Slice(self, n, env, mod):
        g = lambda x: None if x is None else self.as_index(self.eval(x, env, mod))
        return slice(g(n.lower), g(n.upper), g(n.step))

    def as_index(self, x):
        if isinstance(x, TensorObj):
            return self.lib.item_int(x)
        if isinstance(x, (Fraction, SNum, float)):
            self.raise_(TypeError, "slice indices must be integers")
        return x

    # -- attributes -----------------------------------------------------------
    def find_method(self, obj, name):
        """Bound special method of an instance (class lookup only)."""
        if not isinstance(obj, Instance):
            return None
        v, c = obj.cls.lookup(name)
        if v is None:
            return None
        return self.bind_attr(v, obj, c)

    def bind_attr(self, v, obj, cls):
        if isinstance(v, (FuncV,)):
            return BoundV(v, obj)
        if isinstance(v, Native):
            return BoundV(v, obj)
        if isinstance(v, PropV):
            return self.call(v.fget, [obj], {})
        if isinstance(v, StaticV):
            return v.func if v.kind == "static" else BoundV(v.func, obj.cls if isinstance(obj, Instance) else obj)
        return v

    def getattr(self, obj, name, default=MISSING):
        r = self._getattr(obj, name)
        if r is MISSING:
            if self.real_attr(obj, name):
                raise TooHard(f"attribute {name} of {self.tname(obj)}")
            if default is not MISSING:
                return default
            if isinstance(obj, NativeMod):
                raise TooHard(f"{obj.name}.{name}")
            self.raise_(AttributeError, f"{self.tname(obj)} object has no attribute {name!r}")
        return r

    def real_attr(self, obj, name):
        """Does the real counterpart of obj have this attribute?"""
        cls = obj.obj if isinstance(obj, SuperV) else obj
        cls = cls.cls if isinstance(cls, Instance) else cls
        if isinstance(cls, ClassV):
            if cls.issub(self.lib.Module) and name in (A.MODULE if all(c.name in ("Module",) or c.module for c in cls.mro()) else A.MODULE | A.MODLIST):
                return True
            return name in A.OBJ or isinstance(obj, ClassV) and name in A.TYPE
        if isinstance(obj, TensorObj):
            return name in A.TENSOR
        if isinstance(obj, T.DType):
            return name in A.DTYPE
        if isinstance(obj, (FuncV, Native, PartialV, BoundV)):
            return name in A.FUNC
        if isinstance(obj, (LObj, list)):
            return hasattr(list, name)
        if isinstance(obj, (int, float, Fraction, complex, str, tuple, dict, set, slice, range)):
            return hasattr(float if isinstance(obj, Fraction) else obj, name)
        return False

    def _getattr(self, obj, name):
        if isinstance(obj, Instance):
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                return obj.attrs
            v, c = obj.cls.lookup(name)
            if isinstance(v, PropV):
                if v.cached:
                    if name not in obj.attrs:
                        obj.attrs[name] = self.bind_attr(v, obj, c)
                    return obj.attrs[name]
                return self.bind_attr(v, obj, c)
            if name in obj.attrs:
                return obj.attrs[name]
            for d in (obj.params, obj.buffers, obj.modules):
                if d is not None and name in d:
                    return d[name]
            if name in ("_parameters", "_buffers", "_modules") and obj.params is not None:
                return {"_parameters": obj.params, "_buffers": obj.buffers, "_modules": obj.modules}[name]
            if v is not None or (c is not None):
                return self.bind_attr(v, obj, c)
            ga, gc = obj.cls.lookup("__getattr__")
            if isinstance(ga, FuncV):
                return self.call(BoundV(ga, obj), [name], {})
            return MISSING
        if isinstance(obj, TensorObj):
            return self.lib.tensor_attr(obj, name)
        if isinstance(obj, ModuleV):
            if name in obj.vars:
                return obj.vars[name]
            sub = os.path.join(self.repo, *obj.name.split("."), name)
            if os.path.exists(sub + ".py"):
                return self.module(obj.name + "." + name)
            return MISSING
        if isinstance(obj, NativeMod):
            return obj.table.get(name, MISSING)
        if isinstance(obj, ClassV):
            if name == "__name__":
                return obj.name
            v, c = obj.lookup(name)
            if c is None:
                return MISSING
            if isinstance(v, StaticV):
                return v.func if v.kind == "static" else BoundV(v.func, obj)
            return v
        if isinstance(obj, SuperV):
            mro = obj.obj.cls.mro() if isinstance(obj.obj, Instance) else obj.obj.mro()
            k = mro.index(obj.cls)
            for c in mro[k + 1:]:
                if name in c.attrs:
                    return self.bind_attr(c.attrs[name], obj.obj, c)
            if name == "__init__":
                return Native("object.__init__", lambda *a, **k: None)
            return MISSING
        if isinstance(obj, T.DType):
            if name == "is_floating_point":
                return obj.is_floating_point
            if name == "is_complex":
                return obj.is_complex
            return MISSING
        if isinstance(obj, AbsRaise):
            if name == "args":
                return obj.args_()
            if obj.inst is not None:
                return self._getattr(obj.inst, name)
            return MISSING
        if isinstance(obj, FuncV):
            if name == "__name__":
                return obj.node.name if hasattr(obj.node, "name") else "<lambda>"
            if name == "__call__":
                return obj
            return obj.attrs.get(name, MISSING)
        if isinstance(obj, (Native, PartialV, BoundV)):
            if name == "__call__":
                return obj
            if isinstance(obj, BoundV) and name == "__self__":
                return obj.self
            if isinstance(obj, BoundV) and name == "__func__":
                return obj.func
            return MISSING
        if isinstance(obj, PropV):
            if name == "setter":
                return Native("setter", lambda f: PropV(obj.fget, f))
            return MISSING
        if isinstance(obj, type) and issubclass(obj, tuple) and hasattr(obj, "_fields"):
            return self.lib.tuple_type_attr(obj, name)
        if isinstance(obj, tuple) and hasattr(obj, "_fields"):
            return self.lib.tuple_attr(obj, name)
        if isinstance(obj, NamedTup) and name in obj.fields:
            return obj[obj.fields.index(name)]
        return self.lib.py_attr(obj, name)

    def setattr(self, obj, name, v):
        if isinstance(obj, Instance):
            p, c = obj.cls.lookup(name)
            if isinstance(p, PropV) and not p.cached:
                if p.fset is None:
                    self.raise_(AttributeError, f"can't set attribute {name!r}")
                self.call(p.fset, [obj, v], {})
                return
            sa, sc = obj.cls.lookup("__setattr__")
            if isinstance(sa, FuncV):
                self.call(BoundV(sa, obj), [name, v], {})
                return
            self.set_plain(obj, name, v)
        elif isinstance(obj, ClassV):
            obj.attrs[name] = v
            self.event("global", f"assigns class attribute {obj.name}.{name}", (obj.name, name))
        elif isinstance(obj, ModuleV):
            obj.vars[name] = v
            self.event("global", f"assigns module variable {obj.name}.{name}", (obj.name, name))
        elif isinstance(obj, TensorObj):
            self.lib.tensor_setattr(obj, name, v)
        elif isinstance(obj, FuncV):
            obj.attrs[name] = v
            self.event("global", f"assigns function attribute {name}", (obj.qual, name))
        else:
            raise TooHard(f"attribute assignment on {obj!r}")

    def is_module(self, x):
        return isinstance(x, Instance) and x.cls.issub(self.lib.Module)

    def set_plain(self, obj, name, v):
        if self.is_module(obj):
            isp = isinstance(v, TensorObj) and v.is_param
            if isp:
                if obj.params is None:
                    self.raise_(AttributeError, "cannot assign parameters before Module.__init__() call")
                for d in (obj.attrs, obj.buffers, obj.modules):
                    d.pop(name, None)
                obj.params[name] = v
                return
            if obj.params is not None and name in obj.params:
                if v is not None:
                    self.raise_(TypeError, f"cannot assign as parameter '{name}' (torch.nn.Parameter or None expected)")
                obj.params[name] = None
                return
            if self.is_module(v):
                if obj.modules is None:
                    self.raise_(AttributeError, "cannot assign module before Module.__init__() call")
                for d in (obj.attrs, obj.buffers):
                    d.pop(name, None)
                obj.modules[name] = v
                return
            if obj.modules is not None and name in obj.modules:
                if v is not None:
                    self.raise_(TypeError, f"cannot assign as child module '{name}'")
                obj.modules[name] = None
                return
            if obj.buffers is not None and name in obj.buffers:
                if v is not None and not isinstance(v, TensorObj):
                    self.raise_(TypeError, f"cannot assign as buffer '{name}'")
                obj.buffers[name] = v
                return
        obj.attrs[name] = v

    # -- items ----------------------------------------------------------------
    def getitem(self, obj, idx):
        if isinstance(obj, Unknown):
            raise TooHard(obj.name)
        if isinstance(obj, deque):
            if not isinstance(idx, int):
                raise TooHard("index into a deque")
            try:
                return obj[idx]
            except IndexError as e:
                self.raise_(IndexError, str(e))
        if isinstance(obj, DefDict):
            try:
                if idx not in obj and obj.factory is not None:
                    v = self.call(obj.factory, [], {})
                    if not getattr(obj, "counter", False):
                        obj[idx] = v
                    return v
            except TypeError as e:
                self.raise_(TypeError, str(e))
        if isinstance(obj, ClassV) and obj.enum is not None:
            return obj.enum[idx] if idx in obj.enum else self.raise_(KeyError, str(idx))
        if isinstance(obj, TensorObj):
            return self.lib.t_getitem(obj, idx)
        if isinstance(obj, self.lib.NpArr):
            return self.lib.np_getitem(obj, idx)
        if isinstance(obj, (list, tuple, str, range)):
            if isinstance(idx, TensorObj):
                idx = self.lib.item_int(idx)
            if isinstance(idx, slice):
                for x in (idx.start, idx.stop, idx.step):
                    if isinstance(x, Poly):
                        raise TooHard("symbolic slice of a sequence")
                    if not (x is None or isinstance(x, int)):
                        self.raise_(TypeError, "slice indices must be integers")
                try:
                    r = obj[idx]
                except ValueError as e:
                    self.raise_(ValueError, str(e))
                if isinstance(obj, Size):
                    return Size(r)
                if isinstance(obj, LObj):
                    return list(r)
                return r
            if isinstance(idx, Poly):
                raise TooHard("symbolic index into a sequence")
            if not isinstance(idx, int):
                self.raise_(TypeError, "indices must be integers or slices")
            try:
                return obj[idx]
            except IndexError as e:
                self.raise_(IndexError, str(e))
        if isinstance(obj, dict):
            try:
                if idx not in obj:
                    self.raise_(KeyError, str(idx))
            except TypeError as e:
                self.raise_(TypeError, str(e))
            return obj[idx]
        if isinstance(obj, Instance):
            f = self.find_method(obj, "__getitem__")
            if f is not None:
                return self.call(f, [idx], {})
            self.raise_(TypeError, f"{obj.cls.name} object is not subscriptable")
        if isinstance(obj, (Opaque, TypeTok, ClassV, type)):
            return Opaque("generic")
        if isinstance(obj, self.lib.ModDict):
            return self.getitem(obj.d, idx)
        raise TooHard(f"subscript of {obj!r}")

    def list_mut(self, lst):
        if getattr(lst, "owner", None) is not None:
            self.event("mutate", f"modifies the caller's list {lst.owner}", lst.owner)

    def setitem(self, obj, idx, v):
        if isinstance(obj, TensorObj):
            self.lib.t_setitem(obj, idx, v)
            return self.record("in-place setitem", [obj, v], obj)
        if isinstance(obj, self.lib.NpArr):
            return self.lib.np_setitem(obj, idx, v)
        if isinstance(obj, list):
            self.list_mut(obj)
            if isinstance(idx, TensorObj):
                idx = self.lib.item_int(idx)
            try:
                if isinstance(idx, slice):
                    obj[idx] = list(self.iterate(v))
                else:
                    obj[idx] = v
            except IndexError as e:
                self.raise_(IndexError, str(e))
            except TypeError as e:
                raise TooHard(str(e))
            return
        if isinstance(obj, dict):
            obj[idx] = v
            return
        if isinstance(obj, deque) and isinstance(idx, int):
            try:
                obj[idx] = v
            except IndexError as e:
                self.raise_(IndexError, str(e))
            return
        if isinstance(obj, (tuple, str)):
            self.raise_(TypeError, "object does not support item assignment")
        if isinstance(obj, Instance):
            f = self.find_method(obj, "__setitem__")
            if f is not None:
                return self.call(f, [idx, v], {})
        raise TooHard(f"item assignment on {obj!r}")

    def iterate(self, x):
        if isinstance(x, Unknown):
            raise TooHard(x.name)
        if isinstance(x, ClassV) and x.enum is not None:
            return iter(list(x.enum.values()))
        if isinstance(x, (list, tuple, str, range, dict, set, frozenset, deque)):
            if isinstance(x, (set, frozenset)):
                return iter(sorted(x, key=repr))
            return iter(x)
        if isinstance(x, TensorObj):
            return self.lib.t_iter(x)
        if isinstance(x, Instance):
            f = self.find_method(x, "__iter__")
            if f is not None:
                r = self.call(f, [], {})
                if isinstance(r, Instance) and self.find_method(r, "__next__") is not None:
                    return self._next_iter(r)
                return self.iterate(r)
            f = self.find_method(x, "__getitem__")
            if f is not None:
                return self._seq_iter(f)
            self.raise_(TypeError, f"{x.cls.name} object is not iterable")
        if isinstance(x, self.lib.NpArr):
            return self.lib.np_iter(x)
        if hasattr(x, "__next__"):
            return x
        if x is None or isinstance(x, (int, Fraction, Poly, SNum, bool)):
            if isinstance(x, Poly):
                raise TooHard("iteration over a symbolic range")
            self.raise_(TypeError, f"{type(x).__name__} object is not iterable")
        if hasattr(x, "items") and hasattr(x, "__iter__"):
            return iter(x)
        if type(x).__name__ in ("dict_keys", "dict_values", "dict_items"):
            return iter(list(x))
        raise TooHard(f"iteration over {x!r}")

    def _next_iter(self, x):
        k = 0
        while True:
            try:
                v = self.call(self.find_method(x, "__next__"), [], {})
            except AbsRaise as ex:
                if ex.cls is StopIteration:
                    return
                raise
            yield v
            k += 1
            if k > 2000:
                raise TooHard("endless iteration")

    def _seq_iter(self, f):
        k = 0
        while True:
            try:
                yield self.call(f, [k], {})
            except AbsRaise as ex:
                if ex.cls is IndexError:
                    return
                raise
            k += 1
            if k > 2000:
                raise TooHard("endless iteration")

    # -- calls ----------------------------------------------------------------
    def e_Call(self, n, env, mod):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = env.frame
            e = env
            while fr is not None and fr.slf is None and e.parent is not None:
                e = e.parent
                fr = e.frame
            if fr is None or fr.cls is None:
                raise TooHard("super() outside a method")
            return SuperV(fr.cls, fr.slf)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and len(n.args) == 2:
            return SuperV(*[self.eval(a, env, mod) for a in n.args])
        f = self.eval(n.func, env, mod)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.eval(a.value, env, mod)))
            else:
                args.append(self.eval(a, env, mod))
        for k in n.keywords:
            v = self.eval(k.value, env, mod)
            if k.arg is None:
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        self.node = n
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, BoundV):
            if isinstance(f.func, (FuncV, Native)):
                return self.call(f.func, [f.self] + list(args), kwargs)
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            try:
                r = f.fn(*args, **kwargs)
                if isinstance(r, (TensorObj, tuple, list)):
                    self.record(f.name, ([f.t] if f.t is not None else []) + list(args) + list(kwargs.values()), r)
                return r
            except TorchError as ex:
                raise AbsRaise(getattr(__import__("builtins"), ex.cls), (str(ex),), self.where())
            except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError) as ex:
                if DEBUG:
                    raise
                raise TooHard(f"model of {f.name}: {type(ex).__name__}: {ex}")
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, Instance):
            m = self.find_method(f, "__call__")
            if m is None:
                self.raise_(TypeError, f"{f.cls.name} object is not callable")
            return self.call(m, args, kwargs)
        if isinstance(f, TypeTok):
            if f.ctor is None:
                raise TooHard(f"call of {f.name}")
            return self.call(Native(f.name, f.ctor), args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcObj(f, tuple(args))
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            return self.lib.make_tuple(f, args, kwargs)
        if isinstance(f, CtxV):     # used as a decorator
            self.grad = getattr(f, "prev", self.grad)
            g = args[0]
            kind = f

            def wrapped(*a, **k):
                c = CtxV(kind.kind, kind.val)
                self.ctx_enter(c)
                try:
                    return self.call(g, list(a), k)
                finally:
                    self.ctx_exit(c)
            if isinstance(g, FuncV):
                nf = Native(g.qual, wrapped)
                return nf
            raise TooHard("decorated object")
        if isinstance(f, Opaque):
            raise TooHard(f"call of {f.name}")
        self.lib.plain(f, "call")
        self.raise_(TypeError, f"{type(f).__name__} object is not callable")

    def instantiate(self, c, args, kwargs):
        nat, nc = c.lookup("__native_new__")
        if nat is not None and isinstance(nat, Native):
            return nat.fn(c, *args, **kwargs)
        if c.enum is not None:
            for m in c.enum.values():
                if self.truth(self.cmp("eq", m.attrs["value"], args[0])):
                    return m
            self.raise_(ValueError, f"not a valid {c.name}")
        for b in c.mro():
            if b.foreign is not None:
                raise TooHard(f"subclass of {b.foreign}")
        o = Instance(c)
        init, ic = c.lookup("__init__")
        if init is not None:
            self.call(self.bind_attr(init, o, ic), args, kwargs)
        elif c.host_exc():
            o.attrs["args"] = tuple(args)
        elif args or kwargs:
            self.raise_(TypeError, f"{c.name}() takes no arguments")
        return o

    def call_func(self, f, args, kwargs):
        self.calls += 1
        if len(self.stack) > 150:
            raise TooHard("recursion too deep")
        hook = self.hooks.get(f.qual)
        if hook is not None:
            r = hook(self, f, args, kwargs)
            if r is not None:
                args, kwargs = r
        a = f.node.args
        frame = Frame(f, f.cls, args[0] if (f.cls is not None and args) else None)
        env = Env(f.env, frame)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            self.raise_(TypeError, f"{f.qual}() takes {len(names)} positional arguments but {len(args)} were given")
        for nm, v in zip(names, args):
            vals[nm] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        for nm in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if nm in kw:
                vals[nm] = kw.pop(nm)
        for nm in names[:len(args)]:
            if nm in kw:
                self.raise_(TypeError, f"{f.qual}() got multiple values for argument {nm!r}")
        nd = len(f.defaults)
        for k, nm in enumerate(names):
            if nm not in vals:
                j = k - (len(names) - nd)
                if j >= 0:
                    vals[nm] = f.defaults[j]
                else:
                    self.raise_(TypeError, f"{f.qual}() missing required argument {nm!r}")
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_(TypeError, f"{f.qual}() missing keyword argument {x.arg!r}")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        elif kw:
            self.raise_(TypeError, f"{f.qual}() got an unexpected keyword argument {next(iter(kw))!r}")
        env.vars = vals
        self.funcs_seen.add(f"{f.file}:{f.qual}")
        if f.is_gen:
            return GenV(self, f, env, frame)
        return self.run_body(f, env, frame)

    def run_body(self, f, env, frame):
        sf, sn = self.file, self.node
        frame.outer_file = sf
        self.file = f.file
        self.stack.append(frame)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env, f.module)
            try:
                self.block(f.node.body, env, f.module)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.file, self.node = sf, sn


DEBUG = bool(os.environ.get("SA_DEBUG"))
_PARSED = {}


def parse(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _PARSED:
        with open(path) as fh:
            _PARSED[k] = ast.parse(fh.read(), path)
    return _PARSED[k]


# ---------------------------------------------------------------- path exploration
class PathResult:
    def __init__(self, value, raised, interp, undecided=None):
        self.value, self.raised, self.interp, self.undecided = value, raised, interp, undecided


def explore(repo, driver, max_paths=64):
    """Run driver(interp) for every combination of undetermined branches."""
    results = []
    todo = [{}]
    while todo:
        pre = todo.pop()
        poly.reset()
        X.reset()
        orc = dict(pre)
        it = Interp(repo, orc)
        it.new_keys = []
        val = raised = und = None
        try:
            val = driver(it)
        except AbsRaise as ex:
            raised = ex
        except TorchError as ex:
            raised = AbsRaise(RuntimeError, (str(ex),), it.where())
        except TooHard as ex:
            und = f"{ex} at {it.where()}"
        except RecursionError:
            if DEBUG:
                raise
            und = "recursion"
        results.append(PathResult(val, raised, it, und))
        # branch on the newly answered questions
        ks = it.new_keys
        for i, k in enumerate(ks):
            alt = dict(pre)
            for j in ks[:i]:
                alt[j] = True
            alt[k] = False
            todo.append(alt)
        if len(results) >= max_paths:
            results.append(PathResult(None, None, it, "too many paths"))
            break
        yield results[-1]
