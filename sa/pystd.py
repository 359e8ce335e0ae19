"""Models of the Python standard library beyond the built-in types: containers,
named tuples, data classes, enumerations, context managers, iterators."""
import collections
import itertools
import typing
from fractions import Fraction
from .expr import TooHard
from .poly import Poly
from .interp import (Native, NativeMod, TypeTok, ClassV, Instance, Opaque, Unknown, Keys, DefDict, CMV, GenV, CtxV, BoundV, FuncV, PartialV, PropV,
                     StaticV, AbsRaise, TensorObj, MISSING)

N = Native


class Typing(NativeMod):
    """typing: names without a use at run time."""


class PyStd:
    # ------------------------------------------------------------ strings
    def percent(self, s, args):
        """s % args"""
        xs = args if isinstance(args, tuple) else (args,)
        if isinstance(args, dict):
            raise TooHard("% with a mapping")
        conv = tuple(x if isinstance(x, (int, str)) else float(x) if isinstance(x, Fraction) else self.to_str(x) for x in xs)
        try:
            return s % conv
        except TypeError as ex:
            if any(not isinstance(x, (int, str, Fraction)) for x in xs):
                return s        # a message with symbolic numbers
            self.it.raise_(TypeError, str(ex))
        except ValueError as ex:
            self.it.raise_(ValueError, str(ex))

    def exc_str(self, x):
        a = x.args_()
        return "" if not a else self.to_str(a[0]) if len(a) == 1 else self.to_str(tuple(a))

    # ------------------------------------------------------------ containers
    def deque_attr(self, o, name):
        it = self.it
        seq = lambda x: list(it.iterate(x))
        if name in ("append", "appendleft"):
            return N(name, lambda x: getattr(o, name)(x))
        if name in ("pop", "popleft"):
            return N(name, lambda: getattr(o, name)() if o else it.raise_(IndexError, "pop from an empty deque"))
        if name in ("extend", "extendleft"):
            return N(name, lambda xs: getattr(o, name)(seq(xs)))
        if name in ("rotate",):
            return N(name, lambda k=1: o.rotate(k))
        if name in ("clear", "reverse", "copy"):
            return N(name, lambda: getattr(o, name)())
        if name == "insert":
            return N(name, lambda k, x: o.insert(k, x))
        if name == "maxlen":
            return o.maxlen
        return MISSING if not hasattr(o, name) else self.hard("deque." + name)

    def make_deque(self, xs=(), maxlen=None):
        return collections.deque(list(self.it.iterate(xs)), maxlen)

    def make_defdict(self, factory=None, *a, **k):
        d = DefDict()
        d.factory = factory
        self.fill(d, *a, **k)
        return d

    def fill(self, d, *a, **k):
        for x in a:
            if isinstance(x, dict):
                d.update(x)
            else:
                for y in self.it.iterate(x):
                    kk, v = list(self.it.iterate(y))
                    d[kk] = v
        d.update(k)

    def make_counter(self, xs=(), **k):
        d = DefDict()
        d.factory, d.counter = N("zero", lambda: 0), True
        if isinstance(xs, dict):
            d.update(xs)
        else:
            for x in self.it.iterate(xs):
                d[x] = d.get(x, 0) + 1
        d.update(k)
        return d

    def defdict_attr(self, o, name):
        if not getattr(o, "counter", False):
            return o.factory if name == "default_factory" else MISSING
        if name == "most_common":
            return N(name, lambda n=None: collections.Counter(o).most_common(n))
        if name == "elements":
            return N(name, lambda: iter([k for k, v in o.items() for _ in range(v)]))
        if name in ("total", "subtract", "update"):
            raise TooHard("Counter." + name)
        return MISSING

    # ------------------------------------------------------------ named tuples
    def make_tuple(self, f, args, kwargs):
        vals = dict(zip(f._fields, args))
        if len(args) > len(f._fields) or any(k in vals or k not in f._fields for k in kwargs):
            self.it.raise_(TypeError, f"{f.__name__}() got unexpected arguments")
        vals.update(kwargs)
        for k in f._fields:
            if k not in vals:
                if k not in f._sa_defaults:
                    self.it.raise_(TypeError, f"{f.__name__}() missing argument {k!r}")
                vals[k] = f._sa_defaults[k]
        return f._make([vals[k] for k in f._fields])

    def namedtuple(self, name, fields, rename=False, defaults=None, module=None):
        fields = fields.replace(",", " ").split() if isinstance(fields, str) else list(self.it.iterate(fields))
        t = collections.namedtuple(name, fields)
        d = list(self.it.iterate(defaults)) if defaults is not None else []
        t._sa_defaults = dict(zip(fields[len(fields) - len(d):], d))
        t._sa_cls = None
        return t

    def tuple_class(self, name, fields, c, base):
        t = type(name, (base or collections.namedtuple(name, fields),), {})
        t._sa_defaults = dict(base._sa_defaults) if base else {k: c.attrs.pop(k) for k in fields if k in c.attrs}
        if c.lookup("__new__")[1] or c.lookup("__init__")[1]:
            return Unknown("named tuple with a constructor")
        for k in c.attrs:
            if k.startswith("__") and k not in ("__doc__", "__slots__", "__module__", "__qualname__", "__repr__", "__str__", "__annotations__"):
                return Unknown("named tuple with operators")
        t._sa_cls = c
        return t

    def tuple_type_attr(self, t, name):
        if name == "_fields":
            return t._fields
        if name == "__name__":
            return t.__name__
        if name == "_make":
            return N(name, lambda xs: self.make_tuple(t, list(self.it.iterate(xs)), {}))
        if t._sa_cls is not None:
            v, c = t._sa_cls.lookup(name)
            if c is not None:
                return (v.func if v.kind == "static" else BoundV(v.func, t)) if isinstance(v, StaticV) else v
        return MISSING

    def tuple_attr(self, o, name):
        t = type(o)
        if name in t._fields:
            return o[t._fields.index(name)]
        if name == "_replace":
            return N(name, lambda **k: self.make_tuple(t, [], {**dict(zip(t._fields, o)), **k}))
        if name == "_asdict":
            return N(name, lambda: dict(zip(t._fields, o)))
        if name == "_fields":
            return t._fields
        if t._sa_cls is not None:
            v, c = t._sa_cls.lookup(name)
            if c is not None:
                if isinstance(v, PropV):
                    return self.it.call(v.fget, [o], {})
                if isinstance(v, StaticV):
                    return v.func if v.kind == "static" else BoundV(v.func, t)
                return BoundV(v, o) if isinstance(v, (FuncV, Native)) else v
        return self.py_attr(tuple(o), name)

    # ------------------------------------------------------------ data classes
    def dataclass(self, cls=None, **opts):
        if cls is None:
            return N("dataclass", lambda c: self.dataclass(c, **opts))
        it = self.it
        if not isinstance(cls, ClassV) or opts.get("order"):
            raise TooHard("dataclass")
        names, dflt = [], {}
        for c in reversed(cls.mro()):
            for k in getattr(c, "fields", ()):
                if k not in names:
                    names.append(k)
                if k in c.attrs:
                    dflt[k] = c.attrs[k]
        spec = lambda v: v.native[1] if isinstance(v, Instance) and v.native and v.native[0] == "field" else None
        inits = [k for k in names if not (spec(dflt.get(k)) or {}).get("init") is False]
        if any((spec(dflt.get(k)) or {}).get("kw_only") for k in names) or opts.get("kw_only"):
            raise TooHard("keyword-only data class")
        for k in names:
            if spec(cls.attrs.get(k)) is not None:
                s = spec(cls.attrs.pop(k))
                if "default" in s:
                    cls.attrs[k] = s["default"]

        def init(o, *args, **kw):
            vals = dict(zip(inits, args))
            if len(args) > len(inits) or any(k in vals or k not in inits for k in kw):
                it.raise_(TypeError, f"{cls.name}.__init__() got unexpected arguments")
            vals.update(kw)
            for k in names:
                if k in vals:
                    v = vals[k]
                elif k not in dflt:
                    it.raise_(TypeError, f"{cls.name}.__init__() missing argument {k!r}")
                else:
                    s = spec(dflt[k])
                    if s is None:
                        v = dflt[k]
                    elif "default_factory" in s:
                        v = it.call(s["default_factory"], [], {})
                    elif "default" in s:
                        v = s["default"]
                    else:
                        it.raise_(TypeError, f"{cls.name}.__init__() missing argument {k!r}")
                it.set_plain(o, k, v)
            post = it.find_method(o, "__post_init__")
            if post is not None:
                it.call(post, [], {})
        own = lambda k: isinstance(cls.attrs.get(k), FuncV)
        if not own("__init__") and opts.get("init", True):
            cls.attrs["__init__"] = N(cls.name + ".__init__", init)
        if not own("__eq__") and opts.get("eq", True):
            cls.attrs["__eq__"] = N("__eq__", lambda o, p: all(it.truth(it.cmp("eq", it.getattr(o, k), it.getattr(p, k))) for k in names)
                                    if isinstance(p, Instance) and p.cls is o.cls else False)
        if opts.get("frozen"):
            cls.attrs["__setattr__"] = N("__setattr__", lambda o, k, v: it.raise_(AttributeError, f"cannot assign to field {k!r}"))
        cls.dataclass_fields = names
        return cls

    def field(self, **k):
        o = Instance(ClassV("Field", []))
        o.native = ("field", k)
        return o

    def dc_fields(self, o):
        names = (o.cls if isinstance(o, Instance) else o).dataclass_fields
        return tuple(self.namespace(name=k) for k in names)

    def dc_replace(self, o, **k):
        vals = {n: self.it.getattr(o, n) for n in o.cls.dataclass_fields}
        return self.it.call(o.cls, [], {**vals, **k})

    def dc_asdict(self, o):
        vals = {n: self.it.getattr(o, n) for n in o.cls.dataclass_fields}
        if any(isinstance(v, (Instance, list, dict, tuple)) for v in vals.values()):
            raise TooHard("asdict of nested values")
        return vals

    def namespace(self, **k):
        o = Instance(self.ns_cls)
        o.attrs.update(k)
        return o

    # ------------------------------------------------------------ context managers
    def contextmanager(self, f):
        def make(*a, **k):
            g = self.it.call(f, list(a), k)
            if not isinstance(g, GenV):
                raise TooHard("contextmanager")
            return CMV(g)
        return N("contextmanager", make)

    def cm_classes(self):
        it = self.it
        sup = ClassV("suppress", [])
        sup.attrs.update(__init__=N("init", lambda o, *ts: o.attrs.update(ts=tuple(ts))), __enter__=N("enter", lambda o: None),
                         __exit__=N("exit", lambda o, t, e, tb: e is not None and it.exc_match(e, o.attrs["ts"])))
        st = ClassV("ExitStack", [])

        def init(o):
            o.attrs["todo"] = []

        def enter_context(o, c):
            if isinstance(c, CMV):
                raise TooHard("ExitStack.enter_context of a generator")
            v = it.ctx_enter(c)
            o.attrs["todo"].append(lambda ex: it.ctx_exit(c, ex))
            return v

        def callback(o, f, *a, **k):
            o.attrs["todo"].append(lambda ex: it.call(f, list(a), k) and None)
            return f

        def exit_(o, t, e, tb):
            swallowed = False
            todo = o.attrs["todo"]
            while todo:
                r = todo.pop()(e)
                if e is not None and r is not None and r is not False and it.truth(r):
                    e, swallowed = None, True
            return swallowed
        st.attrs.update(__init__=N("init", init), __enter__=N("enter", lambda o: o), __exit__=N("exit", exit_), callback=N("callback", callback),
                        enter_context=N("enter_context", enter_context), close=N("close", lambda o: exit_(o, None, None, None) and None))
        cl = ClassV("closing", [])
        cl.attrs.update(__init__=N("init", lambda o, x: o.attrs.update(x=x)), __enter__=N("enter", lambda o: o.attrs["x"]),
                        __exit__=N("exit", lambda o, *a: it.call(it.getattr(o.attrs["x"], "close"), [], {}) and None))
        cw = ClassV("catch_warnings", [])
        cw.attrs.update(__init__=N("init", lambda o, **k: None), __enter__=N("enter", lambda o: []), __exit__=N("exit", lambda o, *a: None))
        return sup, st, cl, cw

    # ------------------------------------------------------------ modules
    def std_modules(self, mods):
        it = self.it
        I = lambda x: iter(it.iterate(x))
        L = lambda x: list(it.iterate(x))
        self.ns_cls = ClassV("SimpleNamespace", [])
        self.ns_cls.attrs["__init__"] = N("init", lambda o, **k: o.attrs.update(k))
        sup, st, cl, cw = self.cm_classes()
        abc = mods["collections.abc"]
        for k in ("Mapping", "MutableMapping"):
            abc.table[k] = TypeTok(k, lambda x: isinstance(x, dict))
        for k in ("Callable", "Iterator", "Generator", "Hashable", "Sized", "Collection", "Container"):
            abc.table.setdefault(k, Opaque(k))
        mods["collections"].table.update(
            deque=TypeTok("deque", lambda x: isinstance(x, collections.deque), self.make_deque),
            defaultdict=TypeTok("defaultdict", lambda x: isinstance(x, DefDict) and not getattr(x, "counter", False), self.make_defdict),
            Counter=TypeTok("Counter", lambda x: isinstance(x, DefDict) and getattr(x, "counter", False), self.make_counter),
            namedtuple=N("namedtuple", self.namedtuple))
        mods["dataclasses"] = NativeMod("dataclasses", {
            "dataclass": N("dataclass", self.dataclass), "field": N("field", self.field), "fields": N("fields", self.dc_fields),
            "replace": N("replace", self.dc_replace), "asdict": N("asdict", self.dc_asdict),
            "is_dataclass": N("is_dataclass", lambda o: hasattr(o.cls if isinstance(o, Instance) else o, "dataclass_fields"))})
        mods["enum"] = NativeMod("enum", {**{k: Opaque(k) for k in ("Enum", "IntEnum", "StrEnum", "Flag")}, "auto": N("auto", lambda: Opaque("auto()")),
                                          "unique": N("unique", lambda c: c)})
        same = N("abstractmethod", lambda f: f)
        mods["abc"] = NativeMod("abc", {"ABC": Opaque("ABC"), "ABCMeta": Opaque("ABCMeta"), "abstractmethod": same})
        mods["types"] = NativeMod("types", {
            "SimpleNamespace": self.ns_cls, "FunctionType": TypeTok("function", lambda x: isinstance(x, FuncV)),
            "LambdaType": TypeTok("function", lambda x: isinstance(x, FuncV)), "GeneratorType": TypeTok("generator", lambda x: isinstance(x, GenV)),
            "MethodType": TypeTok("method", lambda x: isinstance(x, BoundV), lambda f, o: BoundV(f, o)),
            "MappingProxyType": N("MappingProxyType", lambda d: d), "NoneType": self.types["NoneType"]})
        mods["contextlib"].table.update(contextmanager=N("contextmanager", self.contextmanager), suppress=sup, ExitStack=st, closing=cl)
        mods["warnings"].table.update(catch_warnings=cw, simplefilter=N("simplefilter", lambda *a, **k: None),
                                      filterwarnings=N("filterwarnings", lambda *a, **k: None))
        lg = ClassV("Logger", [])
        for k in ("debug", "info", "warning", "error", "critical", "log", "exception", "setLevel", "addHandler"):
            lg.attrs[k] = N(k, lambda o, *a, **kw: None)
        lg.attrs["isEnabledFor"] = N("isEnabledFor", lambda o, *a: False)
        log = {k: N(k, lambda *a, **kw: None) for k in ("debug", "info", "warning", "error", "critical", "log", "basicConfig")}
        log["getLogger"] = N("getLogger", lambda *a: Instance(lg))
        log["NullHandler"] = N("NullHandler", lambda *a: None)
        log.update(DEBUG=10, INFO=20, WARNING=30, ERROR=40)
        mods["logging"] = NativeMod("logging", log)
        mods["time"].table.update({k: N(k, lambda: Unknown("the time")) for k in ("time", "perf_counter", "monotonic")})
        typ = mods["typing"].table
        for k in typing.__all__:
            typ.setdefault(k, Opaque(k))
        typ["NamedTuple"] = Opaque("NamedTuple")
        typ["cast"] = N("cast", lambda t, x: x)
        typ["TypeVar"] = N("TypeVar", lambda *a, **k: Opaque("TypeVar"))
        typ["NewType"] = N("NewType", lambda n, t: N(n, lambda x: x))
        for k in ("overload", "final", "no_type_check", "runtime_checkable", "override"):
            typ[k] = N(k, lambda f: f)
        typ["TYPE_CHECKING"] = False

        chain = TypeTok("chain", lambda x: isinstance(x, itertools.chain), lambda *a: itertools.chain(*[I(x) for x in a]))
        chain.attrs = {"from_iterable": N("from_iterable", lambda xs: itertools.chain.from_iterable(I(x) for x in it.iterate(xs)))}

        def groupby(xs, key=None):
            out = []
            for x in it.iterate(xs):
                k = it.call(key, [x], {}) if key is not None else x
                if out and it.truth(it.cmp("eq", out[-1][0], k)):
                    out[-1][1].append(x)
                else:
                    out.append((k, [x]))
            return iter([(k, iter(g)) for k, g in out])

        def takewhile(f, xs):
            for x in it.iterate(xs):
                if not it.truth(it.call(f, [x], {})):
                    return
                yield x

        def dropwhile(f, xs):
            go = False
            for x in it.iterate(xs):
                go = go or not it.truth(it.call(f, [x], {}))
                if go:
                    yield x
        mods["itertools"].table.update(
            chain=chain, groupby=N("groupby", groupby), takewhile=N("takewhile", takewhile), dropwhile=N("dropwhile", dropwhile),
            combinations=N("combinations", lambda x, r: itertools.combinations(L(x), r)),
            combinations_with_replacement=N("combinations_with_replacement", lambda x, r: itertools.combinations_with_replacement(L(x), r)),
            permutations=N("permutations", lambda x, r=None: itertools.permutations(L(x), r)),
            compress=N("compress", lambda x, s: iter([a for a, b in zip(L(x), L(s)) if it.truth(b)])),
            filterfalse=N("filterfalse", lambda f, xs: iter([x for x in it.iterate(xs) if not it.truth(x if f is None else it.call(f, [x], {}))])),
            tee=N("tee", lambda x, n=2: tuple(iter(l) for l in [L(x)] for _ in range(n))),
            batched=N("batched", lambda x, n: iter([tuple(l[k:k + n]) for l in [L(x)] for k in range(0, len(l), n)])))
        import ast as A
        op = mods["operator"].table
        for k, c in dict(floordiv=A.FloorDiv, mod=A.Mod, pow=A.Pow, and_=A.BitAnd, or_=A.BitOr, xor=A.BitXor).items():
            op[k] = N(k, (lambda c: lambda a, b: it.binop(c(), a, b))(c))
        for k in ("eq", "ne", "lt", "le", "gt", "ge"):
            op[k] = N(k, (lambda k: lambda a, b: it.cmp(k, a, b))(k))
        for k, c in dict(iadd=A.Add, isub=A.Sub, imul=A.Mult, itruediv=A.Div).items():
            op[k] = N(k, (lambda c: lambda a, b: it.inplace(c(), a, b))(c))
        op["neg"] = N("neg", lambda a: it.binop(A.Mult(), -1, a))
        op["not_"] = N("not_", lambda a: not it.truth(a))
        op["truth"] = N("truth", lambda a: it.truth(a))
        op["contains"] = N("contains", lambda a, b: it.contains(a, b))
        op["getitem"] = N("getitem", lambda a, b: it.getitem(a, b))
        op["is_"] = N("is_", lambda a, b: it.is_(a, b))
        op["index"] = N("index", lambda a: a if isinstance(a, (int, Poly)) else self.hard("index"))
        op["methodcaller"] = N("methodcaller", lambda n, *a, **k: N(n, lambda o: it.call(it.getattr(o, n), list(a), k)))
        def itemgetter(*ks):
            return N("ig", lambda o: it.getitem(o, ks[0]) if len(ks) == 1 else tuple(it.getitem(o, k) for k in ks))

        def attrgetter(*ks):
            def get(o, k):
                for part in k.split("."):
                    o = it.getattr(o, part)
                return o
            return N("ag", lambda o: get(o, ks[0]) if len(ks) == 1 else tuple(get(o, k) for k in ks))
        op["itemgetter"], op["attrgetter"] = N("itemgetter", itemgetter), N("attrgetter", attrgetter)
        m = mods["math"].table
        m.setdefault("fsum", N("fsum", self.b_sum))
        return mods
