"""Documented options must at least be read (C18): a syntactic lower bound for
what the evaluation scenarios decide per option."""
import ast
import re
from .cases import *
from .interp import ModuleV

MODS = ("torchmps", "prob_mps", "mps_base", "embeddings", "utils", "utils2")


def documented(doc):
    """Names listed in the 'Args:' section of a docstring."""
    m = re.search(r"^\s*(Args|Arguments|Parameters):?\s*$", doc or "", re.M)
    if not m:
        return set()
    out, ind = set(), None
    for line in doc[m.end():].splitlines():
        if not line.strip():
            continue
        k = len(line) - len(line.lstrip())
        if ind is None:
            ind = k
        if k < ind:
            break
        g = re.match(r"\s*(\w+)\s*(\(.*?\))?\s*:", line)
        if g and k == ind:
            out.add(g.group(1))
    return out


def reads(fn):
    """Names read in the body of a function (including nested functions)."""
    names, everything = set(), False
    for s in fn.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                names.add(n.id)
                everything |= n.id in ("locals", "vars", "eval", "exec")
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
    return names, everything


def trivial(fn):
    """Abstract or placeholder bodies."""
    return all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in fn.body)


def unread(c, mod):
    m = c.it.module("torchmps." + mod)
    if not isinstance(m, ModuleV):
        raise Missing(mod)
    n = 0
    for name, v in sorted(m.vars.items()):
        if name.startswith("_"):
            continue
        todo = []
        if isinstance(v, FuncV) and v.module is m and isinstance(v.node, ast.FunctionDef):
            todo.append((name, v.node, ast.get_docstring(v.node)))
        elif isinstance(v, ClassV) and isinstance(getattr(v, "node", None), ast.ClassDef) and getattr(v, "module", m) is m:
            for s in v.node.body:
                if isinstance(s, ast.FunctionDef) and (s.name == "__init__" or not s.name.startswith("_")):
                    doc = ast.get_docstring(s) or (ast.get_docstring(v.node) if s.name == "__init__" else None)
                    todo.append((f"{name}.{s.name}", s, doc))
        for q, fn, doc in todo:
            if trivial(fn):
                continue
            args = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
            used, everything = reads(fn)
            for a in args:
                if a in documented(doc):
                    n += 1
                    c.check("C18", f"{q} reads {a}", everything or a in used, f"the documented option {a} of {q} is never read",
                            f"torchmps/{mod}.py:{fn.lineno} ({q})")
    if not n:
        raise Missing("no documented options")


def entries(doc):
    """{argument: text} of the 'Args:' section."""
    out, cur = {}, None
    names = documented(doc)
    for line in (doc or "").splitlines():
        g = re.match(r"\s*(\w+)\s*(\(.*?\))?\s*:", line)
        if g and g.group(1) in names and g.group(1) not in out:
            cur = g.group(1)
            out[cur] = ""
        if cur:
            out[cur] += " " + line.strip()
    return out


def same_literal(v, lit):
    if isinstance(lit, (bool, str)) or lit is None:
        return v is lit or v == lit and type(v) is type(lit)
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        return abs(float(v) - float(lit)) <= 1e-12 * abs(float(lit))
    return None


def defaults(c, mod):
    """The default stated in the documentation of an option is the one of the
    signature, unless it is resolved in the body (None)."""
    m = c.it.module("torchmps." + mod)
    n = 0
    for name, v in sorted(m.vars.items()):
        if not (isinstance(v, ClassV) and v.module is m and isinstance(v.node, ast.ClassDef)):
            continue
        f = v.attrs.get("__init__")
        if not isinstance(f, FuncV):
            continue
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        have = dict(zip(pos[len(pos) - len(f.defaults):], f.defaults))
        have.update(f.kwdefaults or {})
        doc = ast.get_docstring(f.node) or ast.get_docstring(v.node)
        for arg, text in entries(doc).items():
            g = re.search(r"\(default:\s*([^()]+)\)", text)
            if not g or arg not in pos + [x.arg for x in a.kwonlyargs]:
                continue
            try:
                lit = ast.literal_eval(g.group(1).strip())
            except (ValueError, SyntaxError):
                continue
            n += 1
            where = f"torchmps/{mod}.py:{f.node.lineno} ({name}.__init__)"
            if arg not in have:
                c.bad("C18", f"default of {name} {arg}", f"{arg} is documented to default to {lit!r} but must be given", where)
            elif have[arg] is None and lit is not None:
                continue
            else:
                r = same_literal(have[arg], lit)
                c.check("C18", f"default of {name} {arg}", r, f"{arg} defaults to {have[arg]} instead of the documented {lit!r}", where)
    if not n:
        raise Missing("no documented defaults")


def register():
    scenario("C18", "documented defaults of torchmps", defaults, mod="torchmps")
    for mod in MODS:
        scenario("C18", f"documented options of {mod}", unread, mod=mod)


register()
