"""Mechanical extraction: imports the pyvbmc package from /repo's current source
through an AST rewrite.  The rewrite
  * redirects calls of len/range/int/float/isinstance/max/min/sum/round/any/all
    to symbolic-aware versions (identical on concrete values), and
  * turns every `for` statement of a function into
        if <iterable is a symbolic range>: <loop-contract rule> else: <the loop itself>
Nothing else of the text is changed; after import, the module globals that are
numpy/scipy/math (or functions of theirs) are replaced by shims."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types

from . import npshim, loops

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Vc:
    b = npshim.BUILTINS
    is_symbolic = staticmethod(loops.is_symbolic)
    run_loop = staticmethod(loops.run_loop)
    unsup = staticmethod(loops.unsup)


VC = _Vc()


class Stores(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # iteration variables are local to the comprehension; walrus ignored
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.names.append((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.append(n.name)
        self.generic_visit(n)


def stores(nodes):
    s = Stores()
    for n in nodes:
        s.visit(n)
    return list(dict.fromkeys(s.names))


class BodyFix(ast.NodeTransformer):
    """loop body -> body of a function (one generic iteration)"""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, n):
        # break/continue inside belong to the inner loop; returns do not
        return RetFix().visit(n)

    visit_While = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_Break(self, n):
        return ast.copy_location(parse_stmt("__vc__.unsup('break in a symbolic loop')"), n)

    def visit_Return(self, n):
        return ast.copy_location(parse_stmt("__vc__.unsup('return in a symbolic loop')"), n)


class RetFix(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if n.name.startswith("__vcbody"):
            return n
        return n

    visit_Lambda = visit_FunctionDef

    def visit_Return(self, n):
        return ast.copy_location(parse_stmt("__vc__.unsup('return in a symbolic loop')"), n)


def parse_stmt(s):
    return ast.parse(s).body[0]


class Rewrite(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.infunc = []
        self.k = 0

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        has_gl = any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n))
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))
        self.infunc.append(not has_gl and not gen)
        n.body = self.block(n.body)
        self.infunc.pop()
        return n

    def visit_ClassDef(self, n):
        self.infunc.append(False)
        n.body = self.block(n.body)
        self.infunc.pop()
        return n

    def visit_Lambda(self, n):
        self.infunc.append(False)
        self.generic_visit(n)
        self.infunc.pop()
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in npshim.BUILTINS:
            n.func = ast.copy_location(
                ast.parse(f"__vc__.b[{n.func.id!r}]", mode="eval").body, n.func)
            ast.fix_missing_locations(n)
        return n

    def visit_For(self, n):
        if not (self.infunc and self.infunc[-1]):
            self.generic_visit(n)
            return n
        import copy

        raw_body = copy.deepcopy(n.body)
        target = copy.deepcopy(n.target)
        self.generic_visit(n)
        if n.orelse:
            return n
        self.k += 1
        k = self.k
        names = stores(raw_body + [target])
        body2 = self.block(raw_body)
        body2 = [BodyFix().visit(b) for b in body2]
        itn = f"__vcit{k}"
        src = f"""
{itn} = None
if __vc__.is_symbolic({itn}):
    def __vcbody{k}(__vcidx):
        nonlocal {', '.join(names)}
        __vctarget = __vcidx
    def __vcget{k}():
        __d = {{}}
        pass
        return __d
    def __vcset{k}(__d):
        nonlocal {', '.join(names)}
    __vc__.run_loop({itn}, __vcbody{k}, __vcget{k}, __vcset{k}, {self.fname!r}, {n.lineno})
else:
    pass
"""
        st = ast.parse(src).body
        st[0].value = n.iter
        iff = st[1]
        fb, fg, fs, call = iff.body
        fb.body = [fb.body[0], ast.Assign(targets=[target], value=ast.Name(id="__vcidx", ctx=ast.Load()))] + body2
        gb = []
        for nm in names:
            gb.append(ast.parse(f"try:\n    __d[{nm!r}] = {nm}\nexcept NameError:\n    pass").body[0])
        fg.body = [fg.body[0]] + gb + [fg.body[-1]]
        for nm in names:
            fs.body.append(ast.parse(f"if {nm!r} in __d:\n    {nm} = __d[{nm!r}]").body[0])
        n.iter = ast.Name(id=itn, ctx=ast.Load())
        iff.orelse = [n]
        for s in st:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return st


def transform(src, fname):
    tree = ast.parse(src, fname)
    tree = Rewrite(fname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, shim=True):
        self.root = root
        self.shim = shim

    def find_spec(self, name, path=None, target=None):
        if name != "pyvbmc" and not name.startswith("pyvbmc."):
            return None
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[p])
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        src = open(f).read()
        tree = transform(src, f)
        code = compile(tree, f, "exec")
        module.__dict__["__vc__"] = VC
        exec(code, module.__dict__)
        LOADED[module.__name__] = f


LOADED = {}


def load():
    """install the finder and import everything; then swap library globals"""
    sys.meta_path.insert(0, Finder(REPO))
    import pyvbmc  # noqa

    for n in list(sys.modules):
        if n == "pyvbmc" or n.startswith("pyvbmc."):
            shim_module(sys.modules[n])
    return sys.modules["pyvbmc"]


def shim_module(m):
    for k, v in list(m.__dict__.items()):
        if k.startswith("__"):
            continue
        s = npshim.shim_global(v)
        if s is not None:
            m.__dict__[k] = s
