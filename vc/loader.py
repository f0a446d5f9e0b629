"""Import /repo/BayesicFitting/source a second time with the mechanical rewrites that let it run on symbolic values:
  * float literals become exact rationals, complex literals symbolic complex numbers
  * `/` and `**` (on anything) go through exact helpers, the same for /= and **=
  * `import numpy|math|random`, `from scipy import special` bind the exact stand-ins of npshim
  * the builtins float int len range sum abs max min isinstance round pow are the symbolic-aware ones
Nothing else is changed: statements, control flow, names and calls are those of the file on disk."""
import ast, sys, os, importlib, importlib.abc, importlib.machinery, importlib.util, types, hashlib
from fractions import Fraction as Fr
from . import npshim, garr, sym, terms as tm
from .sym import S

ROOT = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(ROOT, 'BayesicFitting', 'source')
PKG = 'bfsym'

MODS = {}


class _Chain(object):
    """attribute proxy for things never used on symbolic paths"""


def shim_module(name):
    if name == 'numpy' or name.startswith('numpy'):
        return NP
    if name == 'math':
        return MATH
    if name == 'random':
        return RND
    if name == 'scipy.special':
        return SPECIAL
    return None


NP, MATH, SPECIAL, RND = npshim.NPShim(), npshim.MathShim(), npshim.SpecialShim(), npshim.Random()


class _Scipy(types.ModuleType):
    special = SPECIAL

    def __getattr__(self, n):
        import scipy
        return getattr(scipy, n)


SCIPY = _Scipy('scipy_shim')


def carried(loop, fn):
    """name of a variable that carries a value between iterations of the loop or out of it ('' if none)"""
    stored, first = set(), {}
    for st in loop.body + loop.orelse:
        for u in ast.walk(st):
            if isinstance(u, (ast.Break, ast.Continue, ast.Return)):
                return 'control flow'
            if isinstance(u, ast.AugAssign) and isinstance(u.target, (ast.Name, ast.Attribute)):
                return ast.unparse(u.target)
            if isinstance(u, ast.Attribute) and isinstance(u.ctx, ast.Store):
                return ast.unparse(u)
            if isinstance(u, ast.Name) and isinstance(u.ctx, ast.Store):
                stored.add(u.id)
            if isinstance(u, ast.Call) and isinstance(u.func, ast.Attribute) and u.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'add', 'update'):
                return ast.unparse(u.func)
            if isinstance(u, ast.AugAssign) and isinstance(u.target, ast.Subscript) and not idxbytarget(u.target, loop):
                return ast.unparse(u.target)
    for t in ast.walk(loop.target):
        if isinstance(t, ast.Name):
            stored.add(t.id)
    tgt = {t.id for t in ast.walk(loop.target) if isinstance(t, ast.Name)}
    inside = {id(u) for st in loop.body + loop.orelse for u in ast.walk(st)} | {id(u) for u in ast.walk(loop.target)}
    for u in ast.walk(fn):
        if isinstance(u, ast.Name) and u.id in stored and isinstance(u.ctx, ast.Load) and id(u) not in inside:
            # read elsewhere: harmless only when some other statement stores it first
            if u.lineno > loop.lineno and not restored(u, loop, fn):
                return u.id
    # read before written in the body
    done = set(tgt)
    for st in loop.body:
        reads = [u for u in ast.walk(st) if isinstance(u, ast.Name) and isinstance(u.ctx, ast.Load) and u.id in stored and u.id not in done]
        if reads:
            return reads[0].id
        if isinstance(st, ast.Assign):
            for t in st.targets:
                for u in ast.walk(t):
                    if isinstance(u, ast.Name) and isinstance(u.ctx, ast.Store):
                        done.add(u.id)
        elif isinstance(st, ast.For):
            pass
    return ''


def restored(u, loop, fn):
    """between the loop and the read u there is a top-level store of the name (other loops over it count)"""
    for v in ast.walk(fn):
        if isinstance(v, ast.Name) and v.id == u.id and isinstance(v.ctx, ast.Store) and loop.end_lineno < v.lineno <= u.lineno:
            return True
    return False


def idxbytarget(sub, loop):
    tgt = {t.id for t in ast.walk(loop.target) if isinstance(t, ast.Name)}
    return any(isinstance(v, ast.Name) and v.id in tgt for v in ast.walk(sub.slice))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.fn = []

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('_vc_f', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        if isinstance(n.value, complex):
            return ast.copy_location(ast.Call(ast.Name('_vc_c', ast.Load()), [ast.Constant(repr(n.value.imag))], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('_vc_div', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('_vc_pow', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('_vc_fmt', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Try(self, n):
        # a catch-all handler must not swallow the verifier's own signals
        self.generic_visit(n)
        if any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')) for h in n.handlers):
            n.handlers.insert(0, ast.copy_location(ast.ExceptHandler(ast.Name('_vc_signals', ast.Load()), None, [ast.Raise()]), n.handlers[0]))
        return n

    def visit_For(self, n):
        c = carried(n, self.fn[-1]) if self.fn else 'a module-level loop'
        self.generic_visit(n)
        n.iter = ast.copy_location(ast.Call(ast.Name('_vc_for', ast.Load()), [n.iter, ast.Constant(c)], []), n.iter)
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        try:
            return self._fd(n)
        finally:
            self.fn.pop()

    def _fd(self, n):
        self.stack.append(n.name)
        q = '.'.join([self.modname.split('.', 1)[1]] + self.stack)
        self.generic_visit(n)
        self.stack.pop()
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.copy_location(ast.Expr(ast.Call(ast.Name('_vc_in', ast.Load()), [ast.Constant(q)], [])), n.body[0]))
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            top = a.name.split('.')[0]
            if top in ('numpy', 'math', 'random', 'scipy'):
                s = a.name if a.asname else top
                out.append(ast.copy_location(ast.Assign([ast.Name(a.asname or top, ast.Store())], ast.Call(ast.Name('_vc_imp', ast.Load()), [ast.Constant(s)], [])), n))
            else:
                out.append(ast.copy_location(ast.Import([a]), n))
        return out

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module == 'astropy':
            return [ast.copy_location(ast.Assign([ast.Name(a.asname or a.name, ast.Store())],
                    ast.Call(ast.Name('_vc_impfrom', ast.Load()), [ast.Constant(n.module), ast.Constant(a.name)], [])), n) for a in n.names]
        if n.level == 0 and n.module in ('numpy', 'math', 'scipy', 'scipy.special', 'random'):
            return [ast.copy_location(ast.Assign([ast.Name(a.asname or a.name, ast.Store())],
                    ast.Call(ast.Name('_vc_impfrom', ast.Load()), [ast.Constant(n.module), ast.Constant(a.name)], [])), n) for a in n.names]
        return n


def _imp(name):
    if name == 'scipy':
        return SCIPY
    r = shim_module(name)
    return r


class _Units(object):
    def Unit(self, x='', *a):
        from astropy import units
        return units.Unit(float(x) if isinstance(x, S) else x, *a)

    def __getattr__(self, n):
        from astropy import units
        return getattr(units, n)


def _impfrom(mod, name):
    if mod == 'astropy':
        if name == 'units':
            return _Units()
        import astropy
        return getattr(astropy, name)
    if mod == 'scipy' and name == 'special':
        return SPECIAL
    m = SCIPY if mod == 'scipy' else shim_module(mod)
    return getattr(m, name)


def _f(s):
    return S(tm.const(Fr(s)))


HOOKS = {}      # modulename -> function(ast tree) -> tree   (loop contracts)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path, self.name = path, name

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        src = open(self.path).read()
        tree = ast.parse(src, self.path)
        h = HOOKS.get(self.name.split('.')[-1])
        if h:
            tree = h(tree)
        tree = Rewriter(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        d = mod.__dict__
        d.update(npshim.BUILTINS)
        d.update(_vc_signals=(sym.PathEnd, sym.Unsupported), _vc_f=_f, _vc_c=lambda s: garr.CS(0, _f(s)), _vc_div=npshim.b_div, _vc_pow=npshim.b_powop, _vc_fmt=npshim.b_fmt, _vc_imp=_imp, _vc_impfrom=_impfrom)
        from . import loops, prove
        d['_vc_in'] = prove.FUNCS.add
        d['_vc_L'] = loops
        exec(compile(tree, self.path, 'exec'), d)
        if self.path.endswith('bspline.py'):
            pass


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname == PKG:
            s = importlib.machinery.ModuleSpec(fullname, _Pkg(), is_package=True)
            s.submodule_search_locations = [SRC]
            return s
        if not fullname.startswith(PKG + '.'):
            return None
        rel = fullname.split('.')[1:]
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p):
            s = importlib.machinery.ModuleSpec(fullname, _Pkg(), is_package=True)
            s.submodule_search_locations = [p]
            return s
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_loader(fullname, Loader(p + '.py', fullname), origin=p + '.py')
        return None


class _Pkg(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        pass


sys.meta_path.insert(0, Finder())
sys.dont_write_bytecode = True


def symcls(name):
    """class of the symbolic copy"""
    if name.startswith('kernels.'):
        m = importlib.import_module(PKG + '.' + name)
        return getattr(m, name.split('.')[-1])
    m = importlib.import_module(PKG + '.' + name)
    return getattr(m, name)


def symmod(name):
    return importlib.import_module(PKG + '.' + name)


def realmod(name):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module('BayesicFitting.source.' + name)


def realcls(name):
    return getattr(realmod(name), name.split('.')[-1])


def srchash(names=None):
    h = hashlib.sha256()
    for dp, dn, fns in sorted(os.walk(SRC)):
        for f in sorted(fns):
            if f.endswith('.py'):
                h.update(open(os.path.join(dp, f), 'rb').read())
    return h.hexdigest()[:16]
