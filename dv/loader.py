"""Load the unmodified sources of /repo/gftool with numpy/scipy/mpmath/numexpr replaced by the
symbolic shims.  The code that is executed is the repository's own bytecode; nothing is rewritten
except loops listed with an invariant (see loops.py)."""
import ast
import builtins
import functools
import itertools
import importlib
import os
import sys
import types
from . import snp, ext
from .arr import SArr, Unsupported, asarr, dim_term, dim_out, scalar, W, BOOL, INT, FLOAT, COMPLEX, as_dtype
from .term import num, numval
from . import term as tm

REPO = os.environ.get("VERIF_REPO", "/repo")


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)

    def missing(attr):
        if attr.startswith("__") and attr.endswith("__"):
            raise AttributeError(attr)
        try:
            real = importlib.import_module(name)
        except ImportError:
            real = None
        if real is not None and not hasattr(real, attr):
            raise AttributeError(f"module {name!r} has no attribute {attr!r}")
        raise Unsupported(f"{name}.{attr}")
    m.__getattr__ = missing
    return m


def _public(mod):
    return {k: v for k, v in vars(mod).items() if not k.startswith("_") or k == "__version__"}


def _np_api(name, f):
    """give the model `f` of numpy.`name` numpy's own parameter names"""
    import inspect
    import numpy
    real = getattr(numpy, name, None)
    if real is None or isinstance(f, type) or not isinstance(f, types.FunctionType):
        return f
    mine = inspect.signature(f).parameters
    var_kw = any(p.kind == p.VAR_KEYWORD for p in mine.values())
    pos = [p.name for p in mine.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    try:
        rsig = inspect.signature(real)
        rpos = [p.name for p in rsig.parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        rdef = {p.name: p.default for p in rsig.parameters.values()}
    except (ValueError, TypeError):
        return f
    if any(p.kind == p.VAR_KEYWORD for p in rsig.parameters.values()):
        return f
    ren = {r: m for r, m in zip(rpos, pos) if r != m and r not in mine and m not in rpos}

    def g(*a, **kw):
        rsig.bind(*a, **kw)          # numpy's own TypeError for a wrong call
        out = {}
        for k, v in kw.items():
            k2 = ren.get(k, k)
            if k2 not in mine:
                if v is None or v is rdef.get(k) or (isinstance(v, (bool, str, int)) and v == rdef.get(k)):
                    continue
                if not var_kw:
                    raise Unsupported(f"numpy.{name}({k}=)")
            out[k2] = v
        return f(*a, **out)
    g.__name__ = name
    return g


_NOT_NUMPY = {"csqrt_t", "asfarray", "all_num", "get_map", "trapz", "polyvander", "polyval", "em_sqrt", "em_log", "em_power", "hfft",
              "ihfft", "fft_", "ifft_", "rfft_"}


def build_shims():
    api = {k: _np_api(k, v) for k, v in _public(snp).items() if k not in _NOT_NUMPY}
    np_ = _mod("numpy", **api)
    scimath = _mod("numpy.lib.scimath", sqrt=snp.em_sqrt, log=snp.em_log, power=snp.em_power)
    np_.lib = _mod("numpy.lib", scimath=scimath)
    np_.emath = scimath
    np_.fft = _mod("numpy.fft", hfft=snp.hfft, ihfft=snp.ihfft, fft=snp.fft_, ifft=snp.ifft_, rfft=snp.rfft_)
    np_.linalg = _mod("numpy.linalg", **ext.NP_LINALG)
    poly_ = _mod("numpy.polynomial.polynomial", polyvander=snp.polyvander, polyval=snp.polyval, **ext.NP_POLY)
    np_.polynomial = _mod("numpy.polynomial", polynomial=poly_, Polynomial=ext.Polynomial)
    np_.random = _mod("numpy.random")
    np_.exceptions = _mod("numpy.exceptions", AxisError=snp.AxisError, ComplexWarning=UserWarning)
    np_.testing = _mod("numpy.testing")
    np_.typing = _mod("numpy.typing", ArrayLike=object, NDArray=list)
    shims = {"numpy": np_, "numpy.lib": np_.lib, "numpy.lib.scimath": scimath, "numpy.fft": np_.fft,
             "numpy.linalg": np_.linalg, "numpy.polynomial": np_.polynomial, "numpy.polynomial.polynomial": poly_,
             "numpy.emath": scimath, "numpy.exceptions": np_.exceptions, "numpy.typing": np_.typing}
    special = _mod("scipy.special", **ext.SP_SPECIAL)
    splinalg = _mod("scipy.linalg", **ext.SP_LINALG)
    optimize = _mod("scipy.optimize", **ext.SP_OPTIMIZE)
    sp = _mod("scipy", special=special, linalg=splinalg, optimize=optimize, fft=np_.fft,
              integrate=_mod("scipy.integrate", trapezoid=snp.trapezoid, simpson=ext.simpson))
    shims.update({"scipy": sp, "scipy.special": special, "scipy.linalg": splinalg, "scipy.optimize": optimize,
                  "scipy.fft": np_.fft, "scipy.integrate": sp.integrate})
    shims.update(ext.mp_shims(_mod))
    shims["numexpr"] = _mod("numexpr", evaluate=ext.ne_evaluate, set_num_threads=lambda n: None)
    return shims


class Rng:
    """range() with symbolic bounds: iterating needs a loop invariant or a bound."""

    def __init__(self, *a):
        a = [asarr(x) for x in a]
        if len(a) == 1:
            a = [asarr(0), a[0], asarr(1)]
        elif len(a) == 2:
            a = [*a, asarr(1)]
        self.start, self.stop, self.step = a

    def __iter__(self):
        from .loops import iterate
        if self.step.term() is not tm.ONE:
            raise Unsupported("loop with symbolic trip count")
        return iterate(sys._getframe(1), self.start.term(), self.stop.term(), lambda i: scalar(i, "i"))

    def __len__(self):
        raise Unsupported("len of symbolic range")

    def __array__(self):
        return None

    def _sym_array(self):
        return snp.arange(self.start, self.stop, self.step)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __subclasscheck__(cls, x):
        return issubclass(x, list)


class s_list(metaclass=_ListMeta):
    """list(): of a symbolic range gives the index array, otherwise a list"""

    def __new__(cls, *a):
        return a[0]._sym_array() if a and isinstance(a[0], Rng) else list(*a)


def s_range(*a):
    vals = []
    for x in a:
        if isinstance(x, SArr):
            if x.kind not in "bi":
                raise TypeError("'float' object cannot be interpreted as an integer")
            t = x._sc()
            if t.op != "num":
                return Rng(*a)
            vals.append(int(numval(t)))
        else:
            vals.append(x)
    return builtins.range(*vals)


def s_len(x):
    if isinstance(x, SArr):
        if not x.sh:
            raise TypeError("len() of unsized object")
        return dim_out(x.sh[0])
    return builtins.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SArr) and x.is_scalar and x.kind == "i" and not x.sh)


class s_int(int, metaclass=_IntMeta):
    __sym_dtype__ = INT

    def __new__(cls, x=0, *a):
        if isinstance(x, SArr):
            r = x.astype(INT).as_scalar()
            if r.sh:
                r = scalar(r._sc(), "i")
            t = r.term()
            return int(numval(t)) if t.op == "num" else r
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SArr) and x.is_scalar and x.kind == "f" and not x.sh)


class s_float(float, metaclass=_FloatMeta):
    __sym_dtype__ = FLOAT

    def __new__(cls, x=0.0):
        if isinstance(x, SArr):
            if x.kind == "c":
                raise TypeError("can't convert complex to float")
            return scalar(x.astype(FLOAT)._sc(), "f")
        return builtins.float(x)


class _CMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.complex) or (isinstance(x, SArr) and x.is_scalar and x.kind == "c" and not x.sh)


class s_complex(complex, metaclass=_CMeta):
    __sym_dtype__ = COMPLEX

    def __new__(cls, x=0, y=None):
        if isinstance(x, SArr) or isinstance(y, SArr):
            r = asarr(x) if y is None else asarr(x) + asarr(y) * 1j
            return scalar(r.astype(COMPLEX)._sc(), "c")
        return builtins.complex(x) if y is None else builtins.complex(x, y)


class _BMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.bool) or (isinstance(x, SArr) and x.is_scalar and x.kind == "b" and not x.sh)


class s_bool(int, metaclass=_BMeta):
    __sym_dtype__ = BOOL

    def __new__(cls, x=False):
        return builtins.bool(x)


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if len(a) == 1:
            if isinstance(a[0], SArr):
                return getattr(snp, name)(a[0])
            items = list(a[0])
        else:
            items = list(a)
        if not any(isinstance(x, SArr) for x in items) or k:
            return real(items, **k)
        r = items[0]
        for x in items[1:]:
            r = (snp.maximum if name == "max" else snp.minimum)(r, x)
            if not r.sh:
                t = r.term()
                if t.op == "num" and t.sort == "I":
                    r = int(numval(t))
        return r
    return f


def s_sum(it, start=0):
    if isinstance(it, SArr) and it.sh and it.sh[0].op != "num":
        return snp.sum(it, axis=0) + start
    return builtins.sum(it, start)


def s_abs(x):
    return x.__abs__() if isinstance(x, SArr) else builtins.abs(x)


def s_all(it):
    if isinstance(it, SArr) and len(it.sh) == 1:
        return bool(snp.all(it))
    return builtins.all(it)


def s_any(it):
    if isinstance(it, SArr) and len(it.sh) == 1:
        return bool(snp.any(it))
    return builtins.any(it)


def s_sorted(it, **k):
    return builtins.sorted(it, **k)


def s_pow(a, b, *c):
    return builtins.pow(a, b, *c)


def s_round(x, n=None):
    if isinstance(x, SArr):
        return snp.rint(x)
    return builtins.round(x) if n is None else builtins.round(x, n)


# functions whose contract (established by a contract of its own) may stand for the body in the proof of a caller
STUBBABLE = {"gftool.density": ["chemical_potential", "density_iw"], "gftool.beb": ["self_root_eq"], "gftool.matrix": ["decompose_mat", "decompose_her"],
             "gftool.basis.pole": ["gf_from_moments", "gf_from_z", "gf_from_tau"],
             "gftool.hermpade": ["hermite2", "hermite2_lstsq", "pade", "pade_lstsq"], "gftool.linalg": ["lstsq_ec"],
             "gftool.polepade": ["number_poles", "poles", "zeros", "asymptotic", "residues_ols"]}


def _stubbable(path, f):
    @functools.wraps(f)
    def g(*a, **kw):
        h = W().stubs.get(path)
        return h(*a, **kw) if h is not None else f(*a, **kw)
    return g


class _While(ast.NodeTransformer):
    """while C: B  ->  for _ in <loop rule or endless>: if not C: break; B   (same semantics; gives the loop rule a place to act)"""

    def visit_While(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[])
        it = ast.Call(func=ast.Name(id="__while__", ctx=ast.Load()), args=[], keywords=[])
        new = ast.For(target=ast.Name(id="__while_var__", ctx=ast.Store()), iter=it, body=[stop, *node.body], orelse=[])
        return ast.copy_location(new, node)


def s_while():
    from .loops import find, iterate_while
    fr = sys._getframe(1)
    return iterate_while(fr) if find(fr) else itertools.repeat(None)


class Loader:
    def __init__(self, repo=None, stubs=None, loops=None):
        self.repo = repo or REPO
        self.shims = build_shims()
        self.mods = {}
        self.sources = {}
        self.loops = loops
        for k in [m for m in sys.modules if m == "gftool" or m.startswith("gftool.")]:
            del sys.modules[k]
        b = dict(vars(builtins))
        b.update(__import__=self._import, range=s_range, list=s_list, __while__=s_while, len=s_len, int=s_int, float=s_float, complex=s_complex,
                 max=_minmax("max"), min=_minmax("min"), sum=s_sum, abs=s_abs, all=s_all, any=s_any,
                 print=lambda *a, **k: None)
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"] or globals["__name__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            base = ".".join(parts)
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "gftool":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._find(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load("gftool")
        if top in ("numpy", "scipy", "mpmath", "numexpr"):
            m = self.shims.get(name)
            if m is None:
                raise Unsupported(f"import {name}")
            return m if fromlist else self.shims[top]
        if top in ("matplotlib",):
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "gftool._version":
            m = types.ModuleType(name)
            m.__version__ = version = "0.0"
            m.version = "0.0"
            m.__version_tuple__ = (0, 0)
            self.mods[name] = m
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        found = self._find(name)
        if not found:
            raise ModuleNotFoundError(name)
        path, ispkg = found
        src = open(path).read()
        self.sources[name] = (path, src)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        sys.modules[name] = m
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_While().visit(tree))
        code = compile(tree, path, "exec")
        exec(code, m.__dict__)
        for fname in STUBBABLE.get(name, ()):
            f = m.__dict__.get(fname)
            if isinstance(f, types.FunctionType):
                m.__dict__[fname] = _stubbable(f"{name}.{fname}", f)
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def get(self, path):
        """'gftool.mod.obj.attr' -> object"""
        parts = path.split(".")
        for k in range(len(parts), 0, -1):
            nm = ".".join(parts[:k])
            if self._find(nm):
                obj = self.load(nm)
                for a in parts[k:]:
                    obj = getattr(obj, a)
                return obj
        raise AttributeError(path)
