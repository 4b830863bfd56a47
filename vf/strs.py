"""Symbolic text: concatenations of literal pieces and decimal renderings of non-negative integer terms."""
import sys, re
import z3
from core import *


def V():
    return sys.modules['interp']


class SymStr:
    """list of parts: str literals and z3 Int terms (rendered in decimal)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                for q in p.parts:
                    _push(out, q)
            else:
                _push(out, p)
        self.parts = out

    def eq_val(self, I_, other):
        o = other.parts if isinstance(other, SymStr) else ([other] if isinstance(other, str) else None)
        if o is None:
            return False
        return str_eq(self.parts, o)

    def attr(self, I_, n):
        B = V().Builtin
        if n == 'split':
            def split(I2, a, k):
                sep = a[0] if a else None
                maxs = a[1] if len(a) > 1 else k.get('maxsplit')
                if not isinstance(sep, str) or len(sep) != 1 or sep.isdigit() or sep == '-' or maxs is not None:
                    raise Unsupported('split of symbolic text')
                pieces, cur = [], []
                for p in self.parts:
                    if isinstance(p, str):
                        bits = p.split(sep)
                        cur.append(bits[0])
                        for b in bits[1:]:
                            pieces.append(make(cur))
                            cur = [b]
                    else:
                        cur.append(p)
                pieces.append(make(cur))
                return V().PyList(pieces)
            return B('str.split', split)
        if n == 'startswith':
            def sw(I2, a, k):
                if self.parts and isinstance(self.parts[0], str) and isinstance(a[0], str):
                    if len(self.parts[0]) >= len(a[0]) or not a[0].startswith(self.parts[0]):
                        return self.parts[0].startswith(a[0])
                raise Unsupported('startswith of symbolic text')
            return B('str.startswith', sw)
        raise Unsupported(f'symbolic text .{n}')

    def to_int(self, I_):
        if len(self.parts) == 1 and is_z(self.parts[0]):
            return self.parts[0]
        raise Unsupported('int of symbolic text')

    def add(self, I_, b):
        return make(self.parts + (b.parts if isinstance(b, SymStr) else [b]))

    def radd(self, I_, a):
        return make([a] + self.parts)

    def truth(self, I_):
        return True if any(isinstance(p, str) and p or is_z(p) for p in self.parts) else False

    def __repr__(self):
        return 'SymStr' + repr(self.parts)


def _push(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def make(parts):
    M = V()
    ps = []
    for p in parts:
        if isinstance(p, bool):
            p = str(p)
        if isinstance(p, int):
            p = str(p)
        if isinstance(p, str) or isinstance(p, SymStr):
            ps.append(p)
        elif is_z(p) and z3.is_int(p):
            ps.append(p)
        else:
            return M.Opaque('text')
    s = SymStr(ps)
    if all(isinstance(p, str) for p in s.parts):
        return ''.join(s.parts)
    return s


def str_eq(a, b):
    """equality of two renderings; integers are non-negative, so each renders as a non-empty run of digits"""
    if len(a) == len(b) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(a, b)):
        lits_ok = True
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, str):
                if x != y:
                    lits_ok = False
                # a literal next to a number must not begin/end with a digit for the split to be unique
            else:
                cs.append(x == y)
        def sep_ok(ps):
            for i, p in enumerate(ps):
                if isinstance(p, str):
                    if i > 0 and not isinstance(ps[i - 1], str) and p[0].isdigit():
                        return False
                    if i + 1 < len(ps) and not isinstance(ps[i + 1], str) and p[-1].isdigit():
                        return False
                elif i > 0 and not isinstance(ps[i - 1], str):
                    return False
            return True
        if sep_ok(a) and sep_ok(b):
            return And(*cs) if lits_ok else False
    raise Unsupported('comparison of symbolic texts')


class FakeModule:
    """the module importlib would return for a given name"""

    def __init__(self, name):
        self.name = name

    def attr(self, I_, n):
        return ModAttr(self, n)


class ModAttr:
    def __init__(self, mod, n):
        self.mod, self.n = mod, n


def modules(I0, mods):
    M = V()

    def import_module(I_, a, k):
        I_.imports.append(a[0])
        if I_.choose(2) == 1:           # no such module
            raise M.PyRaise(I_.make_exc('ModuleNotFoundError'))
        return FakeModule(a[0])
    mods['importlib'] = M.NS('importlib', {'import_module': M.Builtin('importlib.import_module', import_module)})

    def iter_modules(I_, a, k):
        n = I_.fresh('nmod')
        I_.add(n >= 0)
        return M.Seq(n, lambda i: ModInfo(iv(i)), {'modules of': a[0] if a else k.get('path')})
    mods['pkgutil'] = M.NS('pkgutil', {'iter_modules': M.Builtin('pkgutil.iter_modules', iter_modules)})


class ModInfo:
    """what pkgutil.iter_modules yields for its i-th module"""

    def __init__(self, i):
        self.i = i

    def val_map(self, f):
        return ModInfo(iv(f(self.i)))

    def attr(self, I_, n):
        if n == 'name':
            return AbsName(self.i)
        if n == 'ispkg':
            return z3.Function('mod_ispkg', z3.IntSort(), z3.BoolSort())(self.i)
        raise Unsupported(f'module info .{n}')


class AbsName:
    """the (unknown) name of the i-th module"""

    def __init__(self, i):
        self.i = i

    def val_map(self, f):
        return AbsName(iv(f(self.i)))

    def attr(self, I_, n):
        if n == 'startswith':
            return V().Builtin('str.startswith', lambda I2, a, k: starts(self.i, a[0]))
        raise Unsupported(f'module name .{n}')


def starts(i, p):
    if not isinstance(p, str):
        raise Unsupported('startswith')
    return z3.Function(f'starts_{p}', z3.IntSort(), z3.BoolSort())(i)
