"""The command `python -m srg v k l u`: checks the parameters, enumerates from the start matrix, sorts and prints every matrix once."""
import os
from contract import *
import interp
import strs
from interp import NS, Module, Env, Builtin, Opaque, PyRaise
from contracts.c16 import ints, valid_params
from contracts import c01, c12


def enumeration_called(self, I, a):
    """solve, called by the command: its precondition, then a sequence of matrices of unknown length"""
    g = I.ghost
    if 'command' not in g:
        raise Unsupported('solve called by another function')
    v, k, l, u = g['command']
    s = a['srg']
    rows, cols, f, m = c01.matrix_of(I, s)
    seed = g.get('seed')
    I.prove('the enumeration starts with the start matrix of the given parameters',
            And(rows == 2, cols == v, FA(lambda i, j: Implies(And(rng(i, z3.IntVal(2)), rng(j, v)), f(i, j) == iv(seed.get(i, j))), 2)) if seed is not None else False)
    g['enumerations'] = g.get('enumerations', 0) + 1
    N = I.fresh('N')
    I.add(N >= 0)
    A = I.fresh_fn('A', Z, Z, Z, Z)
    sq = Seq(N, lambda t: Arr((v, v), lambda i, j: A(iv(t), iv(i), iv(j)), tag={'enumerated': iv(t)}))
    g['enumerated'] = sq
    return sq


def sorting_called(self, I, a):
    """sort, called by the command: a rearrangement of what it is given (contract of sort, C12)"""
    g = I.ghost
    if 'command' not in g:
        raise Unsupported('sort called by another function')
    sq = I.to_seq(a['lst'])
    t = I.fresh('t')
    e, w = sq.at(t), g.get('enumerated')
    src = e.tag.get('enumerated') if isinstance(e, Arr) else None
    I.prove('all enumerated matrices are sorted', False if w is None or src is None else And(iv(sq.n) == iv(w.n), Implies(rng(t, sq.n), iv(src) == t)))
    N = w.n
    p = I.fresh_fn('place', Z, Z)
    g['sortings'] = g.get('sortings', 0) + 1
    B = I.fresh_fn('B', Z, Z, Z, Z)
    v = g['command'][0]
    return PyList(seq=Seq(N, lambda t: Arr((v, v), lambda i, j: B(iv(t), iv(i), iv(j)), tag={'sorted': iv(t)})))


c01.Solve.at_call = enumeration_called
c12.Sort.at_call = sorting_called


@lemma('the command prints the sorted enumeration', 'C02', 'C03')
def command(I):
    """runs the body of srg/__main__.py with valid parameters; _seed, assert_srg, solve and sort through their contracts"""
    v, k, l, u = p = ints(I, 'v', 'k', 'l', 'u')
    I.add(valid_params(*p))
    out = Obj(UserClass('ghost', {}, [], None))
    out.attrs['printed'] = z3.IntVal(0)
    I.ghost.update(command=p, out=out)
    I.frames.append({'asserts': True})

    def printed(I2, a, kw):
        for n in ('fg', 'bold', 'sep', 'end', 'flush', 'color', 'nl'):
            kw.get(n)
        for x in a:
            m = getattr(x, 'of', x)
            if isinstance(m, Opaque) or not (scalar(m) or isinstance(m, (str, Arr, strs.SymStr))):
                raise Unsupported('what is printed')
            if isinstance(m, Arr):
                t = m.tag.get('sorted', m.tag.get('enumerated'))
                I.prove('the matrix printed is the next one', False if t is None else iv(t) == iv(out.attrs['printed']))
                I.setattr(out, 'printed', norm(iv(out.attrs['printed']) + 1))

    from contracts.c16 import Seed
    call = Seed.at_call

    def seed_called(self, I2, a):
        r = call(self, I2, a)
        I.prove('the start matrix is that of the given parameters', And(*[iv(x) == y for x, y in zip(a.values(), p)]))
        I.ghost['seed'] = r
        return r
    old, old_print = dict(I.ext_modules), I.builtins['print']
    d = dict(I.ext_modules['sys'].d)
    d['argv'] = PyList(['prog'] + [strs.make([x]) for x in p])
    I.ext_modules['sys'] = NS('sys', d)
    I.ext_modules['click'] = NS('click', {'secho': Builtin('click.secho', printed), 'clear': Builtin('click.clear', lambda I2, a, kw: None),
                                          'echo': Builtin('click.echo', printed)})
    I.builtins['print'] = Builtin('print', printed)
    Seed.at_call = seed_called
    try:
        m = Module('srg.__main__')
        m.pkg = 'srg'
        tree = ast.parse(open(os.path.join(interp.REPO, 'srg', '__main__.py')).read())
        env = Env(None, m.env)
        m.envobj = env
        m.env['__name__'] = '__main__'
        m.env['__package__'] = 'srg'
        I.exec_block(tree.body, env, m)
    except PyRaise as e:
        I.prove(f'valid parameters are accepted ({e.exc.cls.name})', False)
    finally:
        Seed.at_call = call
        I.builtins['print'] = old_print
        I.ext_modules.clear()
        I.ext_modules.update(old)
    I.prove('one enumeration', I.ghost.get('enumerations') == 1 and I.ghost.get('sortings', 0) <= 1)
    I.prove('every matrix is printed once, in order', iv(out.attrs['printed']) == iv(I.ghost['enumerated'].n) if 'enumerated' in I.ghost else False)
