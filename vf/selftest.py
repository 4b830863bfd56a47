"""Differential test of the symbolic semantics against CPython and numpy: every function of selftest_code/snips.py is executed
symbolically on symbolic arguments that are assumed equal to concrete ones (sizes included); the value or the exception of
every path must follow to be the one CPython gives, or the path must be refutable; 'False' must not follow on the path kept.

python3-vt vf/selftest.py [names]     exit 0 unless some value is refuted (WRONG) or every path is refuted (VACUOUS)"""
import copy, os, sys, subprocess, json, pickle
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'selftest_code'))
CODE = os.path.join(HERE, 'selftest_code')


def concrete():
    """run by the interpreter that runs the real code (its numpy): name -> [(args, outcome)] as plain data"""
    import numpy as np, snips

    def plain(x):
        if isinstance(x, np.ndarray):
            return ('arr', list(x.shape), [int(y) for y in x.ravel()])
        if isinstance(x, (list, tuple)):
            return ('seq', [plain(y) for y in x])
        if isinstance(x, (bool, np.bool_)):
            return ('bool', bool(x))
        if isinstance(x, (int, np.integer)):
            return ('int', int(x))
        if isinstance(x, np.generic):
            return ('int', int(x))
        raise TypeError(type(x))
    out = {}
    for n, cs in snips.CASES.items():
        out[n] = []
        for args in cs:
            a = copy.deepcopy(args)
            try:
                r = ('value', plain(getattr(snips, n)(*a)))
            except Exception as e:
                r = ('raise', type(e).__name__)
            out[n].append(([plain(x) for x in args], r))
    return out


def main():
    os.environ['VF_REPO'] = CODE
    data = json.loads(subprocess.check_output(['/opt/venv/bin/python', __file__, '--concrete']))
    import interp
    interp.REPO = CODE
    import z3, prover, lemmas as L
    from interp import Interp, PyList, Seq, Arr, PyRaise, ReturnEx
    from core import Unsupported, iv, zb, And, is_z, REG, SUM
    import contract
    sel = sys.argv[1:] or list(data)

    def make(I, p):
        if p[0] == 'int':
            x = I.fresh('x')
            I.add(x == p[1])
            return x
        if p[0] == 'arr':
            sh = []
            for d in p[1]:
                n = I.fresh('n')
                I.add(n == d)
                sh.append(n)
            f = I.fresh_fn('a', *([z3.IntSort()] * (len(sh) + 1)))
            import itertools
            for ix, v in zip(itertools.product(*[range(d) for d in p[1]]), p[2]):
                I.add(f(*ix) == v)
            return Arr(tuple(sh), lambda *ix: f(*[iv(i) for i in ix]))
        if p[0] == 'seq':
            n = I.fresh('n')
            I.add(n == len(p[1]))
            f = I.fresh_fn('l', z3.IntSort(), z3.IntSort())
            for i, v in enumerate(p[1]):
                I.add(f(i) == v[1])
            return PyList(seq=Seq(n, lambda i: f(iv(i))))
        raise ValueError(p)

    def equal(I, r, p):
        if p[0] in ('int', 'bool'):
            if p[0] == 'bool':
                return zb(I.truth(r)) == z3.BoolVal(p[1]) if not isinstance(r, bool) else z3.BoolVal(r == p[1])
            return iv(r) == p[1]
        if p[0] == 'arr':
            if not isinstance(r, Arr) or r.ndim != len(p[1]):
                return None
            import itertools
            fs = [iv(d) == e for d, e in zip(r.shape, p[1])]
            for ix, v in zip(itertools.product(*[range(d) for d in p[1]]), p[2]):
                e = r.get(*[z3.IntVal(i) for i in ix])
                fs.append(iv(e) == v)
            return And(*fs)
        sq = I.to_seq(r)
        fs = [iv(sq.n) == len(p[1])]
        for i, v in enumerate(p[1]):
            e = equal(I, sq.at(i), v)
            if e is None:
                return None
            fs.append(e)
        return And(*fs)

    def unfold(forms):
        out = []
        for t in contract.all_apps([f for f in forms if is_z(f)]):
            nm = t.decl().name()
            ps = t.children()[:-1]
            if nm in REG.decl2sum:
                s = REG.decl2sum[nm]
                out += [s.app(ps, z3.IntVal(i + 1)) == s.app(ps, z3.IntVal(i)) + s.at(ps, z3.IntVal(i)) for i in range(5)]
            m = REG.decl2mask.get(nm)
            if m is not None:
                out += [m.cnt(*ps, z3.IntVal(i + 1)) == m.cnt(*ps, z3.IntVal(i)) + z3.If(m.mask(ps, z3.IntVal(i)), 1, 0) for i in range(5)]
        return out
    tally = dict(same=0, open=0, unsupported=0, WRONG=0, VACUOUS=0)
    for n in sel:
        for args, (kind, want) in data[n]:
            I = Interp({})
            I.exits = []
            ends = []

            def body():
                fn = I.get('snips.' + n)
                a = [make(I, p) for p in args]
                try:
                    r = I.exec_call_body(fn, a, {})
                except PyRaise as e:
                    ends.append((list(I.assume), 'raise', e.exc.cls.name))
                    return
                try:
                    g = equal(I, r, want) if kind == 'value' else None
                except Unsupported:
                    raise
                ends.append((list(I.assume), 'value', g))
            try:
                I.explore('snips.' + n, body)
            except Unsupported as e:
                tally['unsupported'] += 1
                print(f'   outside the subset: {n}{args}: {str(e)[:80]}')
                continue
            except Exception as e:
                tally['unsupported'] += 1
                print(f'   generator error: {n}{args}: {type(e).__name__} {str(e)[:80]}')
                continue
            from interp import Obligation
            obs = []
            for ctx, k, g in ends:
                ctx = [c for c in ctx if c is not True]
                h = unfold(ctx + ([g] if is_z(g) else []))
                good = (k == 'value' and kind == 'value' and g is not None) or (k == 'raise' and kind == 'raise' and g == want)
                goal = g if (good and k == 'value') else (None if good else z3.BoolVal(False))
                o = dict(no=Obligation('false', ctx + h, z3.BoolVal(False), n))
                if goal is not None and good:
                    o['eq'] = Obligation('eq', ctx + h, goal, n)
                    o['ne'] = Obligation('ne', ctx + h, z3.Not(goal), n)
                o['good'] = good
                obs.append(o)
            # obligations of the paths themselves (index in range, asserts)
            side = [ob for ob in I.obls]
            allo = [x for o in obs for x in o.values() if isinstance(x, Obligation)] + side
            prover.run_pool(allo, procs=8, timeout=4)
            pr = lambda x: x.status == 'proved'
            sidebad = [x for x in side if not pr(x)]
            live = [o for o in obs if not pr(o['no'])]
            what = None
            if any('ne' in o and pr(o['ne']) for o in live):
                what = 'WRONG'
            elif not live and not sidebad:
                what = 'VACUOUS'
            elif kind == 'raise':
                # an exception shows either as a raised one or as an obligation that cannot be proved
                what = 'same' if all(o['good'] for o in live) or sidebad else ('WRONG' if all(not o['good'] for o in live) and not sidebad and live else 'open')
                if what == 'WRONG' and any('may' in str(x.name) for x in side):
                    what = 'open'
            elif all(o['good'] and ('eq' not in o or pr(o['eq'])) for o in live) and not sidebad:
                what = 'same'
            else:
                what = 'open'
            tally[what] += 1
            if what != 'same':
                print(f'   {what}: {n}{args} CPython: {kind} {want}; paths kept: {[(o["good"], o.get("eq") and o["eq"].status) for o in live]} '
                      f'open: {[x.name for x in sidebad][:3]}', flush=True)
    print(f'selftest: {tally}')
    return 1 if tally['WRONG'] or tally['VACUOUS'] else 0


if __name__ == '__main__':
    if '--concrete' in sys.argv:
        print(json.dumps(concrete()))
    else:
        sys.exit(main())
