"""developer's view: python3-vt dev.py unit [timeout]"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import interp
from contract import *
import prover, importlib, glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts', '*.py'))):
    importlib.import_module('contracts.' + os.path.basename(f)[:-3])


def main():
    names = sys.argv[1].split(',')
    if names == ['all']:
        names = list(UNITS)
    to = float(sys.argv[2]) if len(sys.argv) > 2 else 10
    pat = sys.argv[3] if len(sys.argv) > 3 else None
    todo = []
    for n in names:
        todo += PROPS[n] if n in PROPS else [n]
    for n in dict.fromkeys(todo):
        t0 = time.time()
        if os.environ.get('TB'):
            I = Interp(CONTRACTS); I.exits = []
            UNITS[n].run(I)
            err = None
        else:
            I, err = generate(n)
        g = time.time() - t0
        obs = I.obls
        if pat:
            obs = [o for o in obs if pat in o.name]
        prover.run_pool(obs, timeout=to)
        if os.environ.get('VAC'):
            import prover as P
            for o in obs:
                cx = P.tidy(o.ctx)
                sv = z3.Solver(); sv.set('timeout', 1500); sv.set('smt.mbqi', False)
                sv.add(*cx); sv.add(*L.axioms_for(cx))
                if sv.check() == z3.unsat:
                    print('   VACUOUS', o.name)
        bad = [o for o in obs if o.status != 'proved']
        if bad and os.environ.get('RETRY'):
            for o in bad:
                o.status = None
                print('   again', o.name, prover.add_sum_hints(o))
            prover.run_pool(bad, timeout=to)
        bad = [o for o in obs if o.status != 'proved']
        print(f'{n}: {len(obs)} obligations, {len(bad)} open, gen {g:.1f}s, total {time.time()-t0:.1f}s, exits {len(I.exits)}', err or '')
        for o in bad[:25]:
            print('   OPEN', o.name, o.status, f'{o.time:.1f}', str(o.by)[:100])
            if os.environ.get('SHOW'):
                for c in o.ctx: print('       ', str(c)[:400])
                print('     |-', str(o.goal)[:600])
        slow = sorted(obs, key=lambda o: -(o.time or 0))[:3]
        print('   slowest', [(o.name, round(o.time, 1), str(o.by)[:12]) for o in slow if o.time > 1])
        cov = 0
        for e in I.exits[:6]:
            s = z3.Solver(); s.set('timeout', 3000); s.set('smt.mbqi', False)
            s.add(*prover.tidy(e)); s.add(*L.axioms_for(prover.tidy(e)))
            r = s.check()
            cov += r != z3.unsat
        print('   exits not refuted', cov, 'of', min(6, len(I.exits)), 'used', sorted(I.used_contracts), 'inlined', sorted(I.inlined))


main()
