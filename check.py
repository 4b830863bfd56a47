#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]

1. generates and discharges every proof obligation of the contracts the property rests on, from /repo's current source;
2. runs the concrete cases of the property on the real code (replay of counterexamples, bounded stand-in);
3. writes evidence/<id>.json and reports.  Exit 0 / exit 1 with a VIOLATION line."""
import argparse, fcntl, importlib, glob, json, multiprocessing as mp, os, pickle, signal, subprocess, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VF = os.path.join(HERE, 'vf')
sys.path.insert(0, VF)
CONC_PY = '/opt/venv/bin/python'
TRUSTED = [
    'z3 5.3 (SMT solver) and its Python API',
    'vf/interp.py, vf/npm.py, vf/strs.py: symbolic semantics of the Python subset and of the numpy/heapq/itertools/functools functions used '
    '(checked against CPython and numpy on sampled inputs by vf/selftest.py, not proved)',
    'vf/core.py, vf/lemmas.py: summation and enumeration symbols; the general lemmas are proved by induction on every run, the matching of '
    'their instances to them is trusted',
]
ASSUME = [
    'integers are mathematical: int8 overflow of numpy is not modelled (the stated domain keeps every stored value within 0..127; the '
    'concrete cases run the real int8 code)',
    'termination of loops and generators is not proved (partial correctness); the concrete cases bound the running time',
    'Python semantics of the executed subset, single thread, no monkey patching; memory exhaustion and recursion limits ignored',
]


def start_conc(pid, tier, seed, seconds, out, procs):
    return subprocess.Popen([CONC_PY, os.path.join(HERE, 'conc', 'search.py'), pid, out, '--seconds', str(seconds), '--seed', str(seed),
                             '--tier', tier, '--procs', str(procs)], stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'), start_new_session=True)


def load():
    import interp                                   # noqa
    for f in sorted(glob.glob(os.path.join(VF, 'contracts', '*.py'))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    import contract
    return contract


def unit_worker(name, wr, timeout, wall, retry):
    """child process: generate, discharge, send the result"""
    import contract, prover, z3, lemmas
    t0 = time.time()
    I, err = contract.generate(name)
    gen = time.time() - t0
    obs = I.obls
    prover.run_pool(obs, procs=7, timeout=timeout, wall=wall)
    bad = [o for o in obs if o.status != 'proved']
    if bad and err is None and retry and time.time() - t0 < wall:
        first = {id(o): (o.status, o.by) for o in bad}
        for o in bad:
            o.status = None
            prover.add_sum_hints(o)
        prover.run_pool(bad, procs=7, timeout=3 * timeout, wall=max(30, wall - (time.time() - t0)))
    if err is None and any('inferred invariant' in o.name and o.status != 'proved' for o in obs):
        err = 'outside the verified subset: no invariant inferred for a loop'
    cover = None
    if err is None:
        cover = 0
        for e in I.exits[:8]:
            s = z3.Solver()
            s.set('timeout', 2000)
            s.set('smt.mbqi', False)
            fs = prover.tidy(e)
            s.add(*fs)
            s.add(*lemmas.axioms_for(fs))
            if s.check() != z3.unsat:
                cover += 1
                break
    res = dict(name=name, err=err, gen=gen, wall=time.time() - t0, cover=cover, paths=len(I.exits),
               obls=[(o.name, o.status, o.time, str(o.by)[:300], str(o.goal)[:1500] if o.status != 'proved' else None) for o in obs],
               used=sorted(I.used_contracts), inlined=sorted(I.inlined), builtins=sorted(I.builtin_used), notes=I.notes)
    b = pickle.dumps(res)
    with os.fdopen(wr, 'wb') as f:
        f.write(b)


def run_units(names, timeout, wall, retry=True, width=4):
    out, live, todo = {}, {}, list(names)
    import select
    end = time.time() + wall
    while todo or live:
        while todo and len(live) < width:
            n = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    unit_worker(n, w, timeout, max(20, end - time.time()), retry)
                except BaseException as e:          # noqa
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (n, pid, b'')
        rs, _, _ = select.select(list(live), [], [], 5)
        for r in rs:
            n, pid, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                live[r] = (n, pid, buf + b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            out[n] = pickle.loads(buf) if buf else dict(name=n, err='the generator failed', obls=[], gen=0, wall=0, cover=None, paths=0, used=[],
                                                        inlined=[], builtins=[], notes={})
        if time.time() > end + 60:
            for r, (n, pid, buf) in live.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                out[n] = dict(name=n, err='time budget', obls=[], gen=0, wall=wall, cover=None, paths=0, used=[], inlined=[], builtins=[], notes={})
            break
    return out


def lemma_proofs():
    import lemmas
    return lemmas.check_proofs()


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: ') and f'property={pid} ' in line:
                out.append(line[len('finding: '):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--noconc', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    thorough = tier == 'thorough'
    outf = os.path.join(HERE, 'replay', f'.search-{pid}.json')

    def finish(p):
        p.wait()
        try:
            return json.load(open(outf))
        except Exception:
            err = open(outf + '.err', 'rb').read()
            return {'violation': None, 'complete': False, 'evaluations': 0, 'distinct': 0, 'kinds': {}, 'samples': [], 'errors': 1,
                    'error_text': (err or b'').decode(errors='replace')[-2000:], 'wall_s': 0, 'timeouts': 0}

    # concrete cases run beside the proof
    if os.path.exists(outf):
        os.remove(outf)
    C = load()
    import prover
    prover.SLOTS = mp.get_context('fork').Semaphore(6)
    names = list(dict.fromkeys(C.PROPS.get(pid, [])))
    lp = lemma_proofs() if names else []
    first = None if a.noconc else start_conc(pid, tier, seed, 300 if thorough else 100, outf, 3)
    # contracts used at calls must themselves be checked: the units are closed under "calls a contracted function"
    done = {}
    todo = list(names)
    budget = 420 if not thorough else 2400
    if todo:
        while todo:
            r = run_units(todo, timeout=(12 if not thorough else 40), wall=max(60, budget - (time.time() - t0)))
            done.update(r)
            todo = sorted({u for x in r.values() for u in x['used'] if u in C.UNITS} - set(done))
    cr = finish(first) if first else {'violation': None, 'complete': True, 'evaluations': 0, 'distinct': 0, 'kinds': {}, 'samples': [], 'errors': 0,
                          'timeouts': 0, 'wall_s': 0}
    obls = [(n, *o) for n, x in done.items() for o in x['obls']]
    lem_bad = [n for n, s in lp if s != 'unsat']
    failed = [o for o in obls if o[2] != 'proved']
    unsupported = {n: x['err'] for n, x in done.items() if x['err']}
    # an obligation of a function the generator could not finish is not an alarm: that function falls back to the bounded cases
    alarm = [o for o in failed if o[0] not in unsupported]
    vac = [n for n, x in done.items() if not x['err'] and (x['cover'] == 0 or not x['obls'])]
    deeper = None
    viol = cr.get('violation')
    if alarm and not viol and not a.noconc:
        deeper = finish(start_conc(pid, 'thorough', seed + 1000, 150, outf, 7))
        viol = deeper.get('violation')
    lines, code, kind = [], 0, None
    rp = os.path.join(HERE, 'replay', f'{pid}.json')
    if viol:
        json.dump({'property': pid, 'case': viol['case'], 'detail': viol['detail'],
                   'failed_obligations': [{'unit': o[0], 'obligation': o[1], 'status': o[2], 'output': o[4], 'goal': o[5]} for o in alarm][:20],
                   'replay': f'{CONC_PY} {HERE}/conc/search.py --replay {rp}'}, open(rp, 'w'), indent=1)
        lines.append(f'VIOLATION property={pid} replay={rp}')
        lines.insert(0, f'failing input: {str(viol["detail"])[:600]}')
        for o in alarm[:5]:
            lines.insert(0, f'failed obligation: {o[1]} ({o[2]})')
        code, kind = 1, 'input'
    elif alarm or lem_bad or vac:
        json.dump({'property': pid, 'case': None, 'detail': 'no failing input found',
                   'failed_obligations': [{'unit': o[0], 'obligation': o[1], 'status': o[2], 'output': o[4], 'goal': o[5]} for o in alarm][:20],
                   'lemmas': lem_bad, 'vacuous': vac}, open(rp, 'w'), indent=1)
        for o in alarm[:8]:
            lines.append(f'failed obligation: {o[1]} ({o[2]}: {o[4][:120]})')
        for n in vac:
            lines.append(f'vacuous: {n}')
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        code, kind = 1, 'obligation'
    elif cr.get('errors') and not cr.get('evaluations'):
        lines.append('the concrete cases did not run: ' + str(cr.get('error_text') or cr.get('first_error'))[:500])
        code = 2
    if code == 0:
        for k in known_findings(pid):
            lines.append('KNOWN-FINDING: ' + k)
    ok = [o for o in obls if o[2] == 'proved']
    backends = {}
    for o in ok:
        b = o[4].split('/')[0]
        backends[b] = backends.get(b, 0) + 1
    fn_units = [n for n, x in done.items() if C.UNITS[n].kind == 'function' and not x['err']]
    all_inlined = sorted({i for x in done.values() for i in x['inlined']})
    cov = {
        'obligations': len(obls), 'discharged': len(ok),
        'checker_cmd': f'cd {HERE} && /opt/veriftools/pyvenv/bin/python check.py {pid} --tier {tier}',
        'trusted_base': TRUSTED,
        'functions_under_contract': fn_units,
        'functions_inlined_into_their_callers': [i for i in all_inlined if i not in fn_units],
        'lemma_units': [n for n, x in done.items() if C.UNITS[n].kind == 'lemma' and not x['err']],
        'general_lemmas_proved_by_induction': len([1 for n, s in lp if s == 'unsat']),
        'bounded_stand_in_only': unsupported,
        'discharged_by': backends,
        'solver_seconds': round(sum(o[3] or 0 for o in obls), 2),
        'slowest_obligation_seconds': round(max([o[3] or 0 for o in obls] or [0]), 2),
        'units': {n: {'obligations': len(x['obls']), 'discharged': len([1 for o in x['obls'] if o[1] == 'proved']), 'paths': x['paths'],
                      'exit_reachable': x['cover'], 'seconds': round(x['wall'], 1), 'callee_contracts': x['used']} for n, x in done.items()},
        'modelled_library_functions': sorted({b for x in done.values() for b in x['builtins']}),
        'evaluations': cr.get('evaluations', 0) + (deeper or {}).get('evaluations', 0), 'distinct_nontrivial': cr.get('distinct', 0),
        'rule': 'bounded companion, never counted as proof: cases of conc/cases.py for this property run on the real code against independent '
                'oracles; distinct = different case descriptions that were not skipped as outside the domain; kinds: '
                + json.dumps(cr.get('kinds', {})),
        'samples': cr.get('samples', [])[:6],
        'companion_complete': cr.get('complete'), 'companion_seconds': cr.get('wall_s'),
    }
    if not names:
        cov['explanation'] = 'no obligations: bounded cases only'
    try:
        level = {c['property']: c['level'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}[pid]
    except Exception:
        level = 'exploration'
    if not names or unsupported:
        level = 'exploration'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + sorted({n for x in done.values() for n in x['notes'].values()}),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if code == 1 else 0}
    if deeper:
        ev['coverage']['deeper_search'] = {k: deeper.get(k) for k in ('evaluations', 'distinct', 'kinds', 'wall_s')}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    for f in (outf, outf + '.err'):
        if os.path.exists(f):
            os.remove(f)
    for n, e in unsupported.items():
        print(f'bounded stand-in for {n}: {e}')
    print(f'{pid}: {len(ok)}/{len(obls)} obligations discharged, {len(fn_units)} functions under contract, '
          f'{cr.get("evaluations", 0)} concrete cases, {time.time() - t0:.1f} s')
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
