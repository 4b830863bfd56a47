"""search.py PID OUT.json [--seconds N] [--seed S] [--tier T] : run the concrete cases of a property on the real code.
search.py --replay FILE : run the case stored in a replay file again (exit 1 if it still fails)."""
import argparse, json, multiprocessing as mp, os, random, signal, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 90


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def one(case):
    import cases
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT if case.get('limit') is None else case['limit'])
    try:
        r = cases.run(case)
        return ('bad', r) if r else ('ok', None)
    except cases.Skip as e:
        return 'skip', str(e)
    except Timeout:
        return 'timeout', None
    except RecursionError as e:
        return 'bad', f'{case}: RecursionError'
    except Exception as e:
        return 'error', traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(arg):
    i, case = arg
    s, r = one(case)
    return i, case, s, r


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        if d.get('case') is None:
            print(json.dumps(d, indent=1)[:5000])
            sys.exit(2)
        s, r = one(d['case'])
        print(s, r)
        sys.exit(1 if s in ('bad', 'timeout') else 0)
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('out')
    ap.add_argument('--seconds', type=float, default=100); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick'); ap.add_argument('--procs', type=int, default=7)
    a = ap.parse_args()
    import cases
    t0 = time.time()
    res = {'pid': a.pid, 'evaluations': 0, 'kinds': {}, 'skipped': 0, 'timeouts': 0, 'errors': 0, 'samples': [], 'violation': None,
           'complete': False, 'distinct': 0}
    if cases.IMPORT_ERROR:
        res['violation'] = {'case': {'kind': 'import'}, 'detail': f'importing srg fails: {cases.IMPORT_ERROR}'}
        json.dump(res, open(a.out, 'w'))
        return
    gen = cases.GEN[a.pid](random.Random(a.seed), a.tier)
    seen = set()
    deadline = t0 + a.seconds
    with mp.Pool(a.procs) as pool:
        def feed():
            for i, c in enumerate(gen):
                if time.time() > deadline:
                    return
                yield i, c
            res['complete'] = True
        # bounded feeding, so that the time limit is respected
        import collections
        pend = collections.deque()
        src = feed()
        alive = True
        done = False
        while not done:
            while alive and len(pend) < 4 * a.procs * 4:
                try:
                    pend.append(pool.apply_async(worker, (next(src),)))
                except StopIteration:
                    alive = False
            if not pend:
                break
            progressed = False
            for _ in range(len(pend)):
                f = pend.popleft()
                if f.ready():
                    progressed = True
                    i, case, s, r = f.get()
                    if s == 'skip':
                        res['skipped'] += 1
                        continue
                    res['evaluations'] += 1
                    res['kinds'][case['kind']] = res['kinds'].get(case['kind'], 0) + 1
                    seen.add(hash(json.dumps(case, sort_keys=True, default=str)))
                    if len(res['samples']) < 3 and len(json.dumps(case, default=int)) < 600:
                        res['samples'].append(case)
                    if s == 'error':
                        res['errors'] += 1
                        res['error'] = {'case': case, 'trace': r}
                    if s == 'timeout':
                        res['timeouts'] += 1
                        r = f'no result within {CASE_LIMIT} s: {json.dumps(case, default=int)[:300]}'
                        if case.get('limit') is None and res['violation'] is None and a.tier == 'quick':
                            res['violation'] = {'case': case, 'detail': r}
                            done = True
                            break
                    if s == 'bad':
                        res['violation'] = {'case': case, 'detail': r}
                        done = True
                        break
                else:
                    pend.append(f)
            if time.time() > deadline + 5 and not done:
                # give running cases a moment, then stop
                if time.time() > deadline + CASE_LIMIT + 15 or not progressed and time.time() > deadline + 20:
                    break
            if not progressed:
                time.sleep(.01)
        pool.terminate()
    res['distinct'] = len(seen)
    res['wall_s'] = round(time.time() - t0, 2)
    json.dump(res, open(a.out, 'w'), default=int)


if __name__ == '__main__':
    main()
