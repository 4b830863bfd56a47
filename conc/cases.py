"""Concrete contract search: cases (JSON-able inputs) per property and their oracles on the real code.

run(case) -> None (contract held), a string (violated: what failed), or raises Skip (interface not there / domain).
"""
import itertools, random, os, sys, json, copy, math, subprocess, tempfile, shutil
from fractions import Fraction
import numpy as np
import lib
from lib import *

try:
    from srg import solver, srg as srgm, gauss_elim, unique, bounds as bnds, fork, partition, sorter, utils, database
    from srg.srg import Question, Answer, NoSolution, SRG
    IMPORT_ERROR = None
except Exception as e:                                   # reported by search.py
    IMPORT_ERROR = repr(e)

HERE = os.path.dirname(os.path.abspath(__file__))


class Skip(Exception):
    pass


def ints(m):
    return np.array(m).astype(np.int64).tolist()


def shapeok(A, C):
    A = np.array(A, dtype=np.int8)
    return A.reshape(len(A), C)


# ===================================================================================== whole enumerations: C01 C02 C03 C07
def fast_params(n, rng):
    """parameter sets with more than 17 vertices whose enumeration took under a second when this list was made"""
    try:
        ps = [tuple(p) for p in json.load(open(os.path.join(HERE, 'fast_params.json')))]
    except OSError:
        ps = []
    rng.shuffle(ps)
    return ps[:n]


def degenerate(vmin, vmax):
    out = []
    for v in range(vmin, vmax + 1):
        for s in range(2, v // 2 + 1):
            if v % s == 0:
                out += [(v, s - 1, s - 2, 0), (v, v - s, v - 2 * s, v - s)]
    return [p for p in out if is_valid(*p)]


ENUM_CORE = [(25, 8, 3, 2), (36, 10, 4, 2), (21, 10, 3, 6), (18, 12, 6, 12)]
ENUM_SLOW = [(21, 10, 5, 4), (49, 12, 5, 2)]


def gen_enum(pid, rng, tier):
    small = valid_params(17)
    rng.shuffle(small)
    small.sort(key=lambda p: p in ((17, 12, 9, 6), (17, 10, 6, 5)), reverse=True)
    for p in small:
        yield {'kind': 'enum', 'pid': pid, 'p': p}
    for p in ENUM_CORE:
        yield {'kind': 'enum', 'pid': pid, 'p': p}
    if pid in ('C02', 'C03'):
        for p in ((16, 5, 0, 2), (10, 6, 3, 4), (13, 6, 2, 3), (8, 3, 2, 0)):
            yield {'kind': 'command', 'pid': pid, 'p': p}
    yield {'kind': 'enum', 'pid': pid, 'p': ENUM_SLOW[0]}
    if tier == 'thorough':
        yield {'kind': 'enum', 'pid': pid, 'p': ENUM_SLOW[1]}
        yield {'kind': 'enum', 'pid': pid, 'p': (27, 10, 1, 5)}
    d = degenerate(18, 127)
    rng.shuffle(d)
    yield {'kind': 'enum', 'pid': pid, 'p': (126, 62, 61, 0)}
    yield {'kind': 'enum', 'pid': pid, 'p': (127 - 1, 63, 0, 63)}
    yield {'kind': 'enum', 'pid': pid, 'p': (70, 68, 66, 68)}
    yield {'kind': 'enum', 'pid': pid, 'p': (126, 124, 122, 124)}
    for p in d[:120 if tier == 'quick' else 2000]:
        yield {'kind': 'enum', 'pid': pid, 'p': p}
    for p in fast_params(400 if tier == 'quick' else 10 ** 6, rng):
        yield {'kind': 'enum', 'pid': pid, 'p': p}


def enumerate_all(p):
    return solver.solve(SRG(solver._seed(*p)))


_known = {}


def known_for(p):
    v = p[0]
    if v not in _known:
        _known[v] = [(params_of(g), g) for g in known_graphs(v) if len(g) == v]
    return [g for q, g in _known[v] if q == tuple(p)]


def run_enum(c):
    p, pid = tuple(c['p']), c['pid']
    try:
        ms, snap = [], []
        for m in enumerate_all(p):
            ms.append(m)
            snap.append(np.array(m, copy=True))
            if pid == 'C01':
                e = srg_error(m, *p)
                if e:
                    return f'{p}: matrix {len(ms) - 1} is not a strongly regular graph: {e}: {ints(m)}'
    except Exception as e:
        if pid == 'C07':
            return f'{p}: enumeration raises {type(e).__name__}: {e}'
        if pid != 'C02':
            return None          # an exception is C07's (and, through what is then missing, C02's) business
    if pid == 'C07':
        for i, (a, b) in enumerate(zip(ms, snap)):
            if not np.array_equal(a, b):
                return f'{p}: yielded matrix {i} was changed afterwards'
    if pid == 'C03':
        seen = {}
        for i, m in enumerate(ms):
            key = (np.array(m).shape, np.array(m).astype(np.int64).tobytes())
            if key in seen:
                return f'{p}: matrices {seen[key]} and {i} are equal: {ints(m)}'
            seen[key] = i
    if pid == 'C02':
        keys = {np.array(m).astype(np.int64).tobytes() for m in ms}
        rng = random.Random(1)
        for g in known_for(p):
            for _ in range(20):
                if random_canonical(g, rng).astype(np.int64).tobytes() in keys:
                    break
            else:
                if not any(isomorphic(g, m) for m in ms if np.array(m).shape == g.shape):
                    return f'{p}: {len(ms)} matrices produced, none is a relabelling of the strongly regular graph {ints(g)}'
    return None


def run_command(c):
    """python -m srg v k l u prints the matrices of the enumeration"""
    import re
    p, pid = tuple(c['p']), c['pid']
    v = p[0]
    try:
        want = [ints(m) for m in enumerate_all(p)]
    except Exception:
        return None
    if len(want) != len({str(m) for m in want}):
        return None          # reported by the cases on the enumeration itself
    tmp = tempfile.mkdtemp(prefix='vfcmd_')
    try:
        r = subprocess.run([sys.executable, '-B', '-m', 'srg'] + [str(t) for t in p], capture_output=True, text=True, timeout=100, cwd=tmp,
                           env=dict(os.environ, PYTHONPATH=REPO))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    got = []
    for t in re.findall(r'\[\[[0-9\s,\[\]]*?\]\s*\]', r.stdout):
        d = [int(x) for x in re.findall(r'[0-9]+', t)]
        if len(d) == v * v:
            got.append([d[i * v:i * v + v] for i in range(v)])
    if not got and len(re.findall(r'[01]', r.stdout)) >= v * v:
        return None          # printed in some other way
    what = f'python -m srg {" ".join(map(str, p))}'
    if pid == 'C02':
        for m in want:
            if m not in got:
                return f'{what} (exit {r.returncode}): a matrix of the enumeration is not printed: {m}'
    elif len(got) != len({str(m) for m in got}):
        return f'{what}: a matrix is printed twice'
    return None


# ===================================================================================== C04
def gen_c04(rng, tier):
    n = 5000 if tier == 'quick' else 20000
    for i in range(n):
        mode = rng.random()
        C = rng.randint(1, 9) if mode < .8 else rng.randint(8, 14)
        R = rng.randint(1, 6)
        dens = rng.choice([.2, .5, .5, .8])
        G = rng.randint(1, C)
        cuts = sorted(rng.sample(range(1, C), G - 1)) if G > 1 else []
        seen, cols = set(), []
        for s, e in zip([0] + cuts, cuts + [C]):
            for _ in range(30):
                col = tuple(int(rng.random() < dens) for _ in range(R - 1))
                if col not in seen:
                    break
            else:
                continue
            seen.add(col)
            cols += [col] * (e - s)
        A = np.array(cols, dtype=np.int64).reshape(len(cols), R - 1).T
        A = np.vstack([A, np.ones((1, len(cols)), dtype=np.int64)])
        x = [int(rng.random() < rng.choice([.2, .5, .8])) for _ in cols]
        b = A @ np.array(x)
        if rng.random() < .35:
            r = rng.randrange(R)
            b[r] = max(0, b[r] + rng.choice([-2, -1, 1, 2, 5]))
        if rng.random() < .05:
            b[rng.randrange(R)] = rng.randint(0, 127)
        yield {'kind': 'rowsolve', 'A': ints(A), 'b': ints(b), 'dt': rng.choice(['int8', 'int64'])}
    for sysd in real_systems(rng, 60 if tier == 'quick' else 400, 127):
        yield sysd
    # systems with many columns / rows: one long group, many rows, thin systems
    for C in (1, 2, 63, 64, 65, 100, 126, 127):
        for t in sorted({0, 1, C // 2, C - 1, C}):
            yield {'kind': 'rowsolve', 'A': [[1] * C], 'b': [t], 'dt': 'int8'}
        A = np.array([[1 if c < C // 2 else 0 for c in range(C)], [1] * C])
        for t in ((0, 1), (C // 2, C), (C // 3, C // 2), (1, 0)):
            yield {'kind': 'rowsolve', 'A': ints(A), 'b': list(t), 'dt': 'int8'}
    for n in (5, 30, 62, 63, 64, 65, 70, 100, 120, 126):                  # triangular: staircase, columns all different
        A = np.array([[1 if c <= r else 0 for c in range(n)] for r in range(n)])
        x = [rng.randint(0, 1) for _ in range(n)]
        yield {'kind': 'rowsolve', 'A': ints(A), 'b': ints(A @ np.array(x)), 'dt': 'int8'}
        b = A @ np.array(x)
        b[rng.randrange(n - 1)] += 1
        yield {'kind': 'rowsolve', 'A': ints(A), 'b': ints(b), 'dt': 'int8'}


def real_systems(rng, count, vmax):
    gs = [g for g in known_graphs(vmax) if len(g) >= 9]
    out = 0
    while out < count:
        g = rng.choice(gs)
        v, k, l, u = params_of(g)
        M = random_canonical(g, rng)
        lo = 2 if v <= 16 else max(2, min(v - 2, int(v * .35)))
        R = rng.randint(lo, v - 2)
        known = np.concatenate([M[:R, R], [0]]).astype(np.int64)
        A = np.vstack([M[:R, R + 1:], np.ones((1, v - R - 1), dtype=np.int8)]).astype(np.int64)
        q = np.array([l if e else u for e in known[:-1]])
        b = np.concatenate([q - M[:R, :R + 1].astype(np.int64) @ known, [k - known.sum()]])
        if (b < 0).any():
            continue
        out += 1
        yield {'kind': 'rowsolve', 'A': ints(A), 'b': ints(b), 'dt': 'int8', 'member': ints(M[R, R + 1:]), 'big': 1}


def run_rowsolve(c):
    dt = np.dtype(c['dt'])
    A = np.array(c['A'], dtype=dt); b = np.array(c['b'], dtype=dt)
    C = A.shape[1]
    got, err = [], None
    try:
        for i, x in enumerate(solver.solve_question(Question(A.copy(), b.copy(), int(b[-1]), srgm.ones(C)))):
            got.append(tuple(int(t) for t in x))
            if i > 200000:
                break
    except Exception as e:
        err = f'raises {type(e).__name__}: {e}'
    A64, b64 = A.astype(np.int64), b.astype(np.int64)
    what = f'A={ints(A)} b={ints(b)}'
    for x in got:
        if len(x) != C or any(t not in (0, 1) for t in x):
            return f'{what}: yields {x}, not a 0/1 vector of length {C}'
        if (A64 @ np.array(x) != b64).any():
            return f'{what}: yields {x}, not a solution'
        if not canonical(A64, x):
            return f'{what}: yields {x}: a one after a zero within a group of equal columns'
    if len(set(got)) != len(got):
        return f'{what}: a solution is yielded twice'
    if 'member' in c and tuple(c['member']) not in set(got):
        return f'{what}: the canonical solution {c["member"]} is not yielded ({err or "no error"})'
    gs = len(groups_of(A64))
    if not c.get('big') or gs <= 12:
        want = set(canon_solutions(A64, b64))
        if set(got) != want:
            return f'{what}: canonical solution {sorted(want - set(got))[:1]} is not yielded ({err or "no error"})'
    if err:
        return f'{what}: {err}'
    return None


# ===================================================================================== C05
def gen_c05(rng, tier):
    for v, k, l, u in valid_params(12):
        yield {'kind': 'question', 'p': [v, k, l, u], 'seedrow': 1}
    for p in rng.sample(valid_params(127, 13), 250):
        yield {'kind': 'question', 'p': p, 'seedrow': 1, 'n': 60, 's': rng.randrange(10 ** 6)}
    gs = known_graphs(127)
    for _ in range(1000 if tier == 'quick' else 5000):
        g = rng.choice(gs) if rng.random() < .5 else rng.choice([h for h in gs if len(h) <= 17])
        M = random_relabel_edge_first(g, rng)
        v, k, l, u = params_of(g)
        R = rng.randint(2, v - 1)
        yield {'kind': 'question', 'p': [v, k, l, u], 'M': ints(M[:R]), 'next': ints(M[R, R + 1:]), 'n': 60,
               's': rng.randrange(10 ** 6)}
    # partial matrices that need not be completable
    for p in valid_params(13, 6):
        for s in range(3 if tier == 'quick' else 12):
            yield {'kind': 'question', 'p': p, 'grow': rng.randrange(10 ** 6), 'n': 60, 's': s}


def grow_partial(p, seed):
    """random partial matrix by independent row search (any legal row, not only canonical ones)"""
    v, k, l, u = p
    rng = random.Random(seed)
    M = np.zeros((2, v), dtype=np.int64)
    M[0, 1:k + 1] = 1
    M[1, 0] = 1
    M[1, 2:l + 2] = 1
    M[1, k + 1:2 * k - l] = 1
    perm = list(range(2, v)); rng.shuffle(perm)
    M = M[:, [0, 1] + perm]
    target = rng.randint(2, v - 1)
    while len(M) < target:
        R = len(M)
        known = np.concatenate([M[:, R], [0]])
        q = np.array([l if e else u for e in known[:-1]])
        b = np.concatenate([q - M[:, :R + 1] @ known, [k - known.sum()]])
        A = np.vstack([M[:, R + 1:], np.ones((1, v - R - 1), dtype=np.int64)])
        if (b < 0).any():
            break
        s = sols_nonneg(A, b, [1] * (v - R - 1), limit=300)
        if not s:
            break
        M = np.vstack([M, np.concatenate([known, rng.choice(s)])])
    return M


def run_question(c):
    p = tuple(c['p'])
    v, k, l, u = p
    if 'M' in c:
        M = np.array(c['M'], dtype=np.int8)
    elif 'grow' in c:
        M = grow_partial(p, c['grow']).astype(np.int8)
    else:
        M = np.zeros((2, v), dtype=np.int8)
        M[0, 1:k + 1] = 1
        M[1, 0] = 1
        M[1, 2:l + 2] = 1
        M[1, k + 1:2 * k - l] = 1
    R = len(M)
    if R >= v:
        return None
    n = v - R - 1
    rng = random.Random(c.get('s', 0))
    cand = list(itertools.product((0, 1), repeat=n)) if n <= 10 else []
    need = k - int(M[:, R].sum())
    for _ in range(c.get('n', 0)):
        if 0 <= need <= n and rng.random() < .8:
            on = set(rng.sample(range(n), need))
            cand.append(tuple(int(i in on) for i in range(n)))
        else:
            cand.append(tuple(rng.randint(0, 1) for _ in range(n)))
    if c.get('next'):
        x = c['next']
        cand.append(tuple(x))
        for _ in range(20):                      # near misses
            y = list(x)
            for _ in range(rng.randint(1, 2)):
                if n:
                    i, j = rng.randrange(n), rng.randrange(n)
                    y[i], y[j] = y[j], y[i]
            cand.append(tuple(y))
    legal = {x: legal_row(M, R, x, v, k, l, u) for x in cand}
    what = f'{p}, M={ints(M)}'
    M0 = M.copy()
    try:
        q = Question.from_matrix(M)
    except NoSolution:
        bad = [x for x in cand if legal[x]]
        return f'{what}: reported unsolvable, but {bad[0]} completes a legal row' if bad else None
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    if not np.array_equal(M, M0):
        return f'{what}: the matrix was changed'
    A, b, bd = np.array(q.A, dtype=np.int64), np.array(q.b, dtype=np.int64), np.array(q.bounds, dtype=np.int64)
    if A.shape[1] != n or list(q.answer._v) != [-1] * n or len(q.answer) != n:
        return f'{what}: the question has {A.shape[1]} unknowns, answer {q.answer}'
    for x in cand:
        X = np.array(x, dtype=np.int64)
        s = bool((A @ X == b).all() and (X <= bd).all())
        if s != legal[x]:
            return f'{what}: vector {x} {"solves" if s else "does not solve"} the question but its row is ' \
                   f'{"legal" if legal[x] else "not legal"}'
        if s and int(q.quota) != X.sum():
            return f'{what}: quota {q.quota} excludes the legal row {x}'
    return None


# ===================================================================================== C06
def gen_c06(rng, tier):
    for _ in range(7500 if tier == 'quick' else 30000):
        R, C = rng.randint(1, 7), rng.randint(1, 6)
        d = rng.choice([.3, .5, .7])
        A = [[int(rng.random() < d) for _ in range(C)] for _ in range(R)]
        if rng.random() < .3:
            A[rng.randrange(R)] = [0] * C
        if rng.random() < .3:
            A[rng.randrange(R)] = list(A[rng.randrange(R)])
        for c in range(C):
            if not any(A[r][c] for r in range(R)):
                A[rng.randrange(R)][c] = 1
        x = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(C)]
        b = (np.array(A) @ np.array(x)).tolist()
        if rng.random() < .4:
            r = rng.randrange(R)
            b[r] = max(0, b[r] + rng.choice([-1, 1, 2]))
        yield {'kind': 'elim', 'A': A, 'b': b, 'dt': rng.choice(['int8', 'int64'])}
    for _ in range(600 if tier == 'quick' else 2000):
        R, C = rng.randint(1, 127), rng.choice([7, 31, 32, 33, 62, 63, 64, 65, 90, 127])
        A = np.array([[int(rng.random() < .5) for _ in range(C)] for _ in range(R)])
        for r in range(R):
            if r and rng.random() < .5:
                A[r] = A[r] * A[rng.randrange(r)]
        for c in range(C):
            if not A[:, c].any():
                A[rng.randrange(R), c] = 1
        x = np.array([int(rng.random() < .3) for _ in range(C)])
        yield {'kind': 'elim', 'A': ints(A), 'b': np.minimum(A @ x, 127).tolist(), 'x': ints(x), 'dt': 'int8'}
    yield {'kind': 'elim', 'A': [[1] * 127], 'b': [127], 'dt': 'int8'}


def rank_mod(M, p=2 ** 31 - 1):
    M = [[int(a) % p for a in r] for r in M]
    rk, rows, cols = 0, len(M), len(M[0]) if M else 0
    for c in range(cols):
        pv = next((r for r in range(rk, rows) if M[r][c]), None)
        if pv is None:
            continue
        M[rk], M[pv] = M[pv], M[rk]
        inv = pow(M[rk][c], p - 2, p)
        M[rk] = [a * inv % p for a in M[rk]]
        for r in range(rows):
            if r != rk and M[r][c]:
                f = M[r][c]
                M[r] = [(a - f * d) % p for a, d in zip(M[r], M[rk])]
        rk += 1
    return rk


def run_elim(c):
    dt = np.dtype(c['dt'])
    A = np.array(c['A'], dtype=dt); b = np.array(c['b'], dtype=dt)
    A64, b64 = A.astype(np.int64), b.astype(np.int64)
    R, C = A.shape
    small = C <= 7
    x = c.get('x')
    if x is not None and (A64 @ np.array(x) != b64).any():
        x = None
    want = None
    if small:
        ub = [min(int(b64[r]) for r in range(R) if A64[r, j]) for j in range(C)]
        want = set(sols_nonneg(A64, b64, ub))
    what = f'A={ints(A)} b={ints(b)}'
    try:
        Ae, be = gauss_elim.elim(A, b)
    except NoSolution:
        if want:
            return f'{what}: reported unsolvable, but {sorted(want)[0]} is a solution'
        if x is not None:
            return f'{what}: reported unsolvable, but {x} is a solution'
        return None
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    if not (np.array_equal(A, A64) and np.array_equal(b, b64)):
        return f'{what}: the input was changed'
    Ae, be = np.array(Ae).astype(np.int64), np.array(be).astype(np.int64)
    res = f'-> A={ints(Ae)} b={ints(be)}'
    if Ae.ndim != 2 or Ae.shape[1] != C or be.shape != (Ae.shape[0],):
        return f'{what} {res}: wrong shape'
    if not np.isin(Ae, (0, 1)).all() or (be < 0).any():
        return f'{what} {res}: not a 0/1 matrix with a non-negative right-hand side'
    if want is not None:
        for s in want:
            if (Ae @ np.array(s) != be).any():
                return f'{what} {res}: the solution {s} is lost'
        free = [j for j in range(C) if not Ae[:, j].any()]
        if free and (want or C):
            ub2 = [(1 if j in free else min(int(be[r]) for r in range(len(be)) if Ae[r, j])) for j in range(C)]
        else:
            ub2 = [min(int(be[r]) for r in range(len(be)) if Ae[r, j]) for j in range(C)]
        got = set(sols_nonneg(Ae, be, ub2))
        if got - want and any((A64 @ np.array(s) != b64).any() for s in got):
            return f'{what} {res}: {sorted(got - want)[0]} is not a solution of the original system'
    else:
        if x is not None and (Ae @ np.array(x) != be).any():
            return f'{what} {res}: the solution {x} is lost'
        if x is not None and R <= 60:
            # same linear solution space (the system is solvable): each system implies the other
            E0 = np.hstack([A64, b64[:, None]]).tolist()
            E1 = np.hstack([Ae, be[:, None]]).tolist()
            if rank_mod(E1) < rank_mod(E0) and (be > 0).any() and rank_mod(E0 + E1) > rank_mod(E1):
                return reject_nonneg(A64, b64, Ae, be, what, res)
    return None


def reject_nonneg(A, b, Ae, be, what, res):
    """the new system is weaker over the rationals; look for a non-negative integer solution of it that is none of A x = b"""
    C = A.shape[1]
    ub = [min([int(be[r]) for r in range(len(be)) if Ae[r, j]] or [1]) for j in range(C)]
    rng = random.Random(0)
    for s in sols_nonneg(Ae, be, ub, limit=200):
        if (A @ np.array(s) != b).any():
            return f'{what} {res}: {s} is not a solution of the original system'
    return None


# ===================================================================================== C07 (besides enumerations)
def gen_c07(rng, tier):
    n = 0
    for c in gen_c08(rng, 'quick'):
        if c['kind'] == 'step' and not c.get('fresh') and c['C'] >= 2 and (c['C'] == 2 or rng.random() < .3):
            yield dict(c, kind='siblings')
            n += 1
            if n >= (1500 if tier == 'quick' else 15000):
                break
    yield from gen_enum('C07', rng, tier)
    gs = [g for g in known_graphs(36) if len(g) >= 9]
    for _ in range(150 if tier == 'quick' else 2000):
        g = rng.choice(gs)
        M = random_canonical(g, rng)
        v = len(M)
        lo = 2 if v <= 16 else int(v * .4)
        R = rng.randint(lo, v - 1)
        yield {'kind': 'alias', 'p': params_of(g), 'M': ints(M[:R]), 'limit': 20}
    for c in gen_c04(rng, 'quick'):
        if rng.random() < .4:
            c = dict(c, kind='noerror', limit=10)
            yield c


def run_noerror(c):
    dt = np.dtype(c['dt'])
    A = np.array(c['A'], dtype=dt); b = np.array(c['b'], dtype=dt)
    if (b > 127).any():
        return None
    try:
        for i, x in enumerate(solver.solve_question(Question(A, b, int(b[-1]), srgm.ones(A.shape[1])))):
            if i > 5000:
                break
    except Exception as e:
        return f'A={ints(A)} b={ints(b)}: raises {type(e).__name__}: {e}'
    return None


def qsnap(q):
    return (ints(q.A), ints(q.b), int(q.quota), ints(q.bounds), ints(q.answer._v), ints(q.answer._loc), int(len(q.answer)))


def run_siblings(c):
    """exploring one branch to its end leaves the other branches and the question they came from as they were"""
    q = make_question(c)
    what = f'branches of {dict((k, c[k]) for k in ("A", "b", "quota", "bounds", "v", "loc", "len"))}'
    try:
        kids = list(solver.fork_enum(q))
    except NoSolution:
        return None
    snaps, parent = [qsnap(k) for k in kids], qsnap(q)
    for i, kid in enumerate(kids):
        try:
            for n, _ in enumerate(solver.solve_question(kid)):
                if n > 50:
                    break
        except NoSolution:
            pass
        except Exception as e:
            return f'{what}: raises {type(e).__name__}: {e}'
        for j in range(i + 1, len(kids)):
            if qsnap(kids[j]) != snaps[j]:
                return f'{what}: work on branch {i} changed branch {j}: {snaps[j]} -> {qsnap(kids[j])}'
        if qsnap(q) != parent:
            return f'{what}: work on branch {i} changed the question it came from: {parent} -> {qsnap(q)}'
    return None


def run_alias(c):
    M = np.array(c['M'], dtype=np.int8)
    M0 = M.copy()
    what = f'M={ints(M0)}'
    s = SRG(M)
    try:
        if not s.solved():
            nxt = solver.advance(s)
            mats = [t.current_matrix for t in nxt]
            snaps = [np.array(m, copy=True) for m in mats]
            if not np.array_equal(M, M0):
                return f'{what}: advancing changed the partial matrix'
            for t in nxt[:6]:
                if not t.solved():
                    solver.advance(t)
            for i, (a, b) in enumerate(zip(mats, snaps)):
                if not np.array_equal(a, b):
                    return f'{what}: partial matrix {i} was changed by work on another one'
        q = Question.from_matrix(M)
    except NoSolution:
        return None
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    rng = random.Random(0)
    for depth in range(4):
        try:
            for _ in range(40):
                old = qsnap(q)
                for f in (solver.reduce_col, solver.eliminate, solver.zero_in_b, solver.only_1_element_in_row):
                    f(q)
                if qsnap(q) == old:
                    break
            if not q.answer.unknown:
                return None
            parent = qsnap(q)
            kids, snaps = [], []
            for kid in solver.fork_enum(q):
                kids.append(kid)
                snaps.append(qsnap(kid))
        except NoSolution:
            return None
        except Exception as e:
            return f'{what}: raises {type(e).__name__}: {e}'
        if qsnap(q) != parent:
            return f'{what}: branching changed the question itself: {parent}'
        for i in range(len(kids)):
            if qsnap(kids[i]) != snaps[i]:
                return f'{what}: producing later branches changed branch {i}: {snaps[i]} -> {qsnap(kids[i])}'
        if not kids:
            return None
        pick = rng.randrange(len(kids))
        try:
            for f in (solver.reduce_col, solver.eliminate, solver.zero_in_b, solver.only_1_element_in_row):
                f(kids[pick])
            for n, _ in enumerate(solver.solve_question(kids[pick].copy())):
                if n > 50:
                    break
        except NoSolution:
            pass
        except Exception as e:
            return f'{what}: raises {type(e).__name__}: {e}'
        for i in range(len(kids)):
            if i != pick and qsnap(kids[i]) != snaps[i]:
                return f'{what}: work on branch {pick} changed branch {i}: {snaps[i]} -> {qsnap(kids[i])}'
        if qsnap(q) != parent:
            return f'{what}: work on branch {pick} changed its parent question'
        q = kids[(pick + 1) % len(kids)] if len(kids) > 1 else kids[pick]
        if len(kids) == 1:
            return None
    return None


# ===================================================================================== C08
def make_question(c):
    dt = np.dtype(c.get('dt', 'int8'))
    C = c['C']
    A = np.array(c['A'], dtype=dt).reshape(len(c['b']), C)
    b = np.array(c['b'], dtype=dt)
    loc = np.array(c['loc'], dtype=np.int64)
    v = np.array(c['v'], dtype=np.int8)
    ans = Answer(value=v, location=loc, len=c['len'])
    return Question(A, b, c['quota'], np.array(c['bounds'], dtype=np.int8), ans)


def completed(q):
    """the 0/1 vectors (ones first in each group) a question still allows, as a set of tuples"""
    A, b = np.array(q.A, dtype=np.int64), np.array(q.b, dtype=np.int64)
    v = [int(t) for t in q.answer._v]
    loc = [int(t) for t in q.answer._loc] + [int(len(q.answer))]
    size = [j - i for i, j in zip(loc, loc[1:])]
    unk = [i for i, t in enumerate(v) if t == -1]
    if any(t != -1 and not 0 <= t <= s for t, s in zip(v, size)):
        return set()
    if len(unk) != A.shape[1]:
        return None
    if A.shape[1] == 0:
        ws = [()] if (b == 0).all() else []
    else:
        ws = sols_nonneg(A, b, [min(int(x), size[i]) for x, i in zip(q.bounds, unk)])
    out = set()
    for w in ws:
        full = list(v)
        for i, t in zip(unk, w):
            full[i] = t
        x = []
        for t, s in zip(full, size):
            x += [1] * t + [0] * (s - t)
        out.add(tuple(x))
    return out


def gen_c08(rng, tier):
    for _ in range(20000 if tier == "quick" else 200000):
        if rng.random() < .3:      # a fresh question: unit groups, contiguous equal columns
            G = rng.randint(1, 4)
            R = rng.randint(1, 5)
            cols = rng.sample(list(itertools.product((0, 1), repeat=R - 1)), min(G, 2 ** (R - 1)))
            A = []
            for col in cols:
                A += [col] * rng.randint(1, 3)
            A = np.vstack([np.array(A, dtype=np.int64).reshape(len(A), R - 1).T, np.ones((1, len(A)), dtype=np.int64)])
            if rng.random() < .5:
                A = A[rng.sample(range(R), R)]
            C = A.shape[1]
            x = np.array([int(rng.random() < .5) for _ in range(C)])
            b = A @ x
            if rng.random() < .3:
                r = rng.randrange(R)
                b[r] = max(0, b[r] + rng.choice([-1, 1]))
            quota = int(min(b[r] for r in range(R) if A[r].all()))
            bd = [int(rng.random() < .9) for _ in range(C)]
            if rng.random() < .7:
                bd = [1] * C
            # equal columns keep equal bounds, so that 'ones first' keeps every solution class
            for s, n in groups_of(A):
                for j in range(s, s + n):
                    bd[j] = bd[s]
            yield {'kind': 'step', 'fn': 'reduce_col', 'A': ints(A), 'b': ints(b), 'C': C, 'quota': quota, 'bounds': bd,
                   'v': [-1] * C, 'loc': list(range(C)), 'len': C, 'fresh': 1}
            continue
        if rng.random() < .2:      # a system without solutions over the rationals: any quota follows from it
            C = rng.randint(1, 4)
            R = rng.randint(C, C + 3)
            A = np.array([[int(rng.random() < rng.choice([.3, .6])) for _ in range(C)] for _ in range(R)])
            sizes = [rng.randint(1, 3) for _ in range(C)]
            x = [rng.randint(0, s) for s in sizes]
            b = A @ np.array(x)
            r = rng.randrange(R)
            b[r] = max(0, b[r] + rng.choice([-1, 1, 2]))
            if A.any(axis=0).all() and len({tuple(c) for c in A.T.tolist()}) == C \
                    and np.linalg.matrix_rank(np.column_stack([A, b])) > np.linalg.matrix_rank(A):
                yield {'kind': 'step', 'fn': rng.choice(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row', 'only_1_element_in_row', 'fork_enum']),
                       'A': ints(A), 'b': ints(b), 'C': C, 'quota': max(0, sum(x) + rng.randint(-2, 1)), 'bounds': [max(s, 2) for s in sizes],
                       'v': [-1] * C, 'loc': [sum(sizes[:i]) for i in range(C)], 'len': sum(sizes)}
            continue
        C = rng.randint(1, 5)
        R = rng.randint(1, 5)
        cols = rng.sample(list(itertools.product((0, 1), repeat=R)), min(C, 2 ** R))
        C = len(cols)
        A = np.array(cols, dtype=np.int64).T.reshape(R, C)
        ones = rng.random()
        if ones < .6:
            A = np.vstack([A, np.ones((1, C), dtype=np.int64)])
        else:                          # rows that partition the columns
            part = np.array([rng.randrange(2) for _ in range(C)])
            A = np.vstack([A, part, 1 - part])
        A = A[rng.sample(range(len(A)), len(A))]
        sizes = [rng.randint(1, 3) for _ in range(C)]
        x = [rng.randint(0, s) for s in sizes]
        bd = [rng.choice([s, s, rng.randint(0, s), t]) for s, t in zip(sizes, x)]
        if rng.random() < .7:
            x = [min(a, t) for a, t in zip(x, bd)]
        b = A @ np.array(x)
        quota = int(sum(x))
        if rng.random() < .3:
            full = [r for r in range(len(A)) if A[r].all()]
            r = rng.randrange(len(A))
            if ones < .6 and r not in full:
                b[r] = max(0, b[r] + rng.choice([-1, 1, 2]))
        v, loc, pos = [], [], 0
        for s in sizes:
            while rng.random() < .3:
                n = rng.randint(1, 3)
                v.append(rng.randint(0, n)); loc.append(pos); pos += n
            v.append(-1); loc.append(pos); pos += s
        if rng.random() < .3:
            v.append(1); loc.append(pos); pos += 2
        fn = rng.choice(['reduce_col', 'eliminate', 'zero_in_b', 'zero_in_b', 'only_1_element_in_row', 'only_1_element_in_row',
                         'fork_enum', 'fork_enum'])
        if rng.random() < .2:          # bounds above what is left of the quota
            bd = [s + rng.randint(0, 3) for s in bd]
        yield {'kind': 'step', 'fn': fn, 'A': ints(A), 'b': ints(b), 'C': C, 'quota': quota, 'bounds': bd, 'v': v, 'loc': loc,
               'len': pos}
    for c in real_systems(rng, 40 if tier == 'quick' else 400, 28):
        yield {'kind': 'chain', 'A': c['A'], 'b': c['b'], 'member': c['member']}


def run_step(c):
    fn = getattr(solver, c['fn'], None)
    if fn is None:
        raise Skip(c['fn'])
    q = make_question(c)
    before = completed(q)
    if c.get('fresh'):
        before = {x for x in before if canonical(np.array(c['A']), x)}
    what = f'{c["fn"]} on {dict((k, c[k]) for k in ("A", "b", "quota", "bounds", "v", "loc", "len"))}'
    if c['fn'] == 'fork_enum':
        parts = []
        try:
            for kid in fn(q):
                parts.append(completed(kid))
        except NoSolution:
            if before:
                return f'{what}: reported unsolvable, but {sorted(before)[0]} is possible'
            return None
        except Exception as e:
            return f'{what}: raises {type(e).__name__}: {e}'
        if any(p is None for p in parts):
            return f'{what}: a branch has a wrong number of unknowns'
        if sum(map(len, parts)) != len(set().union(*parts)) if parts else False:
            return f'{what}: a completed answer belongs to two branches'
        after = set().union(*parts) if parts else set()
    else:
        try:
            fn(q)
        except NoSolution:
            if before:
                return f'{what}: reported unsolvable, but {sorted(before)[0]} is possible'
            return None
        except Exception as e:
            return f'{what}: raises {type(e).__name__}: {e}'
        after = completed(q)
        if after is None:
            return f'{what}: {q.A.shape[1]} columns but {len(q.answer.unknown_loc)} unknowns'
    if after - before:
        return f'{what}: the completed answer {sorted(after - before)[0]} has become possible'
    if before - after:
        return f'{what}: the completed answer {sorted(before - after)[0]} is lost'
    return None


def run_chain(c):
    """every step on the way of a real question keeps a known completed answer"""
    A, b = np.array(c['A'], dtype=np.int8), np.array(c['b'], dtype=np.int8)
    q = Question(A, b, int(b[-1]), srgm.ones(A.shape[1]))
    x = np.array(c['member'])

    def allows(q):
        loc = [int(t) for t in q.answer._loc] + [int(len(q.answer))]
        w = np.array([int(x[i:j].sum()) for i, j in zip(loc, loc[1:])])
        v = np.array([int(t) for t in q.answer._v])
        unk = v == -1
        return bool((v[~unk] == w[~unk]).all() and (np.array(q.A, dtype=np.int64) @ w[unk] == q.b).all()
                    and (w[unk] <= q.bounds).all())
    what = f'A={ints(A)} b={ints(b)}, answer {c["member"]}'
    for depth in range(60):
        for _ in range(60):
            old = qsnap(q)
            for name in ('reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row'):
                try:
                    getattr(solver, name)(q)
                except NoSolution:
                    return f'{what}: {name} reports unsolvable at {old}'
                except Exception as e:
                    return f'{what}: {name} raises {type(e).__name__}: {e} at {old}'
                if not allows(q):
                    return f'{what}: lost by {name} at {old}'
            if qsnap(q) == old:
                break
        if not q.answer.unknown:
            return None
        try:
            kids = list(solver.fork_enum(q))
        except Exception as e:
            return f'{what}: fork_enum raises {type(e).__name__}: {e} at {qsnap(q)}'
        good = [k for k in kids if allows(k)]
        if len(good) != 1:
            return f'{what}: {len(good)} of {len(kids)} branches keep the answer at {qsnap(q)}'
        q = good[0]
    return None


# ===================================================================================== C09
def gen_c09(rng, tier):
    for R in range(1, 4):
        for C in range(1, 5):
            if R * C <= 9:
                for t in itertools.product((0, 1), repeat=R * C):
                    yield {'kind': 'unique', 'A': np.array(t).reshape(R, C).tolist()}
    for _ in range(6000 if tier == 'quick' else 20000):
        R = rng.choice([1, 2, 3, 5, 8, 16, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 130])
        cols = []
        pool = [[rng.randint(0, 1) for _ in range(R)] for _ in range(rng.randint(1, 4))]
        for p in list(pool):
            q = list(p)
            q[rng.choice([0, R - 1, rng.randrange(R)])] ^= 1
            pool.append(q)
        for _ in range(rng.randint(1, 8)):
            cols += [rng.choice(pool)] * rng.choice([1, 1, 2, 3, 40])
        yield {'kind': 'unique', 'A': np.array(cols).T.tolist(), 'dt': rng.choice(['int8', 'int64'])}


def run_unique(c):
    A = np.array(c['A'], dtype=c.get('dt', 'int8'))
    A0 = A.copy()
    what = f'A={ints(A)}'
    gs = groups_of(A.astype(np.int64))
    try:
        red, bd, loc = unique.reduce(A)
        exp = unique.expand(red, bd)
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    if not np.array_equal(A, A0):
        return f'{what}: the input was changed'
    if [int(t) for t in loc] != [s for s, n in gs]:
        return f'{what}: run starts {ints(loc)}, expected {[s for s, n in gs]}'
    if [int(t) for t in bd] != [n for s, n in gs]:
        return f'{what}: run lengths {ints(bd)}, expected {[n for s, n in gs]}'
    if not np.array_equal(red, A0[:, [s for s, n in gs]]):
        return f'{what}: reduced matrix {ints(red)}'
    if not np.array_equal(exp, A0):
        return f'{what}: expanding gives {ints(exp)}'
    return None


# ===================================================================================== C10
def gen_c10(rng, tier):
    for s in range(0, 6):
        for n in range(1, 5):
            for bd in itertools.product(range(4), repeat=n):
                if n < 4 or rng.random() < .2:
                    yield {'kind': 'partition', 's': s, 'b': bd, 'as': rng.choice(['list', 'tuple', 'array'])}
    for _ in range(2000 if tier == 'quick' else 3000):
        n = rng.randint(1, 7)
        bd = [rng.choice([0, 1, 1, 2, 3, 9]) for _ in range(n)]
        if rng.random() < .2:
            bd[rng.randrange(n)] = rng.randint(0, 60)
        yield {'kind': 'partition', 's': rng.randint(0, min(60, sum(bd) + 2)), 'b': bd, 'as': rng.choice(['list', 'tuple', 'array'])}
    yield {'kind': 'partition', 's': 300, 'b': [300], 'as': 'list'}
    yield {'kind': 'partition', 's': 300, 'b': [300, 300], 'as': 'list'}
    yield {'kind': 'partition', 's': 0, 'b': [0] * 200, 'as': 'list'}


def run_partition(c):
    s, b = c['s'], list(c['b'])

    def want(s, i):
        if i == len(b) - 1:
            if s <= b[i]:
                yield (s,)
            return
        rest = sum(b[i + 1:])
        for v in range(max(0, s - rest), min(b[i], s) + 1):
            for t in want(s - v, i + 1):
                yield (v,) + t
    arg = {'list': list(b), 'tuple': tuple(b), 'array': np.array(b, dtype=np.int64)}[c['as']]
    what = f's={s} bounds={b}'
    try:
        got = []
        for t in partition.enum(s, arg):
            got.append(tuple(int(a) for a in t))
            if len(got) > 2000000:
                break
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    w = list(want(s, 0))
    if got != w:
        i = next((i for i, (a, d) in enumerate(zip(got, w)) if a != d), min(len(got), len(w)))
        return f'{what}: entry {i} is {got[i:i + 1]}, expected {w[i:i + 1]} ({len(got)} entries, expected {len(w)})'
    return None


# ===================================================================================== C11
def gen_c11(rng, tier):
    for n in range(2, 5 if tier == 'quick' else 6):
        pairs = list(itertools.combinations(range(n), 2))
        for t in itertools.product((0, 1), repeat=len(pairs)):
            yield {'kind': 'maximize', 'n': n, 'e': [list(p) for p, x in zip(pairs, t) if x], 'dt': 'int8'}
    for _ in range(5400 if tier == 'quick' else 10000):
        n = rng.choice([5, 6, 7, 8, 10, 15, 16, 17, 18, 20, 24, 30, 33])
        d = rng.choice([.1, .3, .5, .7, .9, 1.0])
        hub = rng.random() < .15
        iso = rng.random() < .1
        e = [[i, j] for i, j in itertools.combinations(range(n), 2)
             if (rng.random() < d or (hub and i == 0)) and not (iso and i == 0)]
        yield {'kind': 'maximize', 'n': n, 'e': e, 'dt': rng.choice(['int8', 'int8', 'int64'])}
    gs = known_graphs(40)
    for _ in range(900 if tier == 'quick' else 1000):
        g = rng.choice(gs)
        p = list(range(len(g))); rng.shuffle(p)
        g = permute(g, p)
        yield {'kind': 'maximize', 'n': len(g), 'e': [[int(i), int(j)] for i, j in np.argwhere(np.triu(g))], 'dt': 'int8'}


def run_maximize(c):
    n = c['n']
    A = np.zeros((n, n), dtype=c['dt'])
    for i, j in c['e']:
        A[i, j] = A[j, i] = 1
    A0 = A.copy()
    what = f'n={n} edges={c["e"]}'
    try:
        B = sorter.maximize(A)
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    if not np.array_equal(A, A0):
        return f'{what}: the input was changed'
    B = np.array(B)
    if B.shape != A.shape or not np.isin(B, (0, 1)).all() or (B != B.T).any() or np.diag(B).any():
        return f'{what}: the result is not the adjacency matrix of a graph: {ints(B)}'
    d = int(A[0].sum())
    if list(B[0]) != [0] + [1] * d + [0] * (n - 1 - d):
        return f'{what}: row 0 of the result is {ints(B[0])}: vertex 0 or its {d} neighbours are not first'
    if upper(B) < upper(A):
        return f'{what}: the encoding is smaller than before: {ints(B)}'
    if n <= 40 and not rooted_iso(A.astype(np.int64), B.astype(np.int64)):
        return f'{what}: the result is not a relabelling keeping vertex 0: {ints(B)}'
    return None


def refine(m, n, root):
    col = [0] * n
    col[root] = 1
    for _ in range(n):
        sig = [(col[i], tuple(sorted(col[j] for j in range(n) if m[i, j]))) for i in range(n)]
        ids = {s: t for t, s in enumerate(sorted(set(sig)))}
        new = [ids[s] for s in sig]
        if len(set(new)) == len(set(col)):
            return sig
        col = new
    return sig


def rooted_iso(a, b):
    """graph isomorphism a -> b mapping 0 to 0 (gives up, answering True, after many steps)"""
    n = len(a)
    sa, sb = refine(a, n, 0), refine(b, n, 0)
    if sorted(sa) != sorted(sb):
        return False
    mp, used, steps = [0], {0}, [0]
    if sa[0] != sb[0]:
        return False

    def go(i):
        if i == n:
            return True
        for y in range(n):
            if y not in used and sa[i] == sb[y] and all(a[i, j] == b[y, mp[j]] for j in range(i)):
                steps[0] += 1
                if steps[0] > 20000:
                    return True
                mp.append(y); used.add(y)
                if go(i + 1):
                    return True
                mp.pop(); used.discard(y)
        return False
    return go(1)


# ===================================================================================== C12
def gen_c12(rng, tier):
    for _ in range(7000 if tier == 'quick' else 8000):
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 9, 17])
        pool = []
        for _ in range(rng.randint(1, 4)):
            m = np.zeros((n, n), dtype=int)
            for i in range(n):
                for j in range(i, n):
                    m[i, j] = m[j, i] = rng.randint(0, 1)
            pool.append(m)
            m2 = m.copy()
            i = rng.randrange(n); j = rng.choice([n - 1, rng.randrange(n)])
            m2[i, j] = 1 - m2[i, j]; m2[j, i] = m2[i, j]
            pool.append(m2)
        yield {'kind': 'sort', 'l': [rng.choice(pool).tolist() for _ in range(rng.randint(0, 12))], 'dt': rng.choice(['int8', 'int64'])}
    yield {'kind': 'sort', 'l': [], 'dt': 'int8'}


def run_sort(c):
    lst = [np.array(m, dtype=c['dt']) for m in c['l']]
    what = f'list of {len(lst)} matrices {c["l"]}'
    try:
        if lst and len(lst[0]) < 1:
            return None
        orig = list(lst)
        out = sorter.sort(lst)
        if len(lst) > 1:
            for a, b in list(itertools.product(orig[:4], orig[:4])):
                r = int(sorter._cmp_srg_matrix(a, b))
                ua, ub = upper(a), upper(b)
                w = -1 if ua < ub else (1 if ua > ub else 0)
                if (r > 0) - (r < 0) != w:
                    return f'comparing {ints(a)} with {ints(b)} gives {r}'
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    if len(out) != len(orig):
        return f'{what}: {len(out)} matrices returned'
    key = lambda m: (np.array(m).shape, np.array(m).astype(np.int64).tobytes())
    if sorted(map(key, out)) != sorted(key(np.array(m)) for m in c['l']):
        return f'{what}: returned different matrices'
    enc = [upper(m) for m in out]
    for i, (a, b) in enumerate(zip(enc, enc[1:])):
        if a > b:
            return f'{what}: results {i} and {i + 1} are out of order'
    return None


# ===================================================================================== C13
def gen_c13(rng, tier):
    for n in range(1, 5):
        pairs = list(itertools.combinations(range(n), 2))
        for t in itertools.product((0, 1), repeat=len(pairs)):
            yield {'kind': 'complement', 'n': n, 'e': [list(p) for p, x in zip(pairs, t) if x]}
    for _ in range(600 if tier == 'quick' else 3000):
        n = rng.choice([5, 8, 13, 20, 64, 127, 130])
        d = rng.choice([0, .1, .5, .9, 1])
        yield {'kind': 'complement', 'n': n, 'e': [[i, j] for i, j in itertools.combinations(range(n), 2) if rng.random() < d],
               'dt': rng.choice(['int8', 'int64'])}
    gs = known_graphs(127)
    for g in (rng.sample(gs, 150) if tier == 'quick' else gs):
        yield {'kind': 'complement', 'n': len(g), 'e': [[int(i), int(j)] for i, j in np.argwhere(np.triu(g))], 'srg': 1}
    yield {'kind': 'complement_params', 'ps': valid_params(40)}
    yield {'kind': 'complement_params', 'ps': rng.sample(valid_params(127), 4000)}


def run_complement(c):
    n = c['n']
    A = np.zeros((n, n), dtype=c.get('dt', 'int8'))
    for i, j in c['e']:
        A[i, j] = A[j, i] = 1
    A0 = A.copy()
    what = f'n={n} edges={c["e"]}'
    try:
        B = np.array(utils.complement(A)).astype(np.int64)
        if not np.array_equal(A, A0):
            return f'{what}: the input was changed'
        want = 1 - A0.astype(np.int64) - np.eye(n, dtype=np.int64)
        if B.shape != want.shape or (B != want).any():
            i, j = map(int, np.argwhere(B != want)[0]) if B.shape == want.shape else (None, None)
            return f'{what}: entry {i},{j} of the complement is wrong'
        if c.get('srg'):
            p = params_of(A0)
            q = tuple(int(t) for t in utils.complement_vklu(*p))
            e = srg_error(B, *q)
            if e:
                return f'{p}: the complement does not have the reported parameters {q}: {e}'
    except Exception as e:
        return f'{what}: raises {type(e).__name__}: {e}'
    return None


def run_complement_params(c):
    for p in c['ps']:
        v, k, l, u = p
        want = (v, v - 1 - k, v - 2 - 2 * k + u, v - 2 * k + l)
        got = tuple(int(t) for t in utils.complement_vklu(*p))
        if got != want:
            return f'complement_vklu{tuple(p)} = {got}, expected {want}'
    return None


# ===================================================================================== C14
def gen_c14(rng, tier):
    ps = valid_params(127)
    for i in range(0, len(ps), 600):
        yield {'kind': 'spectrum', 'lo': i, 'hi': i + 600}


def spectrum_error(p):
    v, k, l, u = p
    D = (l - u) ** 2 + 4 * (k - u)
    conf = 2 * k + (v - 1) * (l - u)
    out = None
    s = math.isqrt(D) if D > 0 else 0
    good = D > 0 and s * s == D
    if good:
        if ((l - u) + s) % 2:
            good = False
    if good:
        r, t = ((l - u) + s) // 2, ((l - u) - s) // 2
        f = Fraction(v - 1) / 2 - Fraction(conf, 2 * s)
        g = Fraction(v - 1) / 2 + Fraction(conf, 2 * s)
        good = f.denominator == 1 and g.denominator == 1 and f >= 0 and g >= 0
    if good:
        f, g = int(f), int(g)
        assert 1 + f + g == v and k + f * r + g * t == 0
        got = [tuple(x) for x in utils.eig(v, k, l, u)]
        want = [(k, 1), (r, f), (t, g)]
        if sorted(got) != sorted(want):
            return f'eig{tuple(p)} = {got}, expected {want}'
        d = utils.determinant(v, k, l, u)
        w = k * r ** f * t ** g
        if d != w or int(d) != w:
            return f'determinant{tuple(p)} = {d}, expected {w}'
    if conf == 0 and (v - 1) % 2 == 0:
        # r t = u - k, r + t = -1, multiplicities (v-1)/2
        d = utils.determinant(v, k, l, u)
        w = k * (u - k) ** ((v - 1) // 2)
        if d != w or int(d) != w:
            return f'determinant{tuple(p)} = {d}, expected {w}'
    return None


def run_spectrum(c):
    for p in (c['ps'] if 'ps' in c else valid_params(127)[c['lo']:c['hi']]):
        try:
            e = spectrum_error(p)
        except Exception as ex:
            e = f'{tuple(p)}: raises {type(ex).__name__}: {ex}'
        if e:
            return e
    return None


# ===================================================================================== C15
def gen_c15(rng, tier):
    yield {'kind': 'db_all'}
    yield {'kind': 'db_missing', 'ps': [[rng.randint(0, 30) for _ in range(4)] for _ in range(100)]}
    yield {'kind': 'db_scratch', 's': rng.randrange(10 ** 6)}
    yield {'kind': 'db_names', 'ps': [[rng.choice([0, 1, 9, 10, 100, rng.randint(0, 2000), 10 ** 20]) for _ in range(4)] for _ in range(300)]}
    qs = [list(p) for p in itertools.product(range(0, 9), repeat=4)]
    for i in range(0, len(qs), 2000):
        yield {'kind': 'param_check', 'ps': qs[i:i + 2000]}
    yield {'kind': 'param_check', 'ps': [list(p) for p in rng.sample(valid_params(127), 2000)]}
    yield {'kind': 'param_check', 'ps': [[rng.randint(0, 200) for _ in range(4)] for _ in range(2000)]}
    args = [[10, 3, 0, 1], [5, 2, 0, 1], [10, 3, 0, 2], [10, 3, 1, 1], [11, 3, 0, 1], [10, 4, 0, 1], [4, 2, 0, 2], [35, 16, 6, 8],
            [5, 2, 1, 0], [29, 14, 6, 7], [1000, 3, 0, 1], [0, 0, 0, 0]]
    for a in args:
        yield {'kind': 'cli', 'a': a, 'cmd': 'list'}
    yield {'kind': 'cli', 'a': [10, 3, 0, 2], 'cmd': 'draw'}
    yield {'kind': 'cli', 'a': [10, 3, 0, 1], 'cmd': 'frobnicate'}


def run_db_all(c):
    import importlib
    d = os.path.join(REPO, 'srg', 'database')
    files = sorted(f[:-3] for f in os.listdir(d) if f.startswith('problem') and f.endswith('.py'))
    got = sorted(database.list_problems())
    if got != files:
        return f'listed problems differ from the stored ones: {sorted(set(got) ^ set(files))}'
    for f in files:
        p = [int(t) for t in f.split('_')[1:]]
        if list(database.extract_vklu(f)) != p:
            return f'extract_vklu({f!r}) = {database.extract_vklu(f)}'
        s = database.get_solutions(*p)
        ref = {}
        exec(compile(open(os.path.join(d, f + '.py')).read().replace('from srg.srg', 'from srg.srg'), f, 'exec'),
             {'__name__': 'srg.database.' + f, '__package__': 'srg.database'}, ref) if False else None
        m = importlib.import_module('srg.database.' + f)
        if s is not m.solutions and not (len(s) == len(m.solutions) and all(np.array_equal(a, b) for a, b in zip(s, m.solutions))):
            return f'get_solutions{tuple(p)} does not return the stored solutions'
    return None


def run_db_missing(c):
    d = os.path.join(REPO, 'srg', 'database')
    for p in c['ps']:
        p = tuple(p)
        if os.path.exists(os.path.join(d, 'problem_%d_%d_%d_%d.py' % p)):
            continue
        try:
            s = database.get_solutions(*p)
        except ImportError:
            continue
        except Exception as e:
            continue
        return f'get_solutions{p} returns {len(s) if hasattr(s, "__len__") else s} solutions though none are stored'
    return None


def run_db_names(c):
    for p in c['ps']:
        name = 'problem_%d_%d_%d_%d' % tuple(p)
        got = database.extract_vklu(name)
        if list(got) != list(p):
            return f'extract_vklu({name!r}) = {got}'
    return None


SCRATCH = '''
import sys, json
sys.path.insert(0, sys.argv[1])
from srg import database as d
ps = json.load(open(sys.argv[2]))
names = sorted(d.list_problems())
out = {'names': names, 'sol': {}, 'vklu': {n: list(d.extract_vklu(n)) for n in names}}
for p in ps:
    try:
        out['sol'][json.dumps(p)] = d.get_solutions(*p)
    except ImportError:
        out['sol'][json.dumps(p)] = None
print('RESULT ' + json.dumps(out))
'''


def run_db_scratch(c):
    """a copy of the package with made-up problem files: each lookup returns what is stored under exactly that name"""
    rng = random.Random(c['s'])
    tmp = tempfile.mkdtemp(prefix='vfdb_')
    try:
        shutil.copytree(os.path.join(REPO, 'srg'), os.path.join(tmp, 'srg'), ignore=shutil.ignore_patterns('problem_*', '__pycache__'))
        base = [[1, 11, 1, 1], [11, 1, 1, 1], [1, 1, 11, 1], [1, 1, 1, 11], [10, 3, 0, 1], [10, 6, 3, 4], [3, 10, 1, 0], [0, 0, 0, 0],
                [100, 3, 0, 1], [16, 6, 2, 2], [16, 9, 4, 6], [28, 12, 6, 4], [127, 63, 31, 31]]
        stored = rng.sample(base, 9)
        for p in stored:
            with open(os.path.join(tmp, 'srg', 'database', 'problem_%d_%d_%d_%d.py' % tuple(p)), 'w') as f:
                f.write(f'solutions = [{p}, "x", {sum(p)}]\n')
        open(os.path.join(tmp, 'ps.json'), 'w').write(json.dumps(base))
        r = subprocess.run([sys.executable, '-B', '-c', SCRATCH, tmp, os.path.join(tmp, 'ps.json')], capture_output=True, text=True,
                           timeout=100, cwd=tmp)
        line = [x for x in r.stdout.splitlines() if x.startswith('RESULT ')]
        if not line:
            return f'database with problems {stored}: lookup fails: {r.stderr[-300:]}'
        out = json.loads(line[0][7:])
        if out['names'] != sorted('problem_%d_%d_%d_%d' % tuple(p) for p in stored):
            return f'database with problems {stored}: lists {out["names"]}'
        for n, p in out['vklu'].items():
            if n != 'problem_%d_%d_%d_%d' % tuple(p):
                return f'extract_vklu({n!r}) = {p}'
        for p in base:
            want = [p, 'x', sum(p)] if p in stored else None
            if out['sol'][json.dumps(p)] != want:
                return f'database with problems {stored}: get_solutions{tuple(p)} = {out["sol"][json.dumps(p)]}'
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_param_check(c):
    for v, k, l, u in c['ps']:
        try:
            utils.assert_srg(v, k, l, u)
            ok = True
        except (AssertionError, ValueError):
            ok = False
        if ok != ((v - k - 1) * u == k * (k - l - 1)):
            return f'the parameter check {"accepts" if ok else "refuses"} {(v, k, l, u)}'
    return None


def run_cli(c):
    a = c['a']
    v, k, l, u = a
    tmp = tempfile.mkdtemp(prefix='vfcli_')
    try:
        r = subprocess.run([sys.executable, '-B', '-m', 'srg.database', c['cmd']] + [str(t) for t in a], capture_output=True, text=True,
                           timeout=100, cwd=tmp, env=dict(os.environ, PYTHONPATH=REPO))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    good = (v - k - 1) * u == k * (k - l - 1)
    f = os.path.join(REPO, 'srg', 'database', 'problem_%d_%d_%d_%d.py' % tuple(a))
    what = f'srg.database {c["cmd"]} {a}'
    served = 'array(' in r.stdout or '[[' in r.stdout or (r.returncode == 0)
    if not good and served:
        return f'{what}: bad parameters are served (exit {r.returncode}): {r.stdout[:200]}'
    if c['cmd'] not in ('list', 'draw') and r.returncode == 0:
        return f'{what}: unknown command accepted'
    if good and c['cmd'] == 'list' and os.path.exists(f):
        from pprint import pformat
        if r.returncode != 0 or r.stdout.split() != pformat(database.get_solutions(*a)).split():
            return f'{what}: does not print the stored solutions (exit {r.returncode}): {r.stderr[-200:]}'
    if good and c['cmd'] == 'list' and not os.path.exists(f) and served:
        return f'{what}: serves solutions though none are stored: {r.stdout[:200]}'
    return None


# ===================================================================================== C16
def gen_c16(rng, tier):
    ps = valid_params(127)
    for i in range(0, len(ps), 600):
        yield {'kind': 'seed', 'lo': i, 'hi': i + 600}
    gs = known_graphs(127)
    for _ in range(1000 if tier == 'quick' else 3000):
        g = rng.choice(gs)
        M = random_relabel_edge_first(g, rng)
        yield {'kind': 'vklu', 'p': params_of(g), 'M': ints(M[:rng.choice([2, 2, 3, len(M)])])}
    for p in rng.sample(ps, 1500):
        yield {'kind': 'vklu', 'p': p, 's': rng.randrange(10 ** 6)}


def run_seed(c):
    for p in (c['ps'] if 'ps' in c else valid_params(127)[c['lo']:c['hi']]):
        v, k, l, u = p
        try:
            s = solver._seed(v, k, l, u)
            S = np.array(s).astype(np.int64)
            got = tuple(int(t) for t in srgm.vklu(s))
        except Exception as e:
            return f'{tuple(p)}: raises {type(e).__name__}: {e}'
        if S.shape != (2, v) or not np.isin(S, (0, 1)).all():
            return f'_seed{tuple(p)}: {ints(S)}: not two 0/1 rows of length v'
        if S[0].sum() != k or S[1].sum() != k or int(S[0] @ S[1]) != l or S[0, 0] or S[1, 1] or not (S[0, 1] == S[1, 0] == 1):
            return f'_seed{tuple(p)} = {ints(S)}'
        if (np.diff(S[0, 1:]) > 0).any():
            return f'_seed{tuple(p)}: row 0 is not ones first: {ints(S[0])}'
        for val in (0, 1):
            seg = S[1, 2:][S[0, 2:] == val]
            if (np.diff(seg) > 0).any():
                return f'_seed{tuple(p)}: row 1 is not ones first below {val}: {ints(S)}'
        if got != tuple(p):
            return f'vklu(_seed{tuple(p)}) = {got}'
    return None


def run_vklu(c):
    p = tuple(c['p'])
    v, k, l, u = p
    if 'M' in c:
        M = np.array(c['M'], dtype=np.int8)
    else:
        rng = random.Random(c['s'])
        M = np.zeros((2, v), dtype=np.int8)
        M[0, 1:k + 1] = 1
        M[1, 0] = 1
        M[1, 2:l + 2] = 1
        M[1, k + 1:2 * k - l] = 1
        q = list(range(2, v)); rng.shuffle(q)
        M = M[:, [0, 1] + q]
    try:
        got = tuple(int(t) for t in srgm.vklu(M))
    except Exception as e:
        return f'vklu of {ints(M)}: raises {type(e).__name__}: {e}'
    if got != p:
        return f'vklu({ints(M)}) = {got}, expected {p}'
    return None


# =====================================================================================
GEN = {'C01': lambda r, t: gen_enum('C01', r, t), 'C02': lambda r, t: gen_enum('C02', r, t), 'C03': lambda r, t: gen_enum('C03', r, t),
       'C04': gen_c04, 'C05': gen_c05, 'C06': gen_c06, 'C07': gen_c07, 'C08': gen_c08, 'C09': gen_c09, 'C10': gen_c10,
       'C11': gen_c11, 'C12': gen_c12, 'C13': gen_c13, 'C14': gen_c14, 'C15': gen_c15, 'C16': gen_c16}


def run(case):
    return globals()['run_' + case['kind']](case)
