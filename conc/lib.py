"""Independent oracles for the concrete contract search (no code of /repo is used here)."""
import itertools, os, sys, random
import numpy as np

REPO = os.environ.get('VF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def valid_params(vmax, vmin=3):
    out = []
    for v in range(vmin, vmax + 1):
        for k in range(1, v - 1):
            for l in range(0, k):
                num = k * (k - l - 1)
                if num % (v - k - 1) == 0 and num // (v - k - 1) <= k:
                    out.append((v, k, l, num // (v - k - 1)))
    return out


def is_valid(v, k, l, u):
    return v <= 127 and 1 <= k <= v - 2 and 0 <= l < k and 0 <= u <= k and (v - k - 1) * u == k * (k - l - 1)


def srg_error(m, v, k, l, u):
    """why m is not the adjacency matrix of a strongly regular graph (None if it is)"""
    try:
        m = np.array(m, dtype=np.int64)
    except Exception as e:
        return f'not an integer matrix: {e!r}'
    if m.shape != (v, v):
        return f'shape {m.shape}'
    if not np.isin(m, (0, 1)).all():
        return 'entries other than 0/1'
    if (m != m.T).any():
        return 'not symmetric'
    if np.diag(m).any():
        return 'nonzero diagonal'
    want = k * np.eye(v, dtype=np.int64) + l * m + u * (1 - np.eye(v, dtype=np.int64) - m)
    got = m @ m
    if (got != want).any():
        i, j = map(int, np.argwhere(got != want)[0])
        return f'vertices {i},{j}: {got[i, j]} common neighbours, expected {want[i, j]}'
    return None


# ------------------------------------------------------------------------------------------- canonical solutions
def groups_of(A):
    """contiguous groups of equal columns -> list of (start, size)"""
    R, C = A.shape
    gs = []
    for c in range(C):
        if gs and (A[:, c] == A[:, gs[-1][0]]).all():
            gs[-1][1] += 1
        else:
            gs.append([c, 1])
    return [tuple(g) for g in gs]


def sols_nonneg(A, b, ub, limit=None):
    """all x with A x = b, 0 <= x <= ub (A has entries >= 0)"""
    A = np.array(A, dtype=np.int64); b = np.array(b, dtype=np.int64)
    R, C = A.shape
    suffix = np.zeros((C + 1, R), dtype=np.int64)
    for c in range(C - 1, -1, -1):
        suffix[c] = suffix[c + 1] + A[:, c] * int(ub[c])
    out, x = [], [0] * C

    def go(c, res):
        if (res < 0).any() or (res > suffix[c]).any():
            return
        if c == C:
            out.append(tuple(x))
            return
        for t in range(int(ub[c]) + 1):
            x[c] = t
            go(c + 1, res - A[:, c] * t)
            if limit and len(out) >= limit:
                return
        x[c] = 0
    go(0, b)
    return out


def canon_solutions(A, b):
    A = np.array(A, dtype=np.int64)
    gs = groups_of(A)
    cols = [s for s, n in gs]
    res = []
    for w in sols_nonneg(A[:, cols], b, [n for s, n in gs]):
        x = []
        for t, (s, n) in zip(w, gs):
            x += [1] * t + [0] * (n - t)
        res.append(tuple(x))
    return res


def canonical(A, x):
    return all(tuple(x[s:s + n]) == tuple(sorted(x[s:s + n], reverse=True)) for s, n in groups_of(np.array(A)))


# ------------------------------------------------------------------------------------------- graphs
def from_adj(n, f):
    m = np.zeros((n, n), dtype=np.int8)
    for i in range(n):
        for j in range(n):
            if i != j and f(i, j):
                m[i, j] = 1
    return m


def gf_squares(q):
    """adjacency of the Paley graph on GF(q), q = p or p^2"""
    r = int(round(q ** .5))
    if r * r == q:
        p = r
        nr = next(a for a in range(2, p) if a not in {x * x % p for x in range(p)})
        els = [(a, b) for a in range(p) for b in range(p)]
        mul = lambda x, y: ((x[0] * y[0] + nr * x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p)
        sq = {mul(e, e) for e in els if e != (0, 0)}
        return from_adj(q, lambda i, j: ((els[i][0] - els[j][0]) % p, (els[i][1] - els[j][1]) % p) in sq)
    sq = {x * x % q for x in range(1, q)}
    return from_adj(q, lambda i, j: (i - j) % q in sq)


def comp(m):
    n = len(m)
    return (1 - np.array(m) - np.eye(n, dtype=np.int8)).astype(np.int8)


def triangular(n):
    e = list(itertools.combinations(range(n), 2))
    return from_adj(len(e), lambda i, j: len(set(e[i]) & set(e[j])) == 1)


def rook(n):
    return from_adj(n * n, lambda i, j: i // n == j // n or i % n == j % n)


def latin(n):
    return from_adj(n * n, lambda i, j: i // n == j // n or i % n == j % n or (i // n + i % n) % n == (j // n + j % n) % n)


def multipartite(parts, size):
    return from_adj(parts * size, lambda i, j: i // size != j // size)


def shrikhande():
    d = {(0, 1), (0, 3), (1, 0), (3, 0), (1, 1), (3, 3)}
    return from_adj(16, lambda i, j: ((i // 4 - j // 4) % 4, (i % 4 - j % 4) % 4) in d)


def clebsch():
    return from_adj(16, lambda i, j: bin(i ^ j).count('1') == 4 or bin(i ^ j).count('1') == 1) if False else \
        from_adj(16, lambda i, j: (i ^ j) in (1, 2, 4, 8, 15))


def symplectic(n):
    N = 2 ** (2 * n)
    pts = range(1, N)

    def form(a, b):
        s = 0
        for t in range(n):
            s ^= (a >> 2 * t & 1) & (b >> 2 * t + 1 & 1) ^ (a >> 2 * t + 1 & 1) & (b >> 2 * t & 1)
        return s
    p = list(pts)
    return from_adj(len(p), lambda i, j: form(p[i], p[j]) == 0)


def switch(m, s):
    m = m.copy()
    s = set(s)
    n = len(m)
    for i in range(n):
        for j in range(n):
            if i != j and ((i in s) != (j in s)):
                m[i, j] = 1 - m[i, j]
    return m


def changs():
    t = triangular(8)
    e = list(itertools.combinations(range(8), 2))
    idx = {x: i for i, x in enumerate(e)}
    def ed(*ps): return [idx[tuple(sorted(p))] for p in ps]
    return [switch(t, ed((0, 1), (2, 3), (4, 5), (6, 7))),
            switch(t, ed(*[(i, (i + 1) % 8) for i in range(8)])),
            switch(t, ed((0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (5, 6), (6, 7), (3, 7)))]


def hoffman_singleton():
    # Robertson: pentagons P_h, pentagrams Q_i; j of P_h adjacent to h*i+j of Q_i
    def f(a, b):
        ta, ha, ja = a // 25, a % 25 // 5, a % 5
        tb, hb, jb = b // 25, b % 25 // 5, b % 5
        if ta == tb:
            return ha == hb and (ja - jb) % 5 in ((1, 4) if ta == 0 else (2, 3))
        if ta == 1:
            (ta, ha, ja), (tb, hb, jb) = (tb, hb, jb), (ta, ha, ja)
        return (ha * hb + ja) % 5 == jb
    return from_adj(50, f)


def schlafli():
    # complement of the collinearity graph of GQ(2,4): 27 lines on a cubic
    V = [('a', i) for i in range(6)] + [('b', i) for i in range(6)] + [('c', i, j) for i, j in itertools.combinations(range(6), 2)]

    def meet(x, y):
        if x[0] == 'c' and y[0] == 'c':
            return not set(x[1:]) & set(y[1:])
        if x[0] == 'c' or y[0] == 'c':
            c, o = (x, y) if x[0] == 'c' else (y, x)
            return o[1] in c[1:]
        return x[0] != y[0] and x[1] != y[1]
    return from_adj(27, lambda i, j: meet(V[i], V[j]))     # (27,10,1,5)


def params_of(m):
    m = np.array(m, dtype=np.int64)
    v = len(m)
    k = int(m[0].sum())
    s = m @ m
    i, j = next((int(i), int(j)) for i, j in np.argwhere(m))
    l = int(s[i, j])
    non = [(int(i), int(j)) for i, j in np.argwhere(m == 0) if i != j]
    u = int(s[non[0]]) if non else 0
    return v, k, l, u


def known_graphs(vmax):
    """strongly regular graphs with at most vmax vertices; complete up to 17 vertices"""
    out = []
    for q in (5, 9, 13, 17, 25, 29, 37, 41, 49, 53, 61, 73, 89, 97, 101, 109, 113):
        if q <= vmax:
            out.append(gf_squares(q))
    for n in range(5, 17):
        if n * (n - 1) // 2 <= vmax:
            out += [triangular(n), comp(triangular(n))]
    for n in range(4, 12):
        if n * n <= vmax:
            out += [rook(n), comp(rook(n))]
    for n in range(5, 12):
        if n * n <= vmax:
            out += [latin(n), comp(latin(n))]
    if vmax >= 16:
        for g in (shrikhande(), clebsch()):
            out += [g, comp(g)]
    if vmax >= 15:
        out += [symplectic(2), comp(symplectic(2))]
    if vmax >= 63:
        out += [symplectic(3), comp(symplectic(3))]
    if vmax >= 27:
        out += [schlafli(), comp(schlafli())]
    if vmax >= 28:
        out += changs() + [comp(c) for c in changs()]
    if vmax >= 50:
        out += [hoffman_singleton(), comp(hoffman_singleton())]
    for v in range(4, vmax + 1):
        for size in range(2, v // 2 + 1):
            if v % size == 0:
                out += [multipartite(v // size, size), comp(multipartite(v // size, size))]
    return out


def permute(m, p):
    return m[np.ix_(p, p)]


def random_canonical(m, rng):
    """random relabelling in which every row is 'ones first' within the columns that look alike so far"""
    n = len(m)
    order = list(range(n))
    rng.shuffle(order)
    groups = [order]
    done = []
    while groups:
        g0 = groups.pop(0)
        x, rest = g0[0], g0[1:]
        done.append(x)
        new = []
        for g in ([rest] if rest else []) + groups:
            on = [y for y in g if m[x, y]]
            off = [y for y in g if not m[x, y]]
            rng.shuffle(on), rng.shuffle(off)
            new += [h for h in (on, off) if h]
        groups = new
    return m[np.ix_(done, done)]


def random_relabel_edge_first(m, rng):
    n = len(m)
    p = list(range(n))
    rng.shuffle(p)
    a = p[0]
    b = next(y for y in p[1:] if m[a, y])
    p.remove(b)
    p.insert(1, b)
    return m[np.ix_(p, p)]


def isomorphic(a, b):
    a = np.array(a, dtype=np.int64); b = np.array(b, dtype=np.int64)
    n = len(a)
    if n != len(b):
        return False

    def inv(m):
        m3 = []
        for i in range(n):
            nb = np.flatnonzero(m[i])
            sub = m[np.ix_(nb, nb)]
            nn = np.flatnonzero((m[i] == 0))
            nn = nn[nn != i]
            sub2 = m[np.ix_(nn, nn)]
            m3.append((len(nb), int(np.trace(sub @ sub @ sub @ sub)), int(np.trace(sub2 @ sub2 @ sub2 @ sub2)),
                       tuple(sorted(map(int, np.diag(sub @ sub @ sub))))))
        return m3
    ia, ib = inv(a), inv(b)
    if sorted(ia) != sorted(ib):
        return False
    mp, used = [], set()

    def go(i):
        if i == n:
            return True
        for y in range(n):
            if y in used or ia[i] != ib[y]:
                continue
            if all(a[i, j] == b[y, mp[j]] for j in range(i)):
                mp.append(y); used.add(y)
                if go(i + 1):
                    return True
                mp.pop(); used.discard(y)
        return False
    return go(0)


def legal_row(M, R, x, v, k, l, u):
    """is (column R of M, 0, x) a legal next row for M?"""
    M = np.array(M, dtype=np.int64)
    row = np.concatenate([M[:, R], [0], np.array(x, dtype=np.int64)])
    if row.sum() != k:
        return False
    for i in range(R):
        if int(M[i] @ row) != (l if M[i, R] else u):
            return False
    return True


def upper(m):
    m = np.array(m)
    n = len(m)
    return [int(m[i, j]) for i in range(n) for j in range(i + 1, n)]
