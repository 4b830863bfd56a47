"""small functions over the library calls that the verifier models; CASES: concrete arguments"""
import numpy as np
import heapq
from functools import reduce
from itertools import chain
from collections import defaultdict, deque
from functools import partial

def sl(a, i, j): return a[i:j]
def sl_neg(a): return a[1:-1]
def sl_full(a): return a[:]
def idx(a, i): return a[i]
def rowslice(M, r, i, j): return M[r, i:j]
def cols(M, i): return M[:, i]
def submat(M, i): return M[:, i:]
def rows(M, i): return M[:i]
def fancy_cols(M, ix): return M[:, ix]
def fancy_rows(M, ix): return M[ix]
def fancy(a, ix): return a[ix]
def setslice(a, i, j):
    a[i:j] = 1
    return a
def setrow(M, r, i, j):
    M[r, i:j] = 1
    return M
def setitem(a, i, x):
    a[i] = x
    return a
def setfancy(a, ix):
    a[ix] = 7
    return a
def view_write(a):
    v = a[1:]
    v[0] = 9
    return a
def copy_write(a):
    v = a[1:].copy()
    v[0] = 9
    return a
def fancy_write(a, ix):
    v = a[ix]
    v[0] = 9
    return a
def row_view(M):
    r = M[0]
    r[0] = 9
    return M
def isub_alias(a, b):
    c = a
    a -= b
    return c
def sub_noalias(a, b):
    c = a
    a = a - b
    return c
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, x): return a * x
def neg(a): return -a
def matvec(M, a): return M @ a
def dot(a, b): return a.dot(b)
def total(a): return a.sum()
def nptotal(a): return np.sum(a)
def colsums(M): return M.sum(axis=0)
def rowsums(M): return M.sum(axis=1)
def cmp_lt(a, x): return np.any(a < x)
def cmp_all(a, x): return np.all(a >= x)
def cmp_arr(a, b): return np.any(a > b)
def any_py(a): return any(a != 0)
def all_py(a): return all(a)
def where0(a): return np.where(a == 0)[0]
def nonzero(a): return np.nonzero(a)[0]
def nonzero_m(a): return a.nonzero()[0]
def flatnz(a): return np.flatnonzero(a)
def where3(a): return np.where(a > 0, 5, a)
def diff(a): return np.diff(a)
def argmin(a): return np.argmin(a)
def argmax(a): return np.argmax(a)
def amin(a): return a.min()
def amax(a): return a.max()
def delete1(a, i): return np.delete(a, i)
def delete_list(a, ix): return np.delete(a, ix)
def delete_col(M, i): return np.delete(M, i, axis=1)
def delete_cols(M, ix): return np.delete(M, ix, axis=1)
def delete_row(M, i): return np.delete(M, i, axis=0)
def append(a, x): return np.append(a, x)
def append_row(M, a): return np.append(M, a.reshape(1, len(a)), axis=0)
def r_(a, x, b): return np.r_[a, x, b]
def r0(a): return np.r_[0, a]
def hstack2(a, b): return np.hstack([a, b])
def hstack_x(a, x): return np.hstack((a, x))
def vstack(M, a): return np.vstack([M, a])
def concat(a, b): return np.concatenate([a, b])
def repeat(a, n): return np.repeat(a, n)
def arange(n): return np.arange(n)
def zeros(n): return np.zeros(n, dtype=np.int8)
def ones2(n): return np.ones((2, n), dtype=np.int8) * -1
def ident(n): return np.identity(n, dtype=np.int8)
def transpose(M): return M.T
def aeq(a, b): return np.array_equal(a, b)
def aeq_m(M, a): return np.array_equal(M, a)
def argsort(a): return np.argsort(a, kind='stable')
def argsort_neg(a): return np.argsort(-a, kind='stable')
def reshape(a): return a.reshape(1, len(a))
def size(a): return a.size
def shape(M): return M.shape
def length(M): return len(M)
def vec(a): return np.vectorize(lambda t: 0 if t else 1)(a)
def trace(M): return np.trace(M)
def ix_(M, ix): return M[np.ix_(ix, ix)]
def astype(a): return a.astype(object) << 2
def revslice(a): return a[::-1]
def floor(x, y): return x // y
def mod(x, y): return x % y
def divm(x, y): return divmod(x, y)
def minmax(x, y): return min(x, y), max(x, y)
def power(x): return x ** 3
def chained(x, y): return 0 <= x < y
def ternary(x): return 1 if x else 2
def boolop(x, y): return x or y
def booland(x, y): return x and y
def listor(l, x): return l or [x]
def listand(l, x): return l and [x]
def condor(x, y):
    if x or y: return 5
    return 6
def condor3(l, x, y): return bool(l and (x or y > 1))
def notx(x): return not x
def shifts(x): return x << 3, x >> 1
def rng(n): return list(range(n))
def rng2(m, n): return list(range(m, n))
def rng_back(n): return list(range(n - 1, -1, -1))
def rev(n): return list(reversed(range(n)))
def listcat(l, m): return l + m
def listslice(l): return l[1:]
def listneg(l): return l[-1]
def liststar(l):
    x, *y = l
    return y
def listapp(l, x):
    l.append(x)
    return l
def listalias(l, x):
    m = l
    m += [x]
    return l
def listnoalias(l, x):
    m = l
    m = m + [x]
    return l
def listpop(l):
    x = l.pop()
    return x, l
def listclear(l):
    m = l
    l.clear()
    return m
def comp(l, x): return [y for y in l if y > x]
def comp2(l): return [2 * y for y in l]
def anygen(l, x): return any(y > x for y in l)
def allgen(l, x): return all(y > x for y in l)
def sumlist(l): return sum(l)
def zipl(l, m): return list(zip(l, m))
def enum(l): return list(enumerate(l))
def chainl(l, m): return list(chain(l, m))
def mapl(l): return list(map(lambda t: t + 1, l))
def filt(l): return list(filter(lambda t: t > 1, l))
def sortedl(l): return sorted(l)
def heappop(l):
    h = sorted(l)
    x = heapq.heappop(h)
    return x
def merge(l, m): return list(heapq.merge(sorted(l), sorted(m)))
def tuples(x, y): return (x, y) == (1, 2), (x, y) < (2, 2)
def unpack_swap(x, y):
    x, y = y, x
    return x, y
def isin(l, x): return x in l
def fin(x):
    try:
        if x > 1: raise ValueError('x')
        return 0
    except ValueError:
        return 1
def asserts(x):
    assert x > 1
    return x
def oob(l, i): return l[i]
def for_else(l):
    for y in l:
        if y > 2: break
    else:
        return 0
    return 1
def redu(l): return reduce(lambda x, y: x + y, l, 0)
def part(x): return partial(min, x)(3)
def strs(x): return f'a_{x}' == 'a_3'
def closure(x):
    f = lambda y: x + y
    x = x + 1
    return f(1)
def default(x, y=4): return x + y
def nested(x):
    def g(z):
        nonlocal x
        x += z
        return x
    g(2)
    return x
def maskidx(a): return a[a > 1]
def bigand(x, y): return x & y
def cnt(a): return np.count_nonzero(a)
def minim(a, x): return np.minimum(a, x)
def prod2(M, N): return M @ N
def outer_cmp(a, b): return (a == b).all()
def notneg(a): return not np.any(a < 0)

class Box:
    K = 4
    def __init__(self, x):
        self.x = x
        self._y = x + 1
    @property
    def y(self): return self._y
    @y.setter
    def y(self, v):
        assert v > 0
        self._y = v
    @classmethod
    def make(cls, x): return cls(x + cls.K)
    @staticmethod
    def twice(x): return 2 * x
    def __eq__(self, o): return self.x == o.x
    def __len__(self): return 7

class Err(Exception): pass
class Err2(Err): pass

def box_prop(x):
    b = Box(x)
    b.y += 3
    return b.y
def box_setter(x):
    b = Box(1)
    b.y = x
    return b.y
def box_make(x): return Box.make(x).x
def box_static(x): return Box.twice(x)
def box_eq(x, y): return Box(x) == Box(y)
def box_len(x): return len(Box(x))
def box_alias(x):
    b = Box(x)
    c = b
    c.x = 9
    return b.x
def exc_sub(x):
    try:
        if x > 1: raise Err2('a')
        if x > 0: raise Err('b')
        return 0
    except Err2:
        return 1
    except Err:
        return 2
def exc_super(x):
    try:
        if x > 1: raise Err('a')
        return 0
    except Err2:
        return 1
def exc_else(x):
    try:
        if x > 1: raise Err('a')
    except Err:
        return 1
    else:
        x = x + 10
    return x
def exc_assert(x):
    try:
        assert x > 1
    except AssertionError:
        return 5
    return 6
def exc_tuple(x):
    try:
        if x: raise Err('a')
        assert x
    except (Err, AssertionError):
        return 5
def gen3(x):
    yield x
    if x > 1: yield x + 1
    yield 7
def use_gen(x): return list(gen3(x))
def use_gen_for(x):
    t = 0
    for y in gen3(x): t += y
    return t
def use_gen_next(x): return next(gen3(x))
def gen_comp(x): return [2 * y for y in gen3(x) if y < 7]
def yf(x):
    yield from [x, x]
    yield from gen3(x)
def use_yf(x): return list(yf(x))
def lazy(x):
    g = gen3(x)
    x = 100
    return list(g)
def while1(n):
    t = 0
    while True:
        t += 2
        if t > 3: break
    return t + n
def early(x):
    for y in (1, 2, 3):
        if y == x: return y * 10
    return 0
def cont():
    t = 0
    for y in (1, 2, 3):
        if y == 2: continue
        t += y
    return t
def kwargs_(x): return default2(y=x, x=1)
def default2(x, y=2, *, z=3): return 100 * x + 10 * y + z
def stars(l): return default2(*l)
def star2(x):
    d = dict(x=x, y=5)
    return default2(**d)
def varargs(x): return collect(x, 2, 3)
def collect(x, *r): return len(r), r[0]
def dictget(x):
    d = {1: 10, 2: 20}
    return d[1] + d.get(3, 5), 2 in d, len(d)
def dictkey():
    d = {1: 10}
    return d[2]
def dd(x):
    d = defaultdict(list)
    d[1].append(x)
    d[1].append(3)
    return d[1], len(d)
def dictord():
    d = {}
    d[3] = 1
    d[1] = 2
    d[3] = 5
    return list(d.items())
def deq(x):
    q = deque()
    q.append(x)
    q.append(2)
    q.append(3)
    y = q.popleft()
    z = q.pop()
    return y, z, len(q)
def tup(x): return (x, 2) + (3,)
def tuple_get(x): return (x, 5, 6)[1:]
def neg_idx(x): return (x, 5, 6)[-1]
def too_many(l):
    a, b = l
    return a + b
def aug_attr(x):
    b = Box(x)
    b.x -= 1
    b.x *= 3
    return b.x
def shadow(x):
    l = [x for x in (1, 2)]
    return x
def late(x):
    fs = [lambda: y for y in (1, 2)]
    return fs[0]()
def mutable(x):
    l = [[0], [0]]
    l[0].append(x)
    return l[1], l[0]
def shared(x):
    l = [[]] * 2
    l[0].append(x)
    return len(l[1])
def listcopy(l):
    m = l.copy()
    m.append(1)
    return l
def slicecopy(l):
    m = l[:]
    m.append(1)
    return l
def extend(l, m):
    l.extend(m)
    return l
def insert0(l):
    l.insert(0, 9)
    return l
def delslice(l):
    l[:] = [y for y in l if y > 1]
    return l
def sort_key(l): return sorted(l, key=lambda t: -t)
def sort_rev(l): return sorted(l, reverse=True)
def min_list(l): return min(l)
def max_def(l): return max(l, default=3)
def absx(x): return abs(x)
def intdiv(x): return int(x / 2)
def eqtup(x): return (x, [1]) == (1, [1])
def isnone(x):
    y = None
    return y is None, x is not None
def walrus(x):
    if (y := x + 1) > 2: return y
    return 0
def strw(x): return 'problem_1'.startswith('problem'), 'a_b'.split('_')[1] == 'b'
def deco(f):
    def w(x):
        r = f(x)
        return r + 100
    return w
@deco
def decorated(x): return x
def use_deco(x): return decorated(x)
def compose_(x):
    f = lambda g: lambda t: g(g(t))
    return f(lambda t: t + 3)(x)
def arr_in_tuple(a):
    b, c = a.copy(), a
    c[0] = 5
    return b[0], a[0]
def swap_cols(M):
    ix = np.arange(M.shape[1])
    ix[0], ix[1] = ix[1], ix[0]
    return M[:, ix]
def write_all(M, N):
    M[:, :] = N
    return M
def write_col(M, a):
    M[:, 1] = a
    return M
def write_mask(a):
    a[a > 1] = 0
    return a
def perm_rows(M, ix):
    M[:, :] = M[ix, :]
    return M
def iadd_view(a):
    v = a[1:]
    v += 5
    return a
def iadd_row(M):
    r = M[-1, :]
    r += 5
    return M
def mulrow(M): return M[0] * M[1]
def sumneg(a): return (-a).sum()
def eqcount(a): return (a == 1).sum()
def iterrows(M): return [r.sum() for r in M]
def iterpairs(M, a): return [(r.sum(), x) for r, x in zip(M, a)]
def nz2(M): return list(zip(*M.nonzero()))
def group(M):
    d = defaultdict(list)
    for r, c in zip(*M.nonzero()): d[r].append(c)
    return len(d)
def arr_bool(a): return 1 if a.size and a[0] else 0
def amb(a): return 1 if a == a else 0
def badshape(a, b): return a + b
def badmat(M, a): return M @ a
def setlen(a, b):
    a[:] = b
    return a
def unpack_shape(M):
    R, C = M.shape
    return R * 10 + C
def unpack_shape1(a):
    R, C = a.shape
    return R
def fl(x): return int(np.sqrt(x))
def rnd(x): return int(round(x / 2))
def cmp_chain(x, y): return x == y == 1
def notin(l, x): return x not in l
def mod2(x): return x % 2 == 0 and x // 2 > 1
def tri(x): return [1, 2, 3][x]
def bits(x):
    r = []
    for i in range(3): r.append((x >> i) & 1)
    return r

def lazygen(l):
    g = (y for y in l)
    l.append(5)
    return list(g)
def lazygen2(l):
    k = 1
    g = (y + k for y in l)
    k = 10
    return list(g)
def lazymap(l):
    k = 1
    g = map(lambda y: y + k, l)
    k = 10
    return list(g)
def lazyzip(l):
    g = zip(l, l)
    l.append(3)
    return list(g)
def twice(l):
    g = (y for y in l)
    a = list(g)
    return a + list(g)
def twice_map(l):
    g = map(lambda t: t, l)
    return len(list(g)) + len(list(g))
def rev_mut(l):
    g = reversed(l)
    l[0] = 9
    return list(g)
def gen_state(x):
    b = Box(x)
    def g():
        yield b.x
        b.x = 50
        yield b.x
    r = list(g())
    return r, b.x
def gen_interleave(x):
    b = Box(x)
    def g():
        for i in (1, 2):
            yield b.x
    t = []
    for y in g():
        b.x += 10
        t.append(y)
    return t
def comp_scope(x):
    y = 3
    l = [y for y in (1, 2)]
    return y
def iter_modify(l):
    t = 0
    for y in list(l):
        l.append(y)
        t += 1
    return t, len(l)
def any_short(l):
    n = []
    any(n.append(y) or y > 1 for y in l)
    return len(n)
def default_mut(x):
    def f(y, acc=[]):
        acc.append(y)
        return len(acc)
    f(1)
    return f(x)
def min_tuple(x, y): return min((x, 1), (y, 0))
def sort_tuple(l, m): return sorted(zip(l, m))
def sort_stable(l): return sorted(enumerate(l), key=lambda t: t[1])
def unpack_gen(x):
    a, b = (y for y in (x, 2))
    return a - b
def slice_assign_alias(a):
    b = a
    b[0] = 4
    return a
def param_rebind(a):
    def f(z):
        z = z + 1
        return z
    f(a)
    return a
def param_mut(a):
    def f(z):
        z[0] = 8
    f(a)
    return a
def obj_default(x):
    class C:
        l = []
    C.l.append(x)
    return len(C.l)
def int_trunc(a): return [int(x) for x in a]
def npint(a): return a[0] // 2, a[1] % 2
def summax(M): return M.sum(), M.max()
def trans_write(M):
    T = M.T
    T[0, 1] = 9
    return M
def reshape_write(a):
    r = a.reshape(1, len(a))
    r[0, 0] = 9
    return a
def ravel_(M): return M.ravel()
def sorted_arr(a): return np.sort(a)
def cumsum_(a): return np.cumsum(a)
def stack_rows(a, b): return np.array([a, b])
def arr_of_list(l): return np.array(l)
def row_iter_write(M):
    for r in M:
        r[0] = 7
    return M
def swap_rows_view(M):
    M[0], M[1] = M[1].copy(), M[0].copy()
    return M
def swap_rows_alias(M):
    M[0], M[1] = M[1], M[0]
    return M
def self_overlap(a):
    a[1:] = a[:-1]
    return a

a1, a2, a3, a0 = [0, 2, 1], [1, 0, 3], [1, 1, 0, 2], []
A = lambda *x: np.array(x, dtype=np.int64)
M1 = np.array([[1, 0, 2], [0, 1, 1]]); M2 = np.array([[0, 1, 1], [1, 0, 0], [1, 0, 0]])
V = A(0, 2, 1)
CASES = {
 'sl': [(V, 0, 2), (V, 1, 5), (V, 2, 1), (V, 1, -1)], 'sl_neg': [(V,)], 'sl_full': [(V,)], 'idx': [(V, 0), (V, 2), (V, -1), (V, 3)],
 'rowslice': [(M1, 0, 1, 3), (M1, 1, 0, 2)], 'cols': [(M1, 2), (M1, -1), (M1, 3)], 'submat': [(M1, 1), (M1, 3)], 'rows': [(M1, 1)],
 'fancy_cols': [(M1, A(2, 0)), (M1, A(1, 1, 1))], 'fancy_rows': [(M2, A(2, 0))], 'fancy': [(V, A(2, 2))], 'setslice': [(V, 0, 2), (V, 2, 9)],
 'setrow': [(M1, 1, 0, 2)], 'setitem': [(V, 1, 5), (V, -1, 5)], 'setfancy': [(V, A(0, 2))], 'view_write': [(V,)], 'copy_write': [(V,)],
 'fancy_write': [(V, A(0, 2))], 'row_view': [(M1,)], 'isub_alias': [(V, A(1, 1, 1))], 'sub_noalias': [(V, A(1, 1, 1))], 'add': [(V, A(1, 2, 3))],
 'sub': [(V, A(1, 2, 3))], 'mul': [(V, 3)], 'neg': [(V,)], 'matvec': [(M1, V)], 'dot': [(V, A(1, 2, 3))], 'total': [(V,), (A(),)], 'nptotal': [(V,)],
 'colsums': [(M1,)], 'rowsums': [(M1,)], 'cmp_lt': [(V, 1), (V, 0), (A(), 1)], 'cmp_all': [(V, 0), (V, 1), (A(), 1)], 'cmp_arr': [(V, A(1, 2, 1)), (V, A(0, 1, 1))],
 'any_py': [(V,), (A(0, 0),)], 'all_py': [(V,), (A(1, 2),)], 'where0': [(V,), (A(0, 1, 0),), (A(1, 1),)], 'nonzero': [(V,), (A(0, 0),)], 'nonzero_m': [(V,)], 'flatnz': [(V,)],
 'where3': [(V,)], 'diff': [(V,), (A(3),)], 'argmin': [(A(2, 1, 1),), (V,)], 'argmax': [(A(2, 3, 3),)], 'amin': [(V,)], 'amax': [(V,)],
 'delete1': [(V, 1), (V, 0)], 'delete_list': [(A(5, 6, 7, 8), A(2, 0)), (V, A(1))], 'delete_col': [(M1, 1)], 'delete_cols': [(M1, A(0, 2))], 'delete_row': [(M1, 0)],
 'append': [(V, 4)], 'append_row': [(M1, V)], 'r_': [(V, 4, A(1, 2))], 'r0': [(V,)], 'hstack2': [(V, A(4))], 'hstack_x': [(V, 4)], 'vstack': [(M1, V)], 'concat': [(V, A(4))],
 'repeat': [(V, 2)], 'arange': [(3,), (0,)], 'zeros': [(2,)], 'ones2': [(2,)], 'ident': [(2,)], 'transpose': [(M1,)], 'aeq': [(V, A(0, 2, 1)), (V, A(0, 2)), (V, A(0, 2, 2))],
 'aeq_m': [(M1, V)], 'argsort': [(A(2, 1, 1),), (V,)], 'argsort_neg': [(A(0, 1, 1),)], 'reshape': [(V,)], 'size': [(V,), (M1,)], 'shape': [(M1,)], 'length': [(M1,)],
 'vec': [(V,)], 'trace': [(M2,)], 'ix_': [(M2, A(2, 0))], 'astype': [(V,)], 'revslice': [(V,)],
 'floor': [(7, 2), (-7, 2), (7, -2), (-7, -2)], 'mod': [(7, 2), (-7, 2), (7, -2), (-7, -2)], 'divm': [(7, 2), (-7, 2)], 'minmax': [(1, 2), (2, 1)], 'power': [(2,), (-2,)],
 'chained': [(0, 1), (1, 1), (-1, 1)], 'ternary': [(0,), (3,)], 'boolop': [(0, 2), (3, 2)], 'booland': [(0, 2), (3, 2)], 'shifts': [(3,), (-3,)],
 'listor': [([1], 2), ([], 2)], 'listand': [([1], 2), ([], 2)], 'condor': [(0, 0), (0, 2), (1, 0)], 'condor3': [([1], 0, 2), ([], 1, 1), ([1], 0, 0)], 'notx': [(0,), (2,)],
 'rng': [(3,), (0,), (-1,)], 'rng2': [(1, 3), (3, 1)], 'rng_back': [(3,), (0,)], 'rev': [(3,)], 'listcat': [([1, 2], [3])], 'listslice': [([1, 2, 3],), ([],)], 'listneg': [([1, 2],), ([],)],
 'liststar': [([1, 2, 3],), ([1],), ([],)], 'listapp': [([1], 2)], 'listalias': [([1], 2)], 'listnoalias': [([1], 2)], 'listpop': [([1, 2],), ([],)], 'listclear': [([1],)],
 'comp': [([1, 3, 2, 3], 2), ([], 1)], 'comp2': [([1, 2],)], 'anygen': [([1, 3], 2), ([1], 2), ([], 2)], 'allgen': [([1, 3], 2), ([3], 2), ([], 2)], 'sumlist': [([1, 3],), ([],)],
 'zipl': [([1, 2], [3, 4]), ([1, 2], [3])], 'enum': [([5, 6],)], 'chainl': [([1], [2, 3])], 'mapl': [([1, 2],)], 'filt': [([1, 2, 3],)], 'sortedl': [([3, 1, 2],)],
 'heappop': [([3, 1, 2],)], 'merge': [([3, 1], [2])], 'tuples': [(1, 2), (2, 1)], 'unpack_swap': [(1, 2)], 'isin': [([1, 2], 2), ([1, 2], 3)], 'fin': [(1,), (2,)],
 'asserts': [(1,), (2,)], 'oob': [([1, 2], 1), ([1, 2], 2), ([1, 2], -2), ([1, 2], -3)], 'for_else': [([1, 3],), ([1],), ([],)], 'redu': [([1, 2],), ([],)], 'part': [(2,), (5,)],
 'strs': [(3,), (4,)], 'closure': [(1,)], 'default': [(1,)], 'nested': [(1,)], 'maskidx': [(V,), (A(2, 1, 3),)], 'bigand': [(6, 3)], 'cnt': [(V,)], 'minim': [(V, 1)],
 'prod2': [(M1, M2)], 'outer_cmp': [(V, A(0, 2, 1))], 'notneg': [(V,), (A(1, -1),)],
}

CASES.update({
 'box_prop': [(1,)], 'box_setter': [(1,), (0,)], 'box_make': [(1,)], 'box_static': [(3,)], 'box_eq': [(1, 1), (1, 2)], 'box_len': [(1,)], 'box_alias': [(1,)],
 'exc_sub': [(0,), (1,), (2,)], 'exc_super': [(1,), (2,)], 'exc_else': [(1,), (2,)], 'exc_assert': [(1,), (2,)], 'exc_tuple': [(0,), (1,)],
 'use_gen': [(1,), (2,)], 'use_gen_for': [(1,), (2,)], 'use_gen_next': [(1,)], 'gen_comp': [(1,), (2,)], 'use_yf': [(1,), (2,)], 'lazy': [(1,)], 'while1': [(1,)], 'early': [(2,), (5,)], 'cont': [()],
 'kwargs_': [(4,)], 'stars': [([1, 2],), ([],)], 'star2': [(1,)], 'varargs': [(1,)], 'dictget': [(1,)], 'dictkey': [()], 'dd': [(1,)], 'dictord': [()], 'deq': [(1,)], 'tup': [(1,)], 'tuple_get': [(1,)],
 'neg_idx': [(1,)], 'too_many': [([1, 2],), ([1, 2, 3],), ([1],)], 'aug_attr': [(3,)], 'shadow': [(5,)], 'late': [(5,)], 'mutable': [(5,)], 'shared': [(5,)], 'listcopy': [([2],)], 'slicecopy': [([2],)],
 'extend': [([1], [2])], 'insert0': [([1],)], 'delslice': [([1, 2],)], 'sort_key': [([1, 3],)], 'sort_rev': [([1, 3],)], 'min_list': [([2, 1],), ([],)], 'max_def': [([2, 1],), ([],)], 'absx': [(-2,), (2,)],
 'intdiv': [(4,), (5,), (-5,)], 'eqtup': [(1,), (2,)], 'isnone': [(1,)], 'walrus': [(1,), (2,)], 'strw': [(1,)], 'use_deco': [(1,)], 'compose_': [(1,)], 'arr_in_tuple': [(V,)], 'swap_cols': [(M1,)],
 'write_all': [(M1, M1 * 2)], 'write_col': [(M1, A(5, 6))], 'write_mask': [(V,)], 'perm_rows': [(M2, A(2, 0, 1))], 'iadd_view': [(V,)], 'iadd_row': [(M1,)], 'mulrow': [(M1,)], 'sumneg': [(V,)], 'eqcount': [(V,)],
 'iterrows': [(M1,)], 'iterpairs': [(M1, A(4, 5)), (M1, A(4))], 'nz2': [(M1,)], 'group': [(M1,)], 'arr_bool': [(V,), (A(),), (A(2),)], 'amb': [(V,), (A(1),)], 'badshape': [(V, A(1, 2))], 'badmat': [(M1, A(1, 2))],
 'setlen': [(V, A(1, 2, 3)), (V, A(1, 2))], 'unpack_shape': [(M1,)], 'unpack_shape1': [(V,)], 'fl': [(9,), (16,)], 'rnd': [(4,), (6,)], 'cmp_chain': [(1, 1), (2, 2)], 'notin': [([1], 1), ([1], 2)],
 'mod2': [(4,), (2,), (3,)], 'tri': [(0,), (2,), (-1,), (3,)], 'bits': [(5,)],
})

CASES.update({
 'lazygen': [([1],)], 'lazygen2': [([1],)], 'lazymap': [([1],)], 'lazyzip': [([1],)], 'twice': [([1],)], 'twice_map': [([1],)], 'rev_mut': [([1, 2],)], 'gen_state': [(1,)], 'gen_interleave': [(1,)],
 'comp_scope': [(1,)], 'iter_modify': [([1, 2],)], 'any_short': [([1, 2, 3],)], 'default_mut': [(1,)], 'min_tuple': [(1, 1), (0, 1)], 'sort_tuple': [([2, 1], [1, 5])], 'sort_stable': [([2, 1, 1],)], 'unpack_gen': [(5,)],
 'slice_assign_alias': [(V,)], 'param_rebind': [(V,)], 'param_mut': [(V,)], 'obj_default': [(1,)], 'int_trunc': [(V,)], 'npint': [(A(-3, -3),)], 'summax': [(M1,)], 'trans_write': [(M1,)], 'reshape_write': [(V,)],
 'ravel_': [(M1,)], 'sorted_arr': [(V,)], 'cumsum_': [(V,)], 'stack_rows': [(V, A(4, 5, 6))], 'arr_of_list': [([1, 2],), ([],)], 'row_iter_write': [(M1,)], 'swap_rows_view': [(M1,)], 'swap_rows_alias': [(M1,)],
 'self_overlap': [(V,)],
})


def gen_break(n, k):
    def g():
        for i in range(n):
            yield i
    s = 0
    for x in g():
        if x == k:
            break
        s += x + 1
    return s


def gen_break2(n, k):
    def g():
        for i in range(n):
            yield i * 2
    out = []
    for x in g():
        if x > k:
            break
        out.append(x)
    return out


def gen_break_after(n, k):
    def g():
        for i in range(n):
            yield i
    last = -1
    for x in g():
        last = x
        if x >= k:
            break
    return last


def list_sort_len(l):
    m = list(l)
    m.sort()
    return len(m)


CASES.update({'gen_break': [(4, 2), (4, 0), (3, 7), (0, 1)], 'gen_break2': [(5, 5), (3, 9), (3, -1)], 'gen_break_after': [(5, 2), (2, 9), (0, 0)],
              'list_sort_len': [([3, 1, 2],)]})


def dt_bool(n):
    m = np.zeros(n, dtype=bool)
    m[1] = True
    return (~m).sum(), np.arange(n)[m]


def dt_astype_bool(x):
    return (~x.astype(bool)).sum()


def dt_int8(x):
    return x.astype(np.int8)


def dt_sum(x):
    return np.sum(x, dtype=np.int8)


def kw_keepdims(x):
    return x.sum(axis=1, keepdims=True)


def dt_ones(n):
    return np.ones(n, dtype=np.int8).sum() + np.full(n, 3, dtype=np.int64).sum()


def dt_obj(n):
    return 2 ** np.arange(n, dtype=object)


def sum_start(l):
    return sum(l, start=3)


CASES.update({'dt_bool': [(4,)], 'dt_astype_bool': [(A(0, 2, 1),)], 'dt_int8': [(A(300, 1),)], 'dt_sum': [(A(100, 100),)], 'kw_keepdims': [(A([1, 2], [0, 1]),)],
              'dt_ones': [(3,)], 'dt_obj': [(4,)], 'sum_start': [([1, 2],)]})
