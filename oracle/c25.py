from .core import *
import math
import numpy as np
from scipy.sparse import csr_matrix
from soynlp.word._pmi import pmi, pmi_memory_friendly


def check(case):
    n, m = case['shape']
    T = case['entries']
    X = csr_matrix(([float(v) for _, _, v in T], ([i for i, _, _ in T], [j for _, j, _ in T])), shape=(n, m))
    if case.get('raw'):                 # explicit zeros and positions given twice are kept as stored
        X = csr_matrix((n, m)) if not T else csr_matrix((np.array([float(v) for _, _, v in sorted(T)]), np.array([j for _, j, _ in sorted(T)]), np.array([sum(1 for t in T if t[0] < i) for i in range(n + 1)])), shape=(n, m))
    given, mn, al, be = case['py'], case['min_pmi'], case['alpha'], case['beta']
    ctx = 'X=%r shape %r py=%r min_pmi=%r alpha=%r beta=%r' % (T, (n, m), given, mn, al, be)
    A = [[0.] * m for _ in range(n)]
    for i, j, v in T: A[i][j] += v
    tot = sum(map(sum, A))
    px = [sum(r) / tot for r in A]
    py = given or [sum(r[j] for r in A) / tot for j in range(m)]
    if be < 1:
        py = [v ** be for v in py]
        s = sum(py)
        py = [v / s for v in py]
    near = lambda a, b: abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    exp = {}
    for i in range(n):
        for j in range(m):
            if A[i][j] > 0 and px[i] > 0 and py[j] + al > 0: exp[i, j] = math.log(A[i][j] / tot / (px[i] * (py[j] + al)))
    # with powers of two every operation is exact, so a value equal to the minimum is decided too
    two = lambda v: v > 0 and math.frexp(v)[0] == .5
    exact = be == 1 and mn == 0 and two(tot) and all(two(v) for v in px) and all(two(v + al) for v in py) and all(v == 0 or two(v) for r in A for v in r)
    before = X.copy()
    arg = None if given is None else np.array([given])
    for f in (pmi, pmi_memory_friendly):
        name = '%s of %s' % (f.__name__, ctx)
        r, qx, qy = f(X, py=arg, min_pmi=mn, alpha=al, beta=be)
        if arg is not None and arg.tolist() != [given]: return name + ' changes the py it is given'
        if (X.data.tolist(), X.indices.tolist(), X.indptr.tolist()) != (before.data.tolist(), before.indices.tolist(), before.indptr.tolist()): return name + ' changes X'
        qx, qy = np.asarray(qx).reshape(-1).tolist(), np.asarray(qy).reshape(-1).tolist()
        if len(qx) != n or not all(map(near, qx, px)): return '%s: px %r, row probabilities %r' % (name, qx, px)
        if len(qy) != m or not all(map(near, qy, py)): return '%s: py %r, context probabilities %r' % (name, qy, py)
        if r.shape != (n, m): return '%s has shape %r' % (name, r.shape)
        d = r.tocoo()
        pos = list(zip(d.row.tolist(), d.col.tolist()))
        got = dict(zip(pos, d.data.tolist()))
        if len(pos) != len(got): return '%s stores a position twice: %r' % (name, pos)
        for k, v in got.items():
            if k not in exp and (py[k[1]] + al <= 0 or px[k[0]] <= 0): continue          # no value is defined there
            if k not in exp or not near(exp[k], v): return '%s stores %r at %r, the definition gives %r' % (name, v, k, exp.get(k))
            if v < mn - 1e-9: return '%s stores %r at %r' % (name, v, k)
        if exact and f is pmi:
            for k in exp:
                if (k in got) != (A[k[0]][k[1]] / tot >= px[k[0]] * (py[k[1]] + al)): return '%s: %r is %sstored, its value is exactly %r' % (name, k, '' if k in got else 'not ', exp[k])
        for k, v in exp.items():
            # a value of exactly zero may be an absent dok entry; values within rounding of the minimum may fall either way
            if k not in got and v > mn + 1e-9 and abs(v) > 1e-12: return '%s stores nothing at %r, the value is %r' % (name, k, v)


def gen(rng, lits):
    n, m = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 5])
    ks = [(i, j) for i in range(n) for j in range(m)]
    T = [[i, j, rng.choice([1, 1, 2, 3, 4, 7, 20, .5, 0])] for i, j in rng.sample(ks, rng.randint(1, len(ks)))]
    if rng.random() < .15:
        n, m = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])
        T = [[i, j, rng.choice([1, 1, 1, 2])] for i in range(n) for j in range(m)] if rng.random() < .7 else [[i, j, 2] for i in range(n) for j in range(m) if (i + j) % 2 == 0]
        return {'shape': [n, m], 'entries': T, 'raw': rng.random() < .5, 'py': rng.choice([None, [1 / m] * m]), 'min_pmi': 0, 'alpha': 0.0, 'beta': 1}
    py = None
    if rng.random() < .4: py = [rng.choice([0., .1, .25, .5, 1., .01, 3.]) for _ in range(m)]
    return {'shape': [n, m], 'entries': T, 'raw': rng.random() < .5, 'py': py, 'min_pmi': rng.choice([0, 0, 0.5, 1, -1, -10, .1, 2]), 'alpha': rng.choice([0.0, 0.0, .1, 1e-3, 1]), 'beta': rng.choice([1, 1, 1.0, .75, .5])}


def valid(c):
    n, m = c['shape']
    return n > 0 and m > 0 and len({(i, j) for i, j, _ in c['entries']}) == len(c['entries']) and sum(v for _, _, v in c['entries']) > 0 and all(0 <= i < n and 0 <= j < m and v >= 0 for i, j, v in c['entries']) and (c['py'] is None or len(c['py']) == m and sum(c['py']) > 0 and min(c['py']) >= 0) and 0 < c['beta'] <= 1 and c['alpha'] >= 0


def trivial(c): return len(c['entries']) < 2
