"""Encoders for matrices and tensors of the two-rowed representations."""
import numpy as np
from braids import *
from peyl.lpoly import LPoly
from peyl.matrix import Matrix
from peyl.jonesrep import JonesCellRep


def enc_poly(x, q=0):
    if isinstance(x, LPoly):
        lo, c = x.valuation(), list(x.coeffs)
    elif isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        lo, c = 0, [x] if x else []
    else:
        raise Malformed('not a Laurent polynomial: %r' % (x,))
    if q: c = [int(y) % q for y in c]
    return [integer(lo), ints(c)]


def enc_matrix(m, q=0):
    if not isinstance(m, Matrix): raise Malformed('not a matrix')
    return [[enc_poly(m[i, j], q) for j in range(m.ncols)] for i in range(m.nrows)]


def enc_tensor(a):
    if not isinstance(a, np.ndarray) or a.ndim != 3 or a.dtype.kind not in 'iu': raise Malformed('not a tensor: %r' % (getattr(a, 'shape', a),))
    if a.size and np.abs(a).max() > INT_MAX: raise Malformed('integer out of the range of the specification')
    return a.tolist()


def enc_batch(a):
    if not isinstance(a, np.ndarray) or a.ndim != 4: raise Malformed('not a batch of tensors')
    return [enc_tensor(x) for x in a]


def obj(b):
    d = enc_nf(b)
    del d['n']
    return d


def basis(rep):
    try:
        B = [(d.top, d.bot, ints(d.seq)) for d in rep.tl_basis()]
        return [s for t, b, s in B] if all(t == rep.n and b == rep.n - 2*rep.r for t, b, _ in B) else []
    except Exception:
        return []




def divisor(r, n, k):
    if k == 'G':
        w = list(range(n)); r.shuffle(w)
        return Permutation(tuple(w))
    return NPar.from_components(n, r.choice(ncs(n)))


def some_braid(r, n, k, L, pw=3):
    c = CLS[k]
    u = r.random()
    x = (GNF.from_perm_seq if k == 'G' else DGNF.from_npar_seq)(n, [divisor(r, n, k) for _ in range(L)])
    if u < .3: x = x.inv()
    if r.random() < .6: x = (GNF.from_perm(Permutation(tuple(range(n))[::-1])) if k == 'G' else DGNF.from_npar(NPar.coarsest(n))) ** r.randrange(-pw, pw + 1) * x
    return x


def of_length(r, n, k, L, pw=3):
    """A braid of canonical length exactly L with a random Garside power."""
    D = GNF.from_perm(Permutation(tuple(range(n))[::-1])) if k == 'G' else DGNF.from_npar(NPar.coarsest(n))
    return D ** r.randrange(-pw, pw + 1) * CLS[k].sample(n, L, r)


PS = [0, 2, 3, 5, 7, 13, 41, 101, 1009]
CONFIGS = [(2, 0), (2, 1), (3, 0), (3, 1), (4, 0), (4, 1), (4, 2), (5, 1), (5, 2), (5, 0), (6, 1), (6, 2), (6, 3)]

# words (which need no tables of factors) on many strands
WIDE = [(7, 1, 0), (7, 2, 5), (7, 3, 2), (8, 1, 3), (8, 2, 0), (8, 4, 101), (9, 1, 7), (10, 5, 2), (10, 1, 0), (11, 2, 3), (12, 1, 1009)]


def random_npar(r, n):
    """A random noncrossing partition of any size (not uniform): points join an open block or start one."""
    stack, blocks = [], []
    for i in range(n):
        while stack and r.random() < .3: blocks.append(stack.pop())
        if stack and r.random() < .55: stack[-1].append(i)
        else: stack.append([i])
    return NPar.from_components(n, sorted(blocks + stack))
