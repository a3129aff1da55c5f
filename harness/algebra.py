"""Encoders for polynomials, matrices of them, and tensors."""
import re
from fractions import Fraction
import numpy as np
from reps import enc_poly, LPoly, Matrix, Malformed, integer, ints
from peyl import polymat
from peyl.poly import Poly


def enc_m(m, q=0):
    if not isinstance(m, Matrix): raise Malformed('not a matrix')
    r, c = integer(m.nrows), integer(m.ncols)
    return dict(r=r, c=c, e=[[enc_poly(m[i, j], q) for j in range(c)] for i in range(r)])


def enc_P(x, q=0):
    if isinstance(x, Poly): c = list(x.coeffs)
    elif isinstance(x, int) and not isinstance(x, bool): c = [x] if x else []
    else: raise Malformed('not a polynomial: %r' % (x,))
    if q: c = [int(y) % q for y in c]
    return [0, ints(c)]


def enc_frac(x):
    if isinstance(x, float):
        if x != int(x): raise Malformed('not exact')
        x = int(x)
    f = Fraction(x)
    return [integer(f.numerator), integer(f.denominator)]


TERM = re.compile(r'(?:(\d+)\s*\*?\s*)?(?:([vx])(?:\s*\^\s*(?:\{\s*(-?\d+)\s*\}|(-?\d+)))?)?')


def terms(s, q=0):
    """The terms [coefficient, exponent] a printed polynomial denotes."""
    s = s.strip()
    out, at, first = [], 0, True
    while at < len(s):
        m = re.compile(r'\s*([+-]?)\s*').match(s, at)
        if not first and not m.group(1): raise Malformed('printed form: %r' % s)
        at = m.end()
        u = TERM.match(s, at)
        if u.end() == at: raise Malformed('printed form: %r' % s)
        c = int(u.group(1) or 1) * (-1 if m.group(1) == '-' else 1)
        e = 0 if not u.group(2) else int(u.group(3) or u.group(4) or 1)
        out.append([integer(c % q if q else c), integer(e)])
        at, first = u.end(), False
    if first: raise Malformed('nothing printed')
    return out


def printed(s, name, q=0):
    m = re.fullmatch(name + r"\('(.*)'\)", s)
    if not m: raise Malformed('printed form: %r' % s)
    return terms(m.group(1), q)


def enc_t(a):
    if not isinstance(a, np.ndarray) or a.ndim < 3 or a.dtype.kind not in 'iu': raise Malformed('not a tensor: %r' % (getattr(a, 'shape', a),))
    if a.size and max(abs(int(a.max())), abs(int(a.min()))) > 2**31 - 1: raise Malformed('integer out of the range of the specification')
    *sh, I, J, D = a.shape
    N = int(np.prod(sh, dtype=int))
    return dict(sh=[int(x) for x in sh], I=I, J=J, D=D, ms=[a.reshape((N, I, J, D))[k].tolist() for k in range(N)])


def enc_each(x, scale=1):
    x = np.asarray(x)
    v = []
    for y in x.reshape(-1).tolist():
        y = y * scale
        if isinstance(y, float):
            if y != int(y): raise Malformed('not an integer: %r' % y)
            y = int(y)
        v.append(integer(y))
    return dict(sh=[int(s) for s in x.shape], v=v)
