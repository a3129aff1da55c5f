"""Drivers of the algebra register machine (C21, C22, C23)."""
import json, operator
from common import *
from algebra import *
BIG = 10007


def lo_hi(x):
    c = tuple(x.coeffs)
    lo = getattr(x, 'val', 0)
    return lo, lo + len(c)


class A:
    def __init__(self, run, r, q, kk):
        self.run, self.r, self.q, self.kk = run, r, q, kk
        self.regs, self.nm, self.sp = [], [], []          # values, bound on the 1-norm, bound on the span
        self.encS = (lambda x: dict(v=enc_poly(x, q))) if kk == 'L' else (lambda x: dict(v=enc_P(x, q)))
        self.T = LPoly if kk == 'L' else Poly

    def put(self, op, f, nm=10**30, sp=0, enc=None, /, **kw):
        v, res = attempt(f, enc or self.encS)
        self.run.log(op, res=res, **kw)
        if v is not None and self.kk == 'L' and isinstance(v, int) and not isinstance(v, bool): v = LPoly(0, (v,))
        if v is not None and self.kk == 'P' and isinstance(v, int) and not isinstance(v, bool): v = Poly(v)
        self.regs.append(v); self.nm.append(nm); self.sp.append(sp)
        return len(self.regs)

    def query(self, op, f, enc, /, **kw):
        self.run.log(op, res=attempt(f, enc)[1], **kw)

    def coeff(self):
        r = self.r
        if self.q: return r.choice([r.randrange(-9, 10), r.randrange(-2**70, 2**70), r.randrange(-2**33, 2**33), 0])
        return r.choice([0, 0, 1, -1, 1, r.randrange(-9, 10)])

    def new(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 3, 5, 8])
        c = [self.coeff() for _ in range(n)]
        if r.random() < .25: c = [0] * r.randrange(3) + c + [0] * r.randrange(3)
        if r.random() < .2: c = [r.choice([1, -1])]
        lo = r.randrange(-5, 6) if self.kk == 'L' else 0
        lc = [x % self.q for x in c] if self.q else c
        mk = r.choice([tuple, list] + ([np.array] if not self.q else []))
        f = (lambda: LPoly(lo, mk(c))) if self.kk == 'L' else (lambda: Poly(*c))
        return self.put('new', f, sum(map(abs, c)) if not self.q else 1, len(c) + 1, lo=lo, c=lc, kk=self.kk)

    def lim(self, nm, sp):
        return (self.q == 0 and nm < 10**9 or self.q > 0) and sp <= (40 if not self.q else 18)

    def see(self, a):
        x, q = self.regs[a-1], self.q
        if self.kk == 'L':
            self.query('see', lambda: dict(v=enc_poly(x, q), zero=bool(x.is_zero()), deg=integer(x.degree()), val=integer(x.valuation()), unit=bool(x.is_unit())), lambda d: d, a=a)
            self.query('print', lambda: dict(ts=[printed(repr(x), 'LPoly', q), terms(x.fmt(), q), terms(x.fmt('latex'), q), terms(x._repr_latex_(), q)]), lambda d: d, a=a)
        else:
            self.query('see', lambda: dict(v=enc_P(x, q), zero=bool(x.is_zero()), deg=integer(x.deg())), lambda d: d, a=a)
            self.query('print', lambda: dict(ts=[printed(repr(x), 'Poly', q)]), lambda d: d, a=a)

    def step(self):
        r = self.r
        live = [i + 1 for i, x in enumerate(self.regs) if x is not None]
        u = r.random()
        if u < .18 or len(live) < 2: return self.new()
        pick = lambda: r.choice(live[-8:] if r.random() < .6 else live)
        a, b = pick(), pick()
        X, Y = self.regs[a-1], self.regs[b-1]
        na, nb, sa, sb = self.nm[a-1], self.nm[b-1], self.sp[a-1], self.sp[b-1]
        L = self.kk == 'L'
        if u < .28 and self.lim(na + nb, sa + sb + 10): return self.put('add', lambda: X + Y, na + nb, max(sa, sb) + (10 if L else 0), a=a, b=b)
        if u < .36 and self.lim(na + nb, sa + sb + 10): return self.put('sub', lambda: X - Y, na + nb, max(sa, sb) + (10 if L else 0), a=a, b=b)
        if u < .50 and self.lim(na * nb, sa + sb): return self.put('mul', lambda: X * Y, na * nb, sa + sb, a=a, b=b)
        if u < .54: return self.put('neg', lambda: -X, na, sa, a=a)
        if u < .60:
            i = r.choice([0, 1, -1, 2, r.randrange(-9, 10)])
            f = r.choice(['add', 'sub', 'mul'] + (['rsub'] if L else []))
            nm = na * abs(i) if f == 'mul' else na + abs(i)
            if not self.lim(nm, sa + 6): return
            g = dict(add=r.choice([lambda: X + i, lambda: i + X]), sub=lambda: X - i, mul=r.choice([lambda: X * i, lambda: i * X]), rsub=lambda: i - X)[f]
            return self.put('int', g, nm, sa + (6 if L else 0), a=a, i=i, f=f)
        if u < .66:
            e = r.choice([0, 1, 2, 3, 4, 5, 7] + ([-1, -2, -3] if not self.q else []))
            if r.random() < .25: e = r.choice([6, 8, 9, 10, 12, 15, 16, 17, 20, 25, 29] + ([-4, -5, -8] if not self.q else []))
            if na == 1 and not self.q and r.random() < .5: e = r.choice([31, 32, 33, 64, 100, 127, 128, -31, -32, -64, -100])
            if na == 1 and not self.q and L: 
                if abs(X.valuation() * e) < 10**6: return self.put("pow", lambda: X ** e, 1 if abs(e * X.valuation()) < 6 else 10**30, 1, a=a, e=e)
            if not self.lim(max(na, 1) ** abs(e), sa * max(abs(e), 1)): return
            return self.put('pow', lambda: X ** e, max(na, 1) ** abs(e), sa * max(abs(e), 1), a=a, e=e)
        if u < .70:
            if self.q:
                m = self.run.d['q']; f, i = 'mul', r.randrange(-3, 4)
            else: f, i = r.choice([('mod', 2), ('mod', 5), ('mul', 3), ('mul', 0), ('sq', 0)])
            nm = na * 3 if f == 'mul' else na * na if f == 'sq' else 5 * (sa + 1)
            if not self.lim(nm, sa) or not L: return
            g = dict(mod=lambda c: c % i, mul=lambda c: i * c, sq=lambda c: c * c)[f]
            return self.put('map', lambda: X.map(g), nm, sa, a=a, f=f, i=i)
        if not self.q:
            if u < .76:                       # a quotient that is often exact
                if r.random() < .7 and self.lim(na * nb * 3, sa + sb):
                    p = self.put('mul', lambda: X * Y, na * nb, sa + sb, a=a, b=b)
                    if self.regs[p-1] is None: return
                    if na * nb > 3000: return
                    Z = self.regs[p-1]
                    if L or r.random() < .6: return self.put('div', lambda: Z / Y, na, sa, a=p, b=b)
                    s = self.put('int', lambda: Z + 1, na * nb + 1, sa + sb, a=p, i=1, f='add')
                    W = self.regs[s-1]
                    return self.query('divmod', lambda: divmod(W, Y), lambda z: dict(q=enc_P(z[0]), r=enc_P(z[1])), a=s, b=b)
                if max(na, nb) > 12 or max(sa, sb) > 9: return
                if L or r.random() < .5: return self.put('div', lambda: X / Y, a=a, b=b)
                return self.query('divmod', lambda: divmod(X, Y), lambda z: dict(q=enc_P(z[0]), r=enc_P(z[1])), a=a, b=b)
            if u < .80 and sb <= 4 and na * max(nb, 1) ** max(abs(lo_hi(X)[0]), abs(lo_hi(X)[1])) < 10**8 and max(map(abs, lo_hi(X))) * sb < 40: return self.put('at', lambda: X.evaluate(Y), 10**9, 60, a=a, b=b)
            if u < .84 and max(map(abs, lo_hi(X))) <= 6 and na < 60:
                x, y = r.choice([1, 2, 3, -1, -2, -3]), r.choice([1, 1, 2, 3])
                if y == 1 and (not L or X.valuation() >= 0 or abs(x) == 1): f = lambda: X.evaluate(x)
                else: f = lambda: X.evaluate(Fraction(x, y))
                g = Fraction(x, y)
                return self.query('frac', f, lambda v: dict(v=enc_frac(v)), a=a, x=g.numerator, y=g.denominator)
            if u < .88:
                c = pick() if r.random() < .5 else a
                if r.random() < .3: self.twin(a); c = len(self.regs)
                Z = self.regs[c-1]
                if Z is None: return
                if self.kk == 'L': enc = lambda: dict(eq=bool(X == Z), ne=bool(X != Z), hash=hash(X) == hash(Z), **{'in': Z in {X}})
                else: enc = lambda: dict(eq=bool(X == Z), ne=bool(X != Z), hash=True, **{'in': True})
                return self.query('eq', enc, lambda d: d, a=a, b=c)
        if u < .90 and L and not self.q:
            i = r.randrange(-9, 10)
            if r.random() < .1:
                i = r.choice([10, 12, 15, 16, 17, 20, 30, 31, 32, 33, 50]) * r.choice([1, -1])
                return self.put('quantum', lambda: LPoly.quantum_integer(i), abs(i), 2 * abs(i), i=i)
            if r.random() < .7: return self.put('quantum', lambda: LPoly.quantum_integer(i), 10, 20, i=i)
            return self.put('coerce', lambda: LPoly.coerce(i), 9, 1, i=i)
        self.see(a)

    def twin(self, a):
        """The same value built another way."""
        X = self.regs[a-1]
        return self.put('sub', lambda: X - (X - X), self.nm[a-1] * 3, self.sp[a-1], a=a, b=self.put('sub', lambda: X - X, 0, 1, a=a, b=a))


class MM(A):
    """Matrices; entries are integers, Laurent polynomials, or a mixture."""
    def __init__(self, run, r, q):
        A.__init__(self, run, r, q, 'L')
        self.mats, self.bound = {}, {}            # register -> matrix
        self.encM = lambda m: dict(m=enc_m(m, q))

    def putm(self, op, f, nm, sp, /, **kw):
        v, res = attempt(f, self.encM)
        self.run.log(op, res=res, **kw)
        self.regs.append(None); self.nm.append(nm); self.sp.append(sp)
        if v is not None: self.mats[len(self.regs)] = v
        return len(self.regs)

    def entry(self, kind):
        if kind == 'int' or kind == 'mix' and self.r.random() < .4: return self.coeff()
        if self.r.random() < .2: return LPoly(0, ())
        return LPoly(self.r.randrange(-2, 3), [self.coeff() for _ in range(self.r.randrange(1, 3))])

    def mnew(self, sh=None, kind=None):
        r = self.r
        I, J = sh or (r.choice([0, 1, 1, 2, 2, 3, 4]), r.choice([0, 1, 1, 2, 2, 3, 4]))
        kind = kind or r.choice(['int', 'int', 'poly', 'mix'])
        if not sh and r.random() < .08: I, J, kind = r.randrange(4, 10), r.randrange(4, 10), r.choice(['int', 'int', 'poly'])
        data = [self.entry(kind) for _ in range(I * J)]
        if not sh and r.random() < .12:           # a sparse square matrix of small entries: high powers stay small
            I = J = r.choice([2, 3, 3, 4, 5, 8]); kind = 'int'
            data = [0] * (I * J)
            for i, j in enumerate(r.sample(range(I), I)):
                if r.random() < .9: data[i*J+j] = r.choice([1, 1, -1])
            if r.random() < .4: data[r.randrange(I * J)] = 2
            rows = [data[i*J:(i+1)*J] for i in range(I)]
            m = dict(r=I, c=J, e=[[enc_poly(x, self.q) for x in row] for row in rows])
            k = self.putm('mnew', lambda: Matrix(I, J, tuple(data)), 3, 1, m=m)
            if k in self.mats:
                X, e = self.mats[k], r.choice([2, 5, 7, 8, 12, 15, 16, 17])
                self.putm('mpow', lambda: X ** e, 3 ** e, 1, a=k, e=e)
            return k
        if I == J and r.random() < .3:
            for i in range(I):
                for j in range(i): data[i*J+j] = data[j*J+i]
        rows = [data[i*J:(i+1)*J] for i in range(I)]
        fs = [lambda: Matrix(I, J, tuple(data))] * 2
        if I: fs.append(lambda: Matrix.from_rows([list(x) for x in rows]))
        if I == 1: fs.append(lambda: Matrix.row_vector(list(data)))
        if J == 1: fs.append(lambda: Matrix.col_vector(list(data)))
        def e(x): return enc_poly(x, self.q)
        m = dict(r=I, c=J, e=[[e(x) for x in row] for row in rows])
        return self.putm('mnew', r.choice(fs), 20, 4, m=m)

    def const(self):
        r = self.r
        n, k = r.randrange(0, 5), r.randrange(0, 4)
        f = r.choice(['identity', 'zero', 'scalar', 'coord'])
        if f == 'coord' and n == 0: n = 2
        if f == 'coord': k = r.randrange(n)
        x = self.entry('mix')
        g = dict(identity=lambda: Matrix.identity(n), zero=lambda: Matrix.zero(n, k), scalar=lambda: Matrix.scalar(n, x), coord=lambda: Matrix.col_coord_vector(n, k))[f]
        return self.putm('mconst', g, 20, 4, f=f, n=n, k=k, x=enc_poly(x, self.q))

    def step(self):
        r, q = self.r, self.q
        live = list(self.mats)
        u = r.random()
        if u < .15 or len(live) < 2: return self.mnew()
        if u < .19: return self.const()
        pick = lambda ok=lambda m: True: r.choice([i for i in live if ok(self.mats[i])] or [0])
        a = pick()
        X = self.mats[a]; na, sa = self.nm[a-1], self.sp[a-1]
        def partner(ok, sh, kind=None):
            v = r.random()
            if v < .12: return pick()
            b = pick(ok)
            return b if b and v < .7 else self.mnew(sh)
        if u < .40:
            b = partner(lambda m: m.nrows == X.ncols, (X.ncols, r.randrange(0, 4)))
            if b not in self.mats: return
            Y = self.mats[b]; nb, sb = self.nm[b-1], self.sp[b-1]
            n, s = na * nb * max(1, X.ncols), sa + sb
            if X.ncols != Y.nrows: n = s = 0
            if not self.lim(n, s): return
            return self.putm('mmul', lambda: X * Y, n, s, a=a, b=b)
        if u < .50:
            b = partner(lambda m: (m.nrows, m.ncols) == (X.nrows, X.ncols), (X.nrows, X.ncols))
            if b not in self.mats: return
            Y = self.mats[b]; nb, sb = self.nm[b-1], self.sp[b-1]
            if not self.lim(na + nb, sa + sb): return
            return self.putm('msub', lambda: X - Y, na + nb, sa + sb, a=a, b=b)
        if u < .55:
            i = r.choice([0, 1, -1, 3, -7])
            if not self.lim(na * 7, sa): return
            return self.putm('mscale', r.choice([lambda: X * i, lambda: i * X]), na * abs(i), sa, a=a, i=i)
        if u < .62:
            e = r.choice([0, 1, 2, 3, 4, 5, 6, -1])
            if r.random() < .3: e = r.choice([7, 8, 9, 10, 13, 15, 16, 17, 25, 31])
            if X.nrows == X.ncols and e > 0:
                n, s = (na * max(1, X.nrows)) ** e, sa * e
            else: n = s = 0
            # the code may square once more than needed, in unbounded integers
            if not self.lim(n, s): return
            return self.putm('mpow', lambda: X ** e, max(n, 1), max(s, 1), a=a, e=e)
        if u < .66: return self.putm('mtrans', lambda: X.transpose(), na, sa, a=a)
        if u < .69:
            i = r.choice([-1, 2, 0])
            return self.putm('mmap', lambda: X.map(lambda c: i * c), na * 2, sa, a=a, i=i) if self.lim(na * 2, sa) else None
        if u < .74:
            i = r.choice(list(range(-1, max(X.nrows, X.ncols) + 2)))
            if r.random() < .5: return self.putm('mrow', lambda: X.row(i), na, sa, a=a, i=i)
            return self.putm('mcol', lambda: X.column(i), na, sa, a=a, i=i)
        if u < .78: return self.query('mtrace', lambda: X.trace(), self.encS, a=a) if self.lim(na * 4, sa) else None
        if u < .84:
            i, j = r.randrange(-1, X.nrows + 1), r.randrange(-1, X.ncols + 1)
            return self.query('mat', lambda: X[i, j], self.encS, a=a, i=i, j=j)
        if u < .86:
            bad = r.choice([lambda: Matrix(2, 2, (1, 2, 3)), lambda: Matrix(-1, 0, ()), lambda: Matrix(2, 1, [1, 2]), lambda: Matrix.from_rows([[1, 2], [3]]),
                            lambda: Matrix(-1, -1, (1,)), lambda: Matrix(1, 2, (1, 2, 3)), lambda: X * 'a', lambda: X - 1, lambda: X[0], lambda: X * None, lambda: Matrix(0, 3, (1,))])
            return self.query('mbad', bad, lambda x: {})
        if u < .90:
            b = pick(lambda m: (m.nrows, m.ncols) == (X.nrows, X.ncols))
            if r.random() < .5:
                v = self.putm('mtrans', lambda: X.transpose(), na, sa, a=a)
                if v not in self.mats: return
                Z = self.mats[v]
                b = self.putm('mtrans', lambda: Z.transpose(), na, sa, a=v)
                if b not in self.mats: return
            Y = self.mats[b]
            pure = lambda m: all(isinstance(x, LPoly) for x in m.data) or all(isinstance(x, int) for x in m.data)
            same = lambda m: {type(x) for x in m.data}
            # equality is between matrices over one ring
            if q or not pure(X) or not pure(Y) or same(X) != same(Y): return
            return self.query('eq', lambda: dict(eq=bool(X == Y), ne=bool(X != Y), hash=hash(X) == hash(Y), **{'in': Y in {X: 1}}), lambda d: d, a=a, b=b)
        if u < .95 and X.nrows and X.ncols and not q:
            return self.query('mprint', lambda: dict(g=[self.parse(repr(X)), self.parse(str(X))]), lambda d: d, a=a)
        self.see(a)

    def see(self, a):
        X, q = self.mats[a], self.q
        self.query('msee', lambda: dict(m=enc_m(X, q), square=bool(X.is_square()), symm=bool(X.is_symmetric()), pure=len({isinstance(x, LPoly) for x in X.data}) < 2, rows=[[enc_poly(x, q) for x in row] for row in X.rows()], ents=[enc_poly(x, q) for x in X.entries()]), lambda d: d, a=a)

    def parse(self, s):
        """The grid of entries a printed matrix shows."""
        m = re.fullmatch(r'\s*(?:Matrix\(|M)\s*(\[.*\])\s*\)?\s*', s, re.S)
        if not m: raise Malformed('printed matrix: %r' % s)
        rows = re.findall(r'\[([^\[\]]*)\]', m.group(1))
        return [[terms((re.fullmatch(r"LPoly\('(.*)'\)", c.strip()) or re.fullmatch('(.*)', c.strip())).group(1)) for c in row.rstrip().rstrip(',').split(',')] for row in rows]
