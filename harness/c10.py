"""Random histories over tensors of polynomial matrices."""
import json
from common import *
from algebra import *

SHAPES = [(), (), (), (1,), (2,), (3,), (2, 3), (1, 3), (2, 1), (1, 1), (4, 1, 2)]


class M:
    def __init__(self, run, r):
        self.run, self.r, self.regs, self.bd = run, r, [], []

    def put(self, op, f, bound, enc=lambda a: dict(t=enc_t(a)), **kw):
        v, res = attempt(f, enc)
        self.run.log(op, res=res, **kw)
        self.regs.append(v[1] if isinstance(v, tuple) else v)
        self.bd.append(bound)
        return len(self.regs)

    def new(self, sh=None, I=None, J=None, big=False, D=None):
        r = self.r
        sh = r.choice(SHAPES) if sh is None else sh
        I, J = I or r.randrange(1, 4), J or r.randrange(1, 4)
        D = D or r.choice([1, 1, 2, 3, 4, 6])
        C = r.choice([1, 2, 3]) if not big else 10000
        g = np.random.default_rng(r.randrange(2**32))
        a = g.integers(-C, C + 1, size=(*sh, I, J, D)) * (g.random((*sh, I, J, D)) < r.choice([.15, .4, .8]))
        lo, hi = r.randrange(0, 3), r.randrange(0, 3)        # padding by zeros below and above
        u = r.random()
        if u < .25: a[..., :min(lo, D)] = 0
        elif u < .5: a[..., D - min(hi, D):] = 0
        if u < .1 and a.ndim > 3: a[(0,) * len(sh)] = 0
        a = a.astype(r.choice([np.int64, np.int64, np.int32]))
        u = r.random()
        if u < .2: a = np.asfortranarray(a)
        elif u < .35: a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
        elif u < .5: a = np.concatenate([a, a], axis=-2)[..., :J, :]
        elif u < .6: a = np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1)
        self.run.log('new', t=enc_t(a))
        self.regs.append(a); self.bd.append(C)
        return len(self.regs)

    def live(self, ok=lambda a: True):
        c = [i + 1 for i, a in enumerate(self.regs) if a is not None and ok(a)]
        return self.r.choice(c) if c else None

    def step(self):
        r, R = self.r, lambda i: self.regs[i - 1]
        u = r.random()
        small = lambda a: a.size <= 600
        if u < .15 or len(self.regs) < 2: return self.new(big=r.random() < .1)
        if u < .40:
            a = self.live(small)
            cand = [i + 1 for i, b in enumerate(self.regs) if b is not None and small(b) and b.shape[-3] == R(a).shape[-2]]
            bad = r.random() < .06
            b = self.live(small) if bad or not cand else r.choice(cand)
            if not bad and r.random() < .3:
                K = R(a).shape[-2]
                sh = list(R(a).shape[:-3])
                sh = [x if r.random() < .6 else 1 for x in sh][r.randrange(0, len(sh) + 1):]
                b = self.new(tuple(sh), K)
            A, B = R(a), R(b)
            n = self.bd[a-1] * self.bd[b-1] * A.shape[-2] * max(1, min(A.shape[-1], B.shape[-1]))
            if n > 10**9 or A.shape[-1] + B.shape[-1] > 14: return
            q = -1 if r.random() < .6 else r.choice([0, 1, 2, 3, 5, 9, 9, -2] if r.random() < .3 else [1, 2, 3, 5, 9])
            f = (lambda: polymat.mul(A, B)) if q == -1 and r.random() < .7 else (lambda: polymat.mul(A, B, None if q == -1 else q))
            return self.put('mul', f, n, a=a, b=b, q=q)
        if u < .48:
            a = self.live(lambda x: x.ndim == 3 and small(x))
            if a is None: return
            like = [i + 1 for i, x in enumerate(self.regs) if x is not None and x.ndim == 3 and x.shape[:2] == R(a).shape[:2] and x.dtype == R(a).dtype]
            xs = [a] + [r.choice(like) for _ in range(r.randrange(0, 4))]
            if r.random() < .1: xs.append(self.live())
            return self.put('pack', lambda: polymat.pack([R(i) for i in xs]), max(self.bd[i-1] for i in xs), **{'as': xs})
        if u < .54:
            a = self.live(lambda x: x.ndim == 4 and small(x))
            if a is None: return
            like = [i + 1 for i, x in enumerate(self.regs) if x is not None and x.ndim == 4 and x.shape[1:3] == R(a).shape[1:3]]
            xs = [a] + [r.choice(like) for _ in range(r.randrange(0, 3))]
            if r.random() < .1: xs.append(self.live())
            if sum(R(i).size for i in xs) > 2000: return
            return self.put('concat', lambda: polymat.concatenate([R(i) for i in xs]), max(self.bd[i-1] for i in xs), **{'as': xs})
        a = self.live(small)
        if a is None: return
        A, bd = R(a), self.bd[a-1]
        if u < .60:
            d = A.shape[-1] + r.choice([0, 1, 2, 3, -1])
            if d < 0: return
            return self.put('zeropad', lambda: polymat.zeropad(A, d), bd, a=a, d=d)
        if u < .65: return self.put('trim', lambda: polymat.trim(A), bd, a=a)
        if u < .70: return self.put('trimleft', lambda: polymat.trim_left(A), bd, lambda x: dict(s=integer(x[0]), t=enc_t(x[1])), a=a)
        if u < .78: return self.put('projectivise', lambda: polymat.projectivise(A), bd, a=a)
        if u < .80:
            n = r.randrange(1, 4)
            return self.put('eye', lambda: polymat.eye(n), 1, n=n)
        if u < .82:
            n = r.randrange(2, 6); s = r.randrange(n - 1)
            return self.put('burau', lambda: polymat.burau_generator_v2(n, s), 1, n=n, s=s)
        if u < .84 and A.ndim > 3:
            k = r.randrange(int(np.prod(A.shape[:-3])))
            return self.put('index', lambda: A[np.unravel_index(k, A.shape[:-3])], bd, a=a, k=k + 1)
        if u < .88:
            self.run.log('tomat', a=a, res=attempt(lambda: polymat.to_matrix(A), lambda m: dict(m=enc_m(m)))[1])
            return
        if u < .91:
            I, J, kind = r.randrange(1, 4), r.randrange(1, 4), r.choice(['int', 'poly', 'zero', 'neg'])
            C = r.choice([1, 3, 10000, 2**31 - 2**10])
            def e():
                if kind == 'int': return r.randrange(-C, C + 1) * r.randrange(2)
                if kind == 'zero' or r.random() < .3: return LPoly(0, ())
                return LPoly(r.randrange(-4 if kind == 'neg' else 0, 5), [r.randrange(-C, C + 1) for _ in range(r.randrange(1, 5))])
            m = Matrix(I, J, tuple(e() for _ in range(I * J)))
            pj = r.random() < .6
            f = r.choice([lambda: polymat.from_matrix(m, proj=pj), lambda: polymat.from_matrix(m, pj)] + ([lambda: polymat.from_matrix(m)] if not pj else []))
            return self.put('frommat', f, C, m=enc_m(m), proj=pj)
        if u < .96:
            def st():
                P = polymat
                nz = A.shape[-1] > 0
                return dict(degmax=enc_each(P.degmax(A)) if nz else enc_each(np.zeros(A.shape[:-3], int)), valmin=enc_each(P.valmin(A)) if nz else enc_each(np.zeros(A.shape[:-3], int)),
                            nz=enc_each(P.nz_terms(A)), projlen=enc_each(P.projlen(A)),
                            efflen=enc_each(P.efflen(A)), rhogap2=enc_each(P.rhogap(A), 2) if nz else enc_each(np.zeros(A.shape[:-3], int)))
            self.run.log('stats', a=a, res=attempt(st, lambda d: d)[1])
            return
        if u < .98:
            if A.shape[-1] > 0:
                self.run.log('startsends', a=a, res=attempt(lambda: polymat.proj_starts_ends(A), lambda x: dict(starts=enc_each(x[0]), ends=enc_each(x[1])))[1])
            return
        # ranks: of small projective tensors
        if bd <= 60 and A.shape[-1] > 0 and all(A.reshape(-1, *A.shape[-3:])[k, :, :, 0].any() for k in range(int(np.prod(A.shape[:-3])))):
            k = r.randrange(0, A.shape[-1] + 2)
            self.run.log('projrank', a=a, terms=k, res=attempt(lambda: polymat.projrank(A, k), lambda x: dict(v=enc_each(x)))[1])


def large(m):
    """Bigger matrices, longer polynomials and longer batches."""
    r = m.r
    R = lambda i: m.regs[i - 1]
    u = r.random()
    if u < .3:        # one large product
        I, K, J = r.randrange(4, 10), r.randrange(4, 10), r.randrange(4, 10)
        a = m.new((), I, K, D=r.choice([2, 7, 12])); b = m.new((), K, J, D=r.choice([1, 5, 17]))
    elif u < .5:      # long polynomials
        a = m.new((), r.randrange(1, 4), 2, D=r.choice([40, 64, 65, 130])); b = m.new((), 2, 2, D=r.choice([33, 50, 64]))
    elif u < .75:     # long batch by one, or by a batch
        B = r.choice([64, 65, 100, 257, 300])
        a = m.new((B,), 2, 2, D=3); b = m.new((B,) if r.random() < .5 else (), 2, r.randrange(1, 3), D=2)
        if r.random() < .3: a, b = m.new((), 2, 2, D=2), a
    else:
        a = m.new((r.choice([20, 40]),), 3, 3, D=r.choice([20, 33])); b = m.new((), 3, 3, D=r.choice([1, 6]))
    q = r.choice([-1, 2, 5, 97])
    A, B = R(a), R(b)
    c = m.put('mul', lambda: polymat.mul(A, B) if q == -1 else polymat.mul(A, B, q), 10**9, a=a, b=b, q=q)
    for x in (a, c):
        X = R(x)
        if X is None: continue
        m.put('projectivise', lambda: polymat.projectivise(X), 0, a=x)
        m.put('trim', lambda: polymat.trim(X), 0, a=x)
        m.put('zeropad', lambda: polymat.zeropad(X, X.shape[-1] + 3), 0, a=x, d=X.shape[-1] + 3)
        if X.shape[-1]: m.run.log('startsends', a=x, res=attempt(lambda: polymat.proj_starts_ends(X), lambda y: dict(starts=enc_each(y[0]), ends=enc_each(y[1])))[1])
        P = polymat
        m.run.log('stats', a=x, res=attempt(lambda: dict(degmax=enc_each(P.degmax(X)), valmin=enc_each(P.valmin(X)), nz=enc_each(P.nz_terms(X)), projlen=enc_each(P.projlen(X)),
                  efflen=enc_each(P.efflen(X)), rhogap2=enc_each(P.rhogap(X), 2)), lambda d: d)[1])
        m.run.log('tomat', a=x, res=attempt(lambda: polymat.to_matrix(X), lambda y: dict(m=enc_m(y)))[1])
    X = R(a)
    if X is not None and X.ndim == 4:
        n0 = len(m.regs)
        for k in range(min(len(X), 70)): 
            m.put('index', lambda: X[k], 0, a=a, k=k + 1)
        xs = list(range(n0 + 1, len(m.regs) + 1))
        r.shuffle(xs)
        m.put('pack', lambda: polymat.pack([R(i) for i in xs]), 0, **{'as': xs})
        m.put('concat', lambda: polymat.concatenate([X, R(len(m.regs))]), 0, **{'as': [a, len(m.regs)]})


def replay(out, inp, part, parts):
    import numpy as np
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            def step():
                A, B = np.array(e['a']), np.array(e['b'])
                p = polymat.mul(A, B)
                st = lambda x: [int(polymat.projlen(x)), int(polymat.valmin(x)), int(polymat.degmax(x))] if x.any() else [int(polymat.projlen(x)), 0, 0]
                res = dict(p=enc_m(polymat.to_matrix(p))['e'], sa=st(A), sp=st(p), na=int(polymat.nz_terms(A)), ra=e['ra'])
                if A.any() and A.shape[:2] != (1, 1): res['ra'] = int(polymat.projrank(polymat.projectivise(A), 2))
                for x in (A, p):
                    if x.any():
                        y = polymat.projectivise(x)
                        d = int(polymat.valmin(x))
                        if enc_m(polymat.to_matrix(y))['e'] != [[[lo - d, c] if c else [0, []] for lo, c in row] for row in enc_m(polymat.to_matrix(x))['e']]:
                            res['projective'] = y.tolist()
                return res
            _, res = attempt(step, lambda x: x)
            out.replayed += 1
            want = dict(ok=1, **{k: e[k] for k in ('p', 'sa', 'sp', 'na', 'ra')})
            if res != want: out.bad.append(dict(run='edge%d' % no, clause='replayed product: got %s, specification says %s' % (res, want), event=e))
            if no < 1: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    for no in range(6 if tier == 'quick' else 60):
        r = rng(seed, 'large', part, no)
        large(M(out.new('large%d.%d' % (part, no)), r))
    for no in range(25 if tier == 'quick' else 300):
        r = rng(seed, 'c10', part, no)
        m = M(out.new('tensors%d.%d' % (part, no)), r)
        for _ in range(60): m.step()
        for i, a in enumerate(m.regs):
            if a is not None: m.run.log('see', a=i + 1, t=attempt(lambda: enc_t(a), lambda x: x)[1])
