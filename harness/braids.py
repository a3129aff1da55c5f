"""Driver for the braid register machine (C01-C06): random histories of public operations."""
import json
from common import *
from peyl.braid import GNF, DGNF, BraidGroup
from peyl.permutations import Permutation
from peyl.noncrossing import NPar

CLS = {'G': GNF, 'D': DGNF}
_NC = {}


def ncs(n):
    if n not in _NC:
        _NC[n] = nc_partitions(n)
    return _NC[n]


class Machine:
    """Mirrors each operation on the real objects and logs it."""
    def __init__(self, run, n, r):
        self.run, self.n, self.r, self.regs, self.cost, self.dead = run, n, r, [], [], False

    def put(self, op, f, cost, **kw):
        v, res = attempt(f, enc_braid)
        self.run.log(op, **kw, res=res)
        self.regs.append(v)
        self.cost.append(cost)
        if v is None:
            self.dead = True          # later operations cannot use it
        return len(self.regs)         # 1-based register

    def query(self, op, f, enc, **kw):
        v, res = attempt(f, enc)
        self.run.log(op, **kw, res=res)

    # -- operations ---------------------------------------------------------
    def identity(self, k):
        r = self.r
        f = (lambda: BraidGroup(self.n).id()) if k == 'G' and r.random() < .5 else (lambda: CLS[k].identity(self.n))
        return self.put('id', f, 0, k=k)

    def word(self, k, w):
        return self.put('word', lambda: CLS[k].from_artin_word(self.n, [tuple(x) for x in w]), sum(abs(e) for _, e in w), k=k, w=w)

    def gens(self, k, w):
        """The same word as a product of generator objects."""
        def f():
            x = None
            gs = list(CLS[k].artin_gens(self.n)) if k == 'D' or self.r.random() < .5 else list(BraidGroup(self.n).gens())
            iv = list(BraidGroup(self.n).invs()) if k == 'G' else [g.inv() for g in gs]
            x = CLS[k].identity(self.n)
            for i, e in w:
                for _ in range(abs(e)):
                    x = x * (gs[i] if e > 0 else iv[i])
            return x
        return self.put('word', f, sum(abs(e) for _, e in w), k=k, w=w)

    def div(self, k):
        """A random divisor: (logged form, object)."""
        if k == 'G':
            w = list(range(self.n)); self.r.shuffle(w)
            u = self.r.random()
            if u < .08: w = list(range(self.n))
            elif u < .16: w = list(range(self.n))[::-1]
            return w
        return self.r.choice(ncs(self.n)) if self.r.random() > .1 else [list(range(self.n))]

    def obj(self, k, d):
        return Permutation(tuple(d)) if k == 'G' else NPar.from_components(self.n, d)

    def seq(self, k, ss):
        def f():
            os_ = [self.obj(k, d) for d in ss]
            if len(os_) == 1 and self.r.random() < .7:
                if k == 'G':
                    return GNF.from_perm(os_[0]) if self.r.random() < .5 else BraidGroup(self.n).positive_lift(os_[0])
                return DGNF.from_npar(os_[0]) if self.r.random() < .5 else BraidGroup(self.n).from_npar(os_[0])
            return GNF.from_perm_seq(self.n, os_) if k == 'G' else DGNF.from_npar_seq(self.n, os_)
        return self.put('seq', f, len(ss), k=k, ss=ss)

    def pair(self, p, ss):
        return self.put('pair', lambda: BraidGroup(self.n).from_gnf_pair((p, [tuple(s) for s in ss])), len(ss), k='G', p=p, ss=ss)

    def band(self, s, u):
        f = (lambda: BraidGroup(self.n).bkl_gens()[s, u]) if self.r.random() < .5 else (lambda: DGNF.bkl_gens(self.n)[s, u])
        return self.put('band', f, 1, s=s, u=u)

    def mul(self, a, b):
        return self.put('mul', lambda: self.regs[a-1] * self.regs[b-1], self.cost[a-1] + self.cost[b-1], a=a, b=b)

    def inv(self, a):
        return self.put('inv', lambda: self.regs[a-1].inv(), self.cost[a-1], a=a)

    def pow(self, a, e):
        return self.put('pow', lambda: self.regs[a-1] ** e, self.cost[a-1] * max(1, abs(e)), a=a, e=e)

    def sub(self, a, i, j):
        return self.put('sub', lambda: self.regs[a-1].substring(i, j), self.cost[a-1], a=a, i=i, j=j)

    def conv(self, a):
        x = self.regs[a-1]
        return self.put('conv', lambda: x.to_DGNF() if kind(x) == 'G' else x.to_GNF(), self.cost[a-1] * self.n, a=a)

    def out(self, a):
        x = self.regs[a-1]
        self.query('out', lambda: x.artin_word(), lambda w: dict(w=[ints(y) for y in w]), a=a)

    def magma(self, a):
        x = self.regs[a-1]
        self.query('magma', lambda: x.magma_artin_word(), lambda w: dict(w=ints(w)), a=a)

    def eq(self, a, b):
        x, y = self.regs[a-1], self.regs[b-1]
        self.query('eq', lambda: None, lambda _: dict(eq=int((x == y) is True), ne=int((x != y) is True), h=int(hash(x) == hash(y))), a=a, b=b)

    def raw(self, p, a, b):
        x, y = self.regs[a-1], self.regs[b-1]
        self.query('raw', lambda: type(x)(self.n, p, x.factors + y.factors), enc_braid, p=p, a=a, b=b)

    def reject(self, what, f):
        self.query('reject', f, None, what=what)

    def sout(self, k, d):
        self.query('sout', lambda: self.obj(k, d).artin_word(), lambda w: dict(w=[ints(y) for y in w]), k=k, s=d)


def history(m, k, steps, maxcost):
    """A random history biased towards cancellations, Garside powers and cascades."""
    r, n = m.r, m.n
    def fresh():
        u = r.random()
        if u < .3: return m.word(k, random_word(r, n, r.randrange(0, 9), r.choice([1, 1, 3])))
        if u < .4: return m.gens(k, random_word(r, n, r.randrange(0, 6), 1))
        if u < .8: return m.seq(k, [m.div(k) for _ in range(r.choice([1, 1, 2, 4, 7]))])
        if u < .9 and k == 'G': return m.pair(r.randrange(-3, 4), [m.div('G') for _ in range(r.randrange(0, 5))])
        if u < .9: 
            s = r.randrange(n); return m.band(s, r.randrange(n))
        return m.identity(k)
    def same():
        return [i + 1 for i in range(len(m.regs)) if m.regs[i] is not None and kind(m.regs[i]) == k]
    fresh()
    for _ in range(steps):
        if m.dead: return
        S = same()
        a, b = r.choice(S), r.choice(S)
        u = r.random()
        ca, cb = m.cost[a-1], m.cost[b-1]
        if u < .2 or not S: fresh()
        elif u < .5:
            if ca + cb <= maxcost: m.mul(a, b)
            else: fresh()
        elif u < .65:
            m.inv(a)
            if not m.dead and r.random() < .5 and 2*ca <= maxcost:
                m.mul(len(m.regs), a) if r.random() < .5 else m.mul(a, len(m.regs))
        elif u < .78:
            e = r.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5])
            if ca * max(1, abs(e)) <= maxcost: m.pow(a, e)
        elif u < .9:      # a^-1 b a: conjugation, long cancellation
            if 2*ca + cb <= maxcost:
                i = m.inv(a)
                if m.dead: return
                j = m.mul(i, b)
                if m.dead: return
                m.mul(j, a)
        elif u < .95:
            p = m.pow(m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]]), r.choice([-5, -2, -1, 1, 3, n]))
            if m.dead: return
            m.mul(a, p) if r.random() < .5 else m.mul(p, a)
        else:
            L = len(m.regs[a-1].factors)
            i = r.randrange(L + 1); m.sub(a, i, r.randrange(i, L + 1))
        m.cost[-1] = min(m.cost[-1], 10**6)


FAR = [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096, 10000,
       32767, 32768, 65535, 65536, 65537, 99999, 10**6, 10**6 + 3, 2**24 + 1, 10**8, 5 * 10**8 - 1, 5 * 10**8]


def far(m, k, then=None):
    """Exponents and infima far from zero: powers of the Garside element, of periodic braids and of generators."""
    r, n = m.r, m.n
    e = r.choice(FAR) * r.choice([1, -1])
    u = r.random()
    if u < .35: x = m.pow(m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]]), e)
    elif u < .5 and k == 'G': x = m.pair(e, [m.div('G') for _ in range(r.randrange(0, 3))])
    elif u < .7:
        w = [[i, 1] for i in range(n - 1)]
        if r.random() < .4 and n > 2: w = [[0, 1]] + w
        if r.random() < .4: r.shuffle(w)               # still periodic unless the first letter was doubled
        if len(w) >= n: w.sort()
        a = m.word(k, w)
        if m.dead: return
        x = m.pow(a, e)
    else:
        e = r.choice([30, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257])
        if r.random() < .3 or e < 66: e = -e
        i = r.randrange(n - 1)
        if r.random() < .5 and e > -70: x = m.word(k, [[i, e]] + ([[r.randrange(n - 1), r.choice([-1, 1])]] if r.random() < .5 else []))
        else:
            a = m.word(k, [[i, 1]])
            if m.dead: return
            x = m.pow(a, e)
    if m.dead: return
    a = m.seq(k, [m.div(k) for _ in range(r.choice([1, 2, 4]))])
    if m.dead: return
    b = m.mul(x, a)
    if m.dead: return
    if len(m.regs[b-1].factors) > 40:           # (a product on the left would run through all factors)
        m.inv(b)
        for y in (x, b):
            if then and not m.dead: then(y)
        return
    c = m.mul(a, x)
    if m.dead: return
    m.eq(b, c)
    i = m.inv(b)
    if m.dead: return
    m.mul(i, c)
    if m.dead: return
    for y in (x, b): 
        if then and not m.dead: then(y)
