"""The Temperley-Lieb category."""
import json
from common import *
from algebra import *
from peyl import tl
from peyl.tl import TLDiag, TLExtDiag, TLMor, TLCell, JonesRep
same = lambda d: d


def matching(r, n):
    """A random crossingless matching of n points (n even)."""
    s, st, opn = [0] * n, [], 0
    for i in range(n):
        left = n - i
        if not st or (len(st) < left and r.random() < .55): st.append(i)
        else:
            j = st.pop(); s[i], s[j] = j, i
    return s


def nested(n):
    return list(range(n))[::-1]


def diag(r, top, bot):
    u = r.random()
    if u < .1: return nested(top + bot)
    return matching(r, top + bot)


def rec(top, bot, s):
    return dict(top=top, bot=bot, seq=list(s))


def encd(d):
    if type(d) not in (TLDiag, TLExtDiag): raise Malformed('not a diagram: %r' % (d,))
    return dict(top=integer(d.top), bot=integer(d.bot), seq=ints(d.seq))


def flag(b):
    if b is not True and b is not False: raise Malformed('not a boolean: %r' % (b,))
    return int(b)


def seq(r, s):
    return r.choice([tuple, list])(s)


def D(x):
    return TLDiag(x['top'], x['bot'], tuple(x['seq']))


def X(x, b=0):
    return TLExtDiag(x['top'], x['bot'], tuple(x['seq']), b)


def encm(m):
    if not isinstance(m, TLMor): raise Malformed('not a morphism: %r' % (m,))
    ps = list(m.pairs())
    if [d for d, _ in ps] != list(m.support()): raise Malformed('support differs from the pairs')
    for d, c in ps:
        if (d.top, d.bot) != (m.top, m.bot): raise Malformed('diagram of another type')
        if c != m.coefficient(d): raise Malformed('coefficient differs from the pairs')
    return dict(top=integer(m.top), bot=integer(m.bot), ts=[[ints(d.seq), enc_poly(c, 0)] for d, c in ps], zero=flag(m.is_zero()))


def log(run, op, f, limit=60, /, **kw):
    run.log(op, res=attempt(f, same, limit)[1], **kw)


def compose(run, r, u, d, ub=0, db=0):
    def f():
        s, k = tl.compose(seq(r, u['seq']), seq(r, d['seq']), u['bot'])
        if type(s) is not tuple: raise Malformed('not a tuple')
        p, kp = D(u) * D(d)
        e = X(u, ub) * X(d, db)
        return dict(c=[dict(top=len(s) - d['bot'], bot=d['bot'], seq=ints(s)), encd(p), encd(e)], loops=[integer(k), integer(kp), integer(e.bubbles)])
    if u['bot'] == d['top']: return log(run, 'compose', f, u=u, d=d, ub=ub, db=db)
    for g in (lambda: dict(c=[encd((D(u) * D(d))[0])], loops=[0]), lambda: dict(c=[encd(X(u) * X(d))], loops=[0])):
        log(run, 'compose', g, u=u, d=d, ub=ub, db=db)


def single(run, a):
    log(run, 'flipd', lambda: dict(c=encd(D(a).flip())), a=a)
    log(run, 'through', lambda: dict(k=integer(tl.through_strands(D(a)))), a=a)
    if a['top'] == a['bot']: log(run, 'closure', lambda: dict(k=integer(tl.trace_count(tuple(a['seq'])))), a=a)


def tensor(run, a, b, ab, bb):
    def f():
        e = X(a, ab) @ X(b, bb)
        return dict(c=[encd(D(a) @ D(b)), encd(e)], loops=[integer(e.bubbles)])
    log(run, 'tensor', f, a=a, b=b, ab=ab, bb=bb)


def insert(run, r, a, b, i):
    def f():
        s = tl.insert(seq(r, a), seq(r, b), i)
        if type(s) is not tuple: raise Malformed('not a tuple')
        return dict(s=ints(s))
    log(run, 'insert', f, a=a, b=b, i=i)


def samed(run, a, b):
    def f():
        x, y = D(a), D(b)
        e, f_ = X(a), X(b)
        if flag(e == f_) != flag(x == y): raise Malformed('the two kinds of diagram compare differently')
        if e == e.add_bubbles(1): raise Malformed('loops are ignored')
        return dict(eq=flag(x == y), ne=flag(x != y), h=int(hash(x) == hash(y)))
    log(run, 'samed', f, a=a, b=b)


def lists(out, q, part, parts):
    top = 12 if q else 16
    for n in range(-2, top + 1):
        if n % parts == part: log(out.new('gen%d' % n), 'gen', lambda: dict(ss=[ints(s) for s in tl.generate_sequences(n)]), n=n)
    m = 5 if q else 7
    k = 0
    for a in range(-1, m + 1):
        run = out.new('bases%d.%d' % (a, part))
        for b in range(-1, m + 1):
            k += 1
            if k % parts != part: continue
            log(run, 'basis', lambda: dict(B=[encd(d) for d in tl.tl_basis(a, b)]), top=a, bot=b)
            log(run, 'tableaux', lambda: dict(B=[encd(d) for d in tl.tl_tableaux_basis(a, b)]), top=a, k=b)
            if a >= 0 and b >= 0 and (a + b) % 2 == 0: log(run, 'mbasis', lambda: dict(ms=[encm(x) for x in TLMor.basis(a, b)]), top=a, bot=b)
    if part != 0: return
    run = out.new('cells')
    for n in range(-1, 9 if q else 12):
        for rr in range(-1, (n + 3) // 2 + 1):
            log(run, 'cellbasis', lambda: dict(B=[encd(d) for d in tl.cell_basis(n, rr)]), n=n, r=rr)
            log(run, 'celldim', lambda: dict(d=integer(tl.cell_dimension(n, rr))), n=n, r=rr)
            if n < 2 * rr or rr < 0: log(run, 'celldim', lambda: dict(d=integer(TLCell(n, rr).dim())), n=n, r=rr)
            else: log(run, 'cellbasis', lambda: dict(B=[encd(d) for d in TLCell(n, rr).basis_diagrams()]), n=n, r=rr)
        if n >= 0: log(run, 'jones', lambda: dict(cells=[[integer(c.n), integer(c.r), integer(c.dim())] for c in JonesRep(n).cells]), n=n)


class M:
    """The register machine of morphisms; keeps coefficients small."""
    def __init__(self, run, r, big, wide=0):
        self.run, self.r, self.big, self.wide, self.regs = run, r, big, wide, []         # (value, top, bot, norm, span, terms)

    def put(self, op, f, top, bot, nm, sp, k, /, **kw):
        v, res = attempt(f, encm)
        self.run.log(op, res=res, **kw)
        self.regs.append((v, top, bot, nm, sp, k))

    def query(self, op, f, /, **kw):
        self.run.log(op, res=attempt(f, same)[1], **kw)

    def poly(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3])
        c = [r.choice([0, 1, -1, 1, 2, -3]) for _ in range(n)]
        return r.randrange(-3, 4), c

    def new(self, top=None, bot=None):
        r, m = self.r, 5 if self.big else 4
        if top is None and self.wide:
            top = self.wide
            bot = top + r.choice([0, 0, 0, 0, 2, -2])
        elif top is None:
            top = r.randrange(m + 1)
            bot = r.choice([b for b in range(m + 1) if (top + b) % 2 == 0])
            if r.random() < .4: bot = top
        u = r.random()
        if u < .1: self.put('mid', lambda: TLMor.id(top), top, top, 1, 1, 1, n=top); return
        if u < .2 and top > 1:
            i = r.randrange(top - 1)
            self.put('me', lambda: TLMor.e(i, top), top, top, 1, 1, 1, i=i, n=top); return
        if u < .3:
            x = rec(top, bot, diag(r, top, bot))
            self.put('mdiag', lambda: TLMor.from_tldiag(D(x)), top, bot, 1, 1, 1, x=x); return
        seen, ts = set(), []
        for _ in range(r.randrange(4)):
            s = tuple(diag(r, top, bot))
            if s in seen: continue
            seen.add(s)
            ts.append([top, bot, list(s), list(self.poly())])
        if r.random() < .05: ts.append([bot + 2, top, matching(r, top + bot + 2), [0, [1]]])
        self.put('mor', lambda: TLMor(top, bot, {TLDiag(a, b, tuple(s)): LPoly(p[0], tuple(p[1])) for a, b, s, p in ts}), top, bot, 1 + sum(sum(map(abs, t[3][1])) for t in ts), 9, len(ts), top=top, bot=bot, ts=ts)

    def step(self):
        r = self.r
        if len(self.regs) < 4 or r.random() < .15: return self.new()
        a = r.randrange(len(self.regs))
        A, top, bot, nm, sp, k = self.regs[a]
        if A is None: return
        op = r.choice(['madd', 'msub', 'mneg', 'mscale', 'mplus', 'mmul', 'mmul', 'mmul', 'mmuld', 'mflip', 'mquot', 'mpow', 'mtrace', 'mcoef', 'meq', 'cells', 'project', 'new'])
        if self.wide and op in ('cells', 'mpow', 'mmuld'): op = 'mtrace'
        many = nm < 10**6 and sp < 30 and k < 25
        if op in ('madd', 'msub', 'mmul', 'meq'):
            need = [j for j, R in enumerate(self.regs) if R[0] is not None and ((R[1] == bot) if op == 'mmul' else (R[1], R[2]) == (top, bot))]
            bs = need if need and r.random() < .9 else [j for j, R in enumerate(self.regs) if R[0] is not None]
            b = r.choice(bs)
            B, btop, bbot, bnm, bsp, bk = self.regs[b]
            if op == 'meq': return self.query(op, lambda: self.eq(A, B), a=a+1, b=b+1)
            if op != 'mmul' and not many: return
            if op == 'madd': return self.put(op, lambda: A + B, top, bot, nm + bnm, max(sp, bsp), k + bk, a=a+1, b=b+1)
            if op == 'msub': return self.put(op, lambda: A - B, top, bot, nm + bnm, max(sp, bsp), k + bk, a=a+1, b=b+1)
            if nm * bnm * 2 ** (bot // 2) > 10**8 or sp + bsp > 40 or k * bk > 80: return
            return self.put(op, lambda: A * B, top, bbot, nm * bnm * 2 ** (bot // 2), sp + bsp + bot, k * bk, a=a+1, b=b+1)
        if op == 'mneg': return self.put(op, lambda: -A, top, bot, nm, sp, k, a=a+1)
        if op in ('mscale', 'mplus'):
            lo, c = self.poly()
            if not many: return
            how = r.randrange(3)
            if how == 0: lo, c, x = 0, [c[0] if c else 0], (c[0] if c else 0)
            else: x = LPoly(lo, tuple(c))
            p = 1 + sum(map(abs, c))
            if op == 'mscale': return self.put(op, (lambda: x * A) if how == 1 else (lambda: A * x), top, bot, nm * p, sp + 6, k, a=a+1, x=[lo, c])
            if r.random() < .3: return self.put(op, lambda: A - (-x), top, bot, nm + p, sp + 6, k + 1, a=a+1, x=[lo, c])
            return self.put(op, lambda: A + x, top, bot, nm + p, sp + 6, k + 1, a=a+1, x=[lo, c])
        if op == 'mmuld':
            t = bot if r.random() < .9 else bot + 2
            b = r.choice([j for j in range(6) if (t + j) % 2 == 0])
            x = rec(t, b, diag(r, t, b))
            if not many: return
            return self.put(op, lambda: A * D(x), top, b, nm * 2 ** (bot // 2), sp + bot, k, a=a+1, x=x)
        if op == 'mflip':
            tw = r.randrange(2)
            f = (lambda: A.flip()) if tw and r.random() < .5 else (lambda: A.flip(bool(tw)) if r.random() < .5 else A.flip(twist_v=bool(tw)))
            return self.put(op, f, bot, top, nm, sp, k, a=a+1, tw=tw)
        if op == 'mquot':
            s = r.randrange(-1, bot + 2)
            return self.put(op, lambda: A.quotient(s), top, bot, nm, sp, k, a=a+1, k=s)
        if op == 'mpow':
            e = r.choice([-1, 0, 1, 2, 2, 3, 3, 4, 5])
            g = CAT[(top + bot) // 2]
            p = max(1, nm) ** max(e, 1) * 2 ** (top // 2 * max(e, 1))
            if e > 1 and (p > 10**8 or (sp + top) * e > 40 or min(k, g) > 4): return
            return self.put(op, lambda: A ** e, top, bot, p, (sp + top) * max(e, 1), g, a=a+1, e=e)
        if op == 'mtrace' and top == bot: return self.query(op, lambda: dict(x=enc_poly(A.trace(), 0)), a=a+1)
        if op == 'mcoef':
            x = rec(top, bot, diag(r, top, bot))
            if r.random() < .5 and A.terms: x = rec(top, bot, r.choice(sorted(d.seq for d in A.support())))
            if r.random() < .08: x = rec(top + 1, bot + 1, diag(r, top + 1, bot + 1))
            return self.query(op, lambda: dict(x=enc_poly(A.coefficient(D(x)), 0)), a=a+1, x=x)
        if op == 'cells' and top == bot and many and top >= 1: return self.query(op, lambda: dict(ms=self.cells(A, top)), a=a+1)
        if op == 'project':
            rr = r.randrange(bot // 2 + 1)
            return self.put(op, lambda: TLCell(bot, rr).project_vector(A), top, bot, nm, sp, k, a=a+1, r=rr)

    def eq(self, A, B):
        if flag(A == B) == flag(A != B): raise Malformed('== and != agree')
        return dict(eq=flag(A == B))

    def cells(self, A, n):
        ms = []
        for c in JonesRep(n).cells:
            ms.append(dict(B=[ints(d.seq) for d in c.basis_diagrams()], m=enc_m(c.project_leftmult_matrix(A)), s=enc_poly(c.trace_scalar(), 0), d=integer(c.dim())))
        return ms


CAT = [1, 1, 2, 5, 14, 42, 132, 429, 1430, 4862, 16796]


def replay(out, inp, part, parts):
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            x, d, to = e['x'], e['from'], e['to']
            def step():
                loops = 0
                if e['op'] == 'above': y, loops = D(x) * D(d)
                elif e['op'] == 'below': y, loops = D(d) * D(x)
                elif e['op'] == 'right': y = D(d) @ D(x)
                else: y = D(d).flip()
                z = X(d).add_bubbles(3)
                z = X(x) * z if e['op'] == 'above' else z * X(x) if e['op'] == 'below' else z @ X(x) if e['op'] == 'right' else z
                if e['op'] != 'flip':
                    pure, b = z.split_bubbles()
                    if encd(pure) != encd(y) or b != loops + 3: raise Malformed('diagrams with and without loops differ')
                return dict(to=encd(y), loops=integer(loops), through=integer(tl.through_strands(y)), flip=ints(y.flip().seq),
                            closure=integer(tl.trace_count(y.seq)) if y.top == y.bot else -1)
            res = attempt(step, lambda z: z)[1]
            out.replayed += 1
            want = dict(ok=1, to=to, loops=e['loops'], through=e['through'], flip=list(e['flip']), closure=e['closure'])
            if res != want: out.bad.append(dict(run='edge%d' % no, clause='replayed step: got %s, specification says %s' % (res, want), event=e))
            if no < 1: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    r = rng(seed, 'c18', part)
    lists(out, q, part, parts)
    # which sequences are matchings
    run = out.new('matchings%d' % part)
    import itertools
    k = 0
    for n in range(0, 5):
        for s in itertools.product(range(-1, n + 1) if n < 4 else range(n), repeat=n):
            k += 1
            if k % parts != part: continue
            log(run, 'matching', lambda: dict(b=flag(tl.is_crossingless_matching(s))), s=s)
    for _ in range(150 if q else 1500):
        n = r.choice([6, 8, 8, 10, 14])
        s = matching(r, n)
        u = r.random()
        if u < .5:
            # a matching that may cross
            p = r.sample(range(n), n)
            s = [0] * n
            for i in range(0, n, 2): s[p[i]], s[p[i+1]] = p[i+1], p[i]
        elif u < .75: i, j = r.sample(range(n), 2); s[i], s[j] = s[j], s[i]
        elif u < .85: s[r.randrange(n)] = r.randrange(n)
        log(run, 'matching', lambda: dict(b=flag(tl.is_crossingless_matching(seq(r, s)))), s=s)
        top = r.randrange(-1, n + 2)
        bot = n - top if r.random() < .8 else r.randrange(-1, n)
        log(run, 'newdiag', lambda: dict(d=encd(TLDiag(top, bot, seq(r, s)))), top=top, bot=bot, s=s)
        log(run, 'newdiag', lambda: dict(d=encd(TLExtDiag(top, bot, seq(r, s)))), top=top, bot=bot, s=s)
    for n in range(-1, 7):
        for i in range(-1, n + 1):
            if (n + i) % parts == part:
                def f():
                    es = [encd(TLExtDiag.e(i, n))] + [encd(d) for d in TLMor.e(i, n).support()]
                    return dict(ids=[encd(TLDiag.id(n)), encd(TLExtDiag.id(n))] + [encd(d) for d in TLMor.id(n).support()], es=es)
                log(run, 'ide', f, n=n, i=i)
                log(run, 'ide', lambda: dict(ids=[], es=[encd(d) for d in TLMor.e(i, n).support()]), n=n, i=i)
    for _ in range(20):
        b, m = r.randrange(5), r.randrange(5)
        def f():
            x = TLExtDiag(2, 2, (1, 0, 3, 2), b)
            y = x.add_bubbles(m)
            z, k = y.split_bubbles()
            return dict(b=[integer(x.bubbles), integer(y.bubbles), integer(z.bubbles), integer(k)], same=int(z.seq == x.seq and (z.top, z.bot) == (2, 2) and z.add_bubbles(k) == y))
        log(run, 'bubbles', f, b=b, m=m)
    # all pairs of small diagrams
    run, k = out.new('pairs%d' % part), 0
    m = 4 if q else 5
    for a in range(m + 1):
        for b in range(m + 1):
            for c in range(m + 1):
                if (a + b) % 2 or (b + c) % 2: continue
                for u in all_matchings(a + b):
                    for d in all_matchings(b + c):
                        k += 1
                        if k % parts == part: compose(run, r, rec(a, b, u), rec(b, c, d))
            if (a + b) % 2 == 0:
                for u in all_matchings(a + b):
                    k += 1
                    if k % parts == part: single(run, rec(a, b, u))
    # random larger ones
    for no in range(12 if q else 120):
        run = out.new('diagrams%d.%d' % (part, no))
        m = r.choice([6, 9, 12, 16])
        for _ in range(25):
            a, b, c = r.randrange(m + 1), r.randrange(m + 1), r.randrange(m + 1)
            b += (a + b) % 2; c += (b + c) % 2
            u, d = rec(a, b, diag(r, a, b)), rec(b, c, diag(r, b, c))
            if r.random() < .05: d = rec(b + 2, c, diag(r, b + 2, c))
            compose(run, r, u, d, r.randrange(3), r.randrange(3))
            v = rec(a, a, diag(r, a, a))
            single(run, u); single(run, v)
            tensor(run, u, d, r.randrange(3), r.randrange(3))
            insert(run, r, u['seq'], d['seq'], r.randrange(-1, a + b + 2))
            w = u if r.random() < .3 else rec(a, b, diag(r, a, b)) if r.random() < .7 else rec(b, a, u['seq'])
            samed(run, u, w)
    for no in range(16 if q else 160):
        mc = M(out.new('morphisms%d.%d' % (part, no)), r, not q)
        for _ in range(60): mc.step()
    for no in range(4 if q else 40):            # many strands
        mc = M(out.new('wide%d.%d' % (part, no)), r, False, r.choice([6, 7, 8, 9, 11]))
        for _ in range(40): mc.step()


def all_matchings(n):
    if n == 0: yield []; return
    for k in range(0, n, 2):                # 0 is joined to k+1
        for x in all_matchings(k):
            for y in all_matchings(n - 2 - k):
                yield [k + 1] + [v + 1 for v in x] + [0] + [v + k + 2 for v in y]
