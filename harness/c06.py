"""Enumeration, counting and sampling."""
import random
from braids import *
PRIMES = [999999937, 998244353, 2]


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    jobs = []
    for k in 'GD':
        for n, L in ((2, 3), (3, 5), (4, 3 if k == 'G' else 4), (5, 2 if k == 'G' and not q or k == 'D' else 1), (6, 1)):
            for l in range(L + 1):
                if n == 6 and k == 'G' and q: continue
                jobs.append(('enum', n, k, l))
        for n, L in ((2, 4), (3, 40), (4, 40), (5, 12 if q else 40)):
            jobs.append(('count', n, k, L))
        for n in (3, 4):
            jobs.append(('dist', n, k, 0))
        if not q: jobs.append(('dist', 5, k, 0))
        jobs.append(('steps', 5, k, 30))
        for n in ((5, 6) if k == 'G' else (5, 6, 7)): jobs.append(('steps', n, k, 1))
        for n in (2, 3, 4, 5):
            for j in range(3 if q else 15):
                jobs.append(('tree', n, k, j))
    for no, (what, n, k, L) in enumerate(jobs):
        if no % parts != part: continue
        r = rng(seed, 'c06', no)
        run = out.new('%s%d%s%d' % (what, n, k, L), n=n)
        m = Machine(run, n, r)
        C = CLS[k]
        if what == 'enum':
            for p in ((0,) if L > 3 else (0, -1, 3)):
                f = lambda: C.all_of_length(n, L, p)
                if p == 0: f = lambda: C.all_of_length(n, L)
                if k == 'G' and p and r.random() < .6: f = lambda: BraidGroup(n).all_of_garside_length(L, p)
                m.query('enum', f, enc_list, k=k, p=p, len=L)
                if k == 'G': m.query('enum', (lambda: BraidGroup(n).all_of_garside_length(L)) , enc_list, k=k, p=0, len=L)
        elif what == 'count':
            for l in range(L + 1):
                f = (lambda: C.count_all_of_length(n, l)) if k == 'D' or r.random() < .7 else (lambda: BraidGroup(n).count_all_of_garside_length(l))
                def mods(c):
                    import numbers
                    if isinstance(c, bool) or not isinstance(c, numbers.Integral): raise Malformed('count')
                    return dict(mods=[[p, int(c) % p] for p in PRIMES])
                m.query('count', f, mods, k=k, len=l)
        elif what == 'dist':
            N, S = (3000, 4) if n == 3 else (20000, 3)
            rand = random.Random('%s/%s/%s' % (seed, n, k))
            def draw():
                cnt = [{} for _ in range(S)]
                cache = {}
                for j in range(N):
                    b = C.sample(n, S, rand) if j % 2 or k == 'D' else BraidGroup(n).sample_braid_perm(S, rand)
                    prev = ()
                    for i, f in enumerate(b.canonical_factors()):
                        key = (prev, f)
                        cnt[i][key] = cnt[i].get(key, 0) + 1
                        prev = f
                return cnt
            v, res = attempt(draw, lambda c: dict(cnt=[[[[] if p == () else [enc_div(k, p)], enc_div(k, f), c_] for (p, f), c_ in d.items()] for d in c]), limit=200)
            for i in range(S):
                m.query('dist', (lambda: res), (lambda x: dict(cnt=x['cnt'][i])) if res['ok'] else None, k=k, pos=i) if res['ok'] else run.log('dist', k=k, pos=i, res=res)
        elif what == 'steps':
            # many steps of sampling in a larger group: first factors (L = 1), or all the steps of long samples
            rand = random.Random('%s/%s/%s/%s' % (seed, n, k, L))
            N = 40 * len(list(C.all_of_length(n, 1))) if L == 1 else 4000 if q else 12000
            def draw():
                cnt = {}
                for j in range(N):
                    b = C.sample(n, L, rand) if j % 2 or k == 'D' else BraidGroup(n).sample_braid_perm(L, rand)
                    prev = ()
                    for f in b.canonical_factors():
                        cnt[prev, f] = cnt.get((prev, f), 0) + 1
                        prev = f
                return cnt
            m.query('dist', draw, lambda c: dict(cnt=[[[] if p == () else [enc_div(k, p)], enc_div(k, f), c_] for (p, f), c_ in c.items()]), k=k, pos=-1)
        else:
            for _ in range(5):
                u = r.random()
                if u < .25: a = m.identity(k)
                elif u < .4: a = m.pow(m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]]), r.choice([-2, 1, 3]))
                elif u < .7: a = m.seq(k, [m.div(k) for _ in range(r.randrange(1, 6))])
                else: a = m.inv(m.seq(k, [m.div(k) for _ in range(r.randrange(1, 6))]))
                if m.dead: break
                m.query('desc', lambda: m.regs[a-1].nf_descendants(), enc_list, a=a)
                for l in ((0, 1, 2) if n < 5 else (0, 1)):
                    m.query('suff', lambda: m.regs[a-1].nf_suffixes(l), enc_list, a=a, len=l)
                L0 = len(m.regs[a-1].canonical_factors())
                i = r.randrange(L0 + 1)
                m.sub(a, i, r.randrange(i, L0 + 1))
                if m.dead: break
                m.sub(a, 0, L0)
                if m.dead: break
                b = r.randrange(len(m.regs)) + 1
                m.raw(r.randrange(-1, 2), a, b)
            if n > 2:
                for l in (0, 1, 2, 5, 12, 30):
                    f = (lambda: C.sample(n, l)) if l % 2 else (lambda: C.sample(n, l, random.Random(r.random())))
                    m.query('sample', f, lambda b: enc_nf(b), k=k, len=l)
