"""The tracker of peyl.braidsearch (the one the search script uses)."""
from tracker import *
import c12, c13

CRITS = [None, dict(minlen=1, maxlen=3, maxproj=10**6, maxnz=10**6), dict(minlen=0, maxlen=10**6, maxproj=6, maxnz=10**6), dict(minlen=2, maxlen=4, maxproj=9, maxnz=30),
         dict(minlen=0, maxlen=10**6, maxproj=10**6, maxnz=14), dict(minlen=50, maxlen=60, maxproj=10**6, maxnz=10**6)]
KEYS = [['length', 'projlen'], ['projlen', 'length'], ['length', 'projlen', 'nz_terms'], ['length', 'nz_terms', 'projlen'], ['length', 'projlen', 'degmax', 'valmin']]
REPS = [(3, 1, 0), (3, 1, 2), (4, 1, 2), (4, 1, 5), (4, 2, 3), (4, 1, 0), (5, 2, 2), (4, 2, 0)]


def new(out, name, n, rr, p, method, r, cap=None, crit=0):
    c = CRITS[r.choice([0, 0, 0, 1, 2, 3, 4, 5]) if crit == 0 else crit]
    return TM(out.new(name), JonesSummand(n=n, r=rr, p=p), method, cap or r.choice([1, 2, 3, 5, 300]), r.choice(KEYS), crit=c, seed=r.randrange(1000))


def ops(m, r, steps, size, L):
    n = m.rep.n
    P = pool(r, n, 'G', size, L)
    cost = {3: 4, 4: 22, 5: 118}[n]
    li = list(m.keys).index('length')
    for _ in range(steps):
        tags = m.sorted_tags()
        u = r.random()
        none = tuple(99 for k in m.keys)
        if u < .4 or not tags:
            bs = [r.choice(P) for _ in range(r.choice([1, 2, 4, 8]))]
            if r.random() < .3: bs = [of_length(r, n, 'G', r.randrange(0, L + 1), 3) for _ in bs]
            if not m.offer(bs): break
        elif u < .56:
            t = r.choice(tags)
            l = r.choice([1, 1, 2])
            if len(m.contents(t)[0]) * (cost if l == 1 else cost * (2 if n == 3 else 9)) > 350 or t[li] > 4: continue
            if not m.extend(t, l, r.randrange(2)): break
        elif u < .68:
            a, b = r.choice(tags), r.choice(tags)
            if len(m.contents(a)[0]) * len(m.contents(b)[0]) > 60 or a[li] + b[li] > 8: continue
            if not m.product(a, b): break
        elif u < .8:
            t = max(r.sample(tags, min(3, len(tags))), key=lambda t: t[li])
            if not m.substrings(t): break
        elif u < .87:
            if not m.discard(r.choice(tags) if r.random() < .9 else none): break
        elif u < .95: m.bstats(r.choice(tags) if r.random() < .93 else none)
        elif u < .975: m.validate()
        else: m.corrupt(r)
    m.validate()
    m.corrupt(r)


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    no = 0
    for n, rr, p in REPS:
        for method in ('Legacy', 'LegacyR'):
            for _ in range(3 if q else 20):
                no += 1
                if no % parts != part: continue
                r = rng(seed, 'c14', no)
                ops(new(out, 'ops%d' % no, n, rr, p, method, r), r, (14 if n < 5 else 8) if q else 24, 24, 3)
    for n, rr, p, upto in [(3, 1, 0, 4), (3, 1, 2, 5), (4, 1, 2, 1), (4, 1, 3, 2), (4, 2, 0, 1), (2, 1, 3, 2), (2, 0, 0, 1)] + ([] if q else [(4, 1, 0, 2), (4, 2, 5, 2), (5, 1, 2, 1), (5, 2, 0, 1), (3, 1, 5, 7)]):
        for method in ('Legacy', 'LegacyR'):
            for cap in (4, 500):
                no += 1
                if no % parts != part: continue
                r = rng(seed, 'c14boot', no)
                m = new(out, 'boot%d' % no, n, rr, p, method, r, cap, r.choice([0, 0, 1, 2]))
                if not m.boot(None, 'G', upto): continue
                if n == 2: m.offer([GNF.identity(2)] * 2 + [GNF(2, 3, ())])
                if n < 5 and m.sorted_tags():
                    t = r.choice(m.sorted_tags()[-4:])
                    if len(m.contents(t)[0]) <= 8: m.extend(t, 1)
                    if r.random() < .6: m.discard(t)
                    m.boot(None, 'G', 1)
                m.validate()
    jobs = [(3, 1, 2, 'LegacyR', 60, 13, [(60, 1)]), (4, 1, 2, 'Legacy', 10**6, 3, [(300, 1), (30, 2), (8, 3)]), (4, 1, 3, 'LegacyR', 50, 4, None)] + \
        ([] if q else [(4, 1, 2, 'Legacy', 10**6, 4, [(1000, 1), (200, 2)]), (5, 1, 2, 'LegacyR', 500, 2, [(300, 1)]), (5, 2, 3, 'Legacy', 200, 3, None)])
    for i, (n, rr, p, method, cap, upto, ext) in enumerate(jobs):
        if (i * 3 + 1) % parts == part:
            if cap == 10**6: cap = 6000 if q else 40000
            c13.big(out, 'big%d' % i, JonesSummand(n=n, r=rr, p=p), method, cap, 'G', upto, rng(seed, 'c14big', i), ext)
    # with a random source every offer stays with the same probability
    for i, (c, k) in enumerate([(1, 4), (2, 5), (3, 7), (4, 6)]):
        if (i * 2 + 1) % parts == part:
            run = out.new('trials%d' % i, n=2, r=0, p=2, basis=[[3, 2, 1, 0]], focus='keeps', method='Uniform', cap=1, keys=[], weight='one', crit={}, kinds=[], braids=[], images=[])
            c12.trials(run, 100 + i, 'LegacyR', c, [1] * k, 8000 if q else 32000, int(seed))
