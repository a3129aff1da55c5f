"""Buckets of the tracker: contents, tags, counts, tables."""
from tracker import *


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    no = 0
    for n, rr, p in [(3, 1, 0), (3, 1, 2), (4, 1, 2), (4, 1, 5), (4, 2, 3), (4, 1, 0), (5, 2, 2), (5, 1, 3), (4, 0, 2), (2, 1, 3)]:
        for method in ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin'):
            for rep_no in range(1 if q else 6):
                no += 1
                if no % parts != part: continue
                r = rng(seed, 'c11', no)
                keys = r.choice([['length', 'projlen'], ['length', 'projlen'], ['projlen', 'length'], ['nf', 'length', 'projlen'], ['length', 'nz_terms', 'projlen'], ['length', 'projlen', 'nf', 'nz_terms']])
                kinds = ['G', 'D'] if 'nf' in keys else [r.choice('GD')]
                if n == 2: kinds = [k for k in kinds if k == 'G'] or ['D']
                cap = r.choice([1, 2, 3, 5, 12])
                m = TM(out.new('tracker%d' % no), JonesCellRep(n=n, r=rr, p=p), method, cap, keys, r.choice(['one', 'projlen', 'nz_terms', 'mix', 'few']), seed=r.randrange(1000), rand=r.random() < .8, focus='contents')
                history(m, r, kinds, 40 if q else 90, {2: 0, 3: 4, 4: 3, 5: 2}[n])
