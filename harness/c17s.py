"""Rows saved by the search, read back as braids."""
from searching import *


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    #  n r p bootstrap bucket use save step last-length
    jobs = [(3, 1, 2, 3, 1000, 30, 1000, 1, 5), (4, 1, 2, 1, 1000, 40, 1000, 1, 3)]
    if not q: jobs += [(4, 2, 3, 2, 1000, 60, 1000, 1, 4), (4, 1, 3, 2, 1000, 60, 1000, 2, 5), (5, 1, 2, 1, 1000, 120, 1000, 1, 2), (3, 1, 5, 4, 20, 60, 1000, 1, 8)]
    for i, (n, r, p, b, cap, use, save, step, upto) in enumerate(jobs):
        if i % parts != part: continue
        s = Searches(out.new('saved%d' % i), n, r, p, b, cap, use, save, step, 0, seed=int(seed) + i)
        s.search(upto=upto, limit=40)
        s.close()
