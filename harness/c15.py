"""Search steps."""
from searching import *
from peyl.braidsearch import JonesSummand

QUICK = [  # n, r, p, b, cap, use, save, step, stop, upto
    (4, 1, 2, 1, 500, 60, 500, 1, 1, None), (4, 1, 2, 1, 500, 40, 15, 1, 1, None), (4, 1, 2, 2, 20, 60, 500, 1, 0, 5), (4, 1, 3, 1, 500, 60, 30, 1, 0, 5), (4, 1, 2, 1, 12, 30, 500, 1, 0, 7),
    (4, 2, 2, 1, 500, 60, 500, 1, 1, None), (4, 2, 3, 2, 500, 80, 20, 1, 0, 4), (4, 2, 5, 1, 500, 100, 100, 2, 1, None), (3, 1, 2, 3, 500, 20, 100, 1, 0, 9), (3, 1, 3, 4, 500, 10, 100, 2, 0, 8),
    (3, 1, 5, 2, 3, 10, 100, 1, 0, 10), (3, 0, 2, 2, 500, 6, 50, 1, 1, None), (3, 0, 3, 3, 500, 8, 50, 1, 0, 6), (3, 0, 2, 2, 500, 3, 50, 1, 0, None), (4, 1, 2, 1, 500, 22, 22, 1, 0, 3), (4, 1, 5, 1, 500, 21, 5, 1, 0, None),
    (4, 1, 2, 2, 500, 70, 60, 2, 0, 5), (3, 1, 2, 3, 500, 30, 100, 3, 0, 6), (3, 1, 2, 1, 500, 30, 100, 3, 0, 5), (5, 1, 2, 1, 500, 30, 300, 1, 0, 3), (5, 2, 2, 1, 500, 20, 40, 1, 0, 3),
    (4, 1, 2, 1, 500, 60, 0, 1, 1, None), (3, 1, 11, 2, 500, 16, 9, 1, 0, 6), (4, 1, 2, 2, 300, 150, 400, 1, 1, None)]
DEEP = [(4, 1, 2, 3, 500, 120, 500, 1, 1, None), (4, 1, 2, 2, 60, 100, 500, 1, 1, None), (4, 1, 3, 2, 500, 200, 300, 1, 0, 8), (4, 1, 2, 2, 500, 100, 200, 2, 1, None), (4, 1, 2, 3, 500, 100, 200, 3, 1, None), (5, 1, 2, 2, 3000, 300, 3000, 1, 0, 5),
    (5, 2, 2, 1, 500, 60, 100, 1, 0, 6), (4, 2, 2, 3, 2000, 500, 700, 1, 1, None), (4, 2, 7, 2, 500, 200, 100, 2, 0, 6), (3, 1, 2, 5, 500, 100, 200, 1, 0, 20), (3, 1, 7, 6, 500, 60, 70, 4, 0, 14), (3, 0, 5, 5, 500, 100, 90, 2, 0, 8),
    (4, 0, 2, 1, 500, 100, 100, 1, 1, None), (4, 1, 13, 2, 200, 150, 500, 1, 0, 6), (6, 3, 2, 1, 2000, 60, 200, 1, 1, None)]


def sums(n, r, p, b):
    """Running totals of the sizes of the buckets of length b, best first (only used to choose budgets)."""
    rep = JonesSummand(n=n, r=r, p=p)
    c = {}
    for x in (GNF.all_of_length(n, b)):
        g = int(rep_projlen(rep, x))
        c[g] = c.get(g, 0) + 1
    out, t = [], 0
    for g in sorted(c): t += c[g]; out.append(t)
    return out


def rep_projlen(rep, x):
    a = JonesCellRep(n=rep.n, r=rep.r, p=rep.p).polymat_evaluate_braid(x)
    nz = np.nonzero(a.any(axis=(0, 1)))[0]
    return nz[-1] - nz[0] + 1


def edges(r, q):
    """Budgets at, just below and just above what the buckets need."""
    for n, rr, p, b in [(4, 1, 2, 1), (4, 1, 3, 1), (4, 2, 3, 1), (3, 1, 2, 3), (3, 1, 3, 4)] + ([] if q else [(4, 1, 2, 2), (4, 2, 5, 2), (5, 1, 2, 1), (3, 1, 5, 5), (3, 0, 3, 3)]):
        c = sums(n, rr, p, b)
        for d in (-1, 0, 0, 1):
            u = r.choice(c if n == 3 else c[:max(1, len(c) - 1)]) + d
            yield n, rr, p, b, 1000, u, 1000, 1, 0, b + 1
            yield n, rr, p, b, 1000, r.choice(c), r.choice(c) + d, 1, 0, b + 1
            w = r.choice(c)
            yield n, rr, p, b, 1000, w, w, 1, 0, b + 1


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    jobs = list(QUICK) + ([] if q else DEEP)
    r = rng(seed, 'c15')
    for _ in range(12 if q else 150):
        n, rr, p = r.choice([(3, 1, 2), (3, 1, 3), (4, 1, 2), (4, 1, 2), (4, 1, 3), (4, 2, 2), (4, 2, 3), (3, 0, 2), (3, 1, 7)])
        b = r.choice([1, 2, 3, 4]) if n == 3 else r.choice([1, 1, 2])
        step = r.choice([1, 1, 1, 2]) if b == 1 else r.choice([1, 1, 2, b])
        stop = r.randrange(2) if (n, rr, p) in ((4, 1, 2), (4, 2, 2), (4, 2, 3), (3, 0, 2)) else 0
        cap = r.choice([4, 9, 25]) if step == 1 and r.random() < .4 and not stop else 1000
        use = r.choice([5, 17, 30]) if n == 3 else r.choice([20, 45, 70])
        save = 1000 if cap < 1000 else r.choice([0, 3, 20, 60, 1000])
        upto = None if stop else b + r.choice([2, 3, 4])
        if upto and save < 20: save = 20
        jobs.append((n, rr, p, b, cap, use, save, step, stop, upto))
    jobs += list(edges(r, q))
    for i, (n, rr, p, b, cap, use, save, step, stop, upto) in enumerate(jobs):
        if i % parts != part: continue
        s = Searches(out.new('search%d' % i), n, rr, p, b, cap, use, save, step, stop, seed=i + int(seed))
        s.search(upto=upto, limit=40)
        if stop and i % 2 == 0: s.search(db=False)
        s.close()
