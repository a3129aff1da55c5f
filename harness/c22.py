"""Integer polynomials and the special ones."""
from alg import *


def record(out, part, parts, tier, seed, inp):
    if inp:
        import c21
        return c21.replay(out, inp, part, parts)
    quick = tier == 'quick'
    for no in range(20 if quick else 300):
        r = rng(seed, 'c22', part, no)
        q = BIG if no % 3 == 2 else 0
        m = A(out.new('poly%d.%d' % (part, no), q=q), r, q, 'P')
        for _ in range(120): m.step()
        for i, x in enumerate(m.regs):
            if x is not None: m.see(i + 1)
    # special polynomials, in a random order within each process
    r = rng(seed, 'c22s', part)
    m = A(out.new('special%d' % part, q=0), r, 0, 'P')
    jobs = [('cyc', n) for n in range(-1, 121 if quick else 300) if n % parts == part or n < 13] + [('mincos', n) for n in range(1, 61 if quick else 76) if n % parts == part or n < 13] + \
           [('cheb', n) for n in range(-1, 26)]
    r.shuffle(jobs)
    jobs += r.sample(jobs, min(15, len(jobs)))
    for op, n in jobs:
        m.put(op, dict(cyc=lambda: Poly.cyclotomic(n), mincos=lambda: Poly.minpolycos(n), cheb=lambda: Poly.chebyshevT(n))[op], n=n)
    for i, x in enumerate(m.regs):
        if x is not None and i % 3 == 0: m.see(i + 1)
    m = A(out.new('chebyshev%d' % part, q=BIG), r, BIG, 'P')
    for n in r.sample(range(20, 130), 12): m.put('cheb', lambda: Poly.chebyshevT(n), n=n)
