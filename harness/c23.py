"""Matrices over the integers and over Laurent polynomials."""
from alg import *


def record(out, part, parts, tier, seed, inp):
    for no in range(30 if tier == 'quick' else 400):
        r = rng(seed, 'c23', part, no)
        q = BIG if no % 3 == 2 else 0
        m = MM(out.new('matrix%d.%d' % (part, no), q=q), r, q)
        for _ in range(100): m.step()
        for i in m.mats: m.see(i)
