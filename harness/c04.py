"""Words, factor lists and pairs in; words out."""
from braids import *


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    ns = [[2, 3], [4], [5], [3, 6]][part % 4]
    for n in ns:
        for k in 'GD':
            for j in range((20 if q else 200) if n < 6 else 8):
                r = rng(seed, 'c04', n, k, part, j)
                m = Machine(out.new('w%d%s.%d' % (n, k, j), n=n), n, r)
                for _ in range(6):
                    if m.dead: break
                    u = r.random()
                    if u < .3: a = m.word(k, random_word(r, n, r.randrange(0, 10), r.choice([1, 4])))
                    elif u < .35: a = m.word(k, [[r.randrange(n - 1), r.choice([0, -7, 9, -2])] for _ in range(r.randrange(0, 4))])
                    elif u < .65: a = m.seq(k, [m.div(k) for _ in range(r.randrange(0, 7))])
                    elif u < .8: a = m.pair(r.randrange(-4, 5), [m.div('G') for _ in range(r.randrange(0, 5))]) if k == 'G' else m.band(r.randrange(n), r.randrange(n))
                    elif u < .9: a = m.gens(k, random_word(r, n, r.randrange(0, 6)))
                    else:
                        x = m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]])
                        if m.dead: break
                        a = m.pow(x, r.randrange(-4, 5))
                    if m.dead: break
                    m.out(a); m.magma(a)
                    if m.dead: break
                    if kind(m.regs[a-1]) == 'G':
                        x = m.regs[a-1]
                        # write the pair and read it back
                        v, res = attempt(lambda: BraidGroup(n).from_gnf_pair((x.canonical_decomposition()[0], tuple(p.word for p in x.canonical_decomposition()[1]))),
                                         lambda y: dict(eq=int(y == x), ne=int(y != x), h=int(hash(y) == hash(x))))
                        m.run.log('eq', a=a, b=a, res=res)
            for j in range((5 if n < 6 else 2) if q else 30):
                r = rng(seed, 'far', n, k, part, j)
                m = Machine(out.new('far%d%s.%d' % (n, k, j), n=n), n, r)
                def words(y, m=m):
                    b = m.regs[y-1]
                    if (abs(b.inf()) + len(b.factors)) * (n * (n - 1) // 2 if k == 'G' else n - 1) < 700: m.out(y); m.magma(y)
                far(m, k, words)
    # the words of all divisors
    for n in ([2, 3, 4], [5], [6] if not q else [], [])[part % 4]:
        for k in 'GD':
            m = Machine(out.new('divisors%d%s' % (n, k), n=n), n, rng(seed))
            for d in ([list(p) for p in all_perms(n)] if k == 'G' else ncs(n)):
                m.sout(k, d)
    if part == 2:
        m = Machine(out.new('reject', n=4), 4, rng(seed))
        G = BraidGroup(4)
        m.reject('permutation of another size', lambda: G.positive_lift(Permutation((1, 0, 2))))
        m.reject('partition of another size', lambda: G.from_npar(NPar.coarsest(3)))
        m.reject('permutations of another size', lambda: GNF.from_perm_seq(4, [Permutation((1, 0, 2))]))
        m.reject('partitions of another size', lambda: DGNF.from_npar_seq(4, [NPar.coarsest(3)]))
        m.reject('a pair with a word which is no permutation', lambda: G.from_gnf_pair((0, [(0, 0, 1, 2)])))
        for k in 'GD':
            m.reject('generator outside the group', lambda: CLS[k].from_artin_word(4, [(3, 1)]))
            m.reject('generator outside the group', lambda: CLS[k].from_artin_word(4, [(0, 1), (7, -1)]))
            m.reject('product of braids of different groups', lambda: CLS[k].identity(4) * CLS[k].identity(3))
        m.reject('product of different kinds', lambda: GNF.identity(4) * DGNF.identity(4))
