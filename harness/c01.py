"""Equality classes of braids against Dynnikov coordinates."""
from braids import *


def key(b):
    return (kind(b), integer(b.inf()), tuple(map(str, (enc_div(kind(b), f) for f in b.canonical_factors()))), integer(b.canonical_length()))


def classes(objs):
    """Class numbers by ==, by hashing, and by what is printed."""
    reps, table, prints, res = [], {}, {}, []
    for x in objs:
        for i, y in enumerate(reps):
            e = x == y
            if e is not True and e is not False or e != (y == x) or e == (x != y):
                raise Malformed('== and != disagree')
            if e: break
        else:
            i = len(reps); reps.append(x)
        h = table.setdefault(x, len(table))
        res.append([i, h, prints.setdefault(key(x), len(prints))])
    return dict(cls=res)


def rewrite(r, n, w, moves, maxlen):
    """Another word for the same braid (braid relations, cancelling pairs)."""
    w = [list(x) for x in w]
    for _ in range(moves):
        u = r.random()
        if u < .25 and len(w) + 2 <= maxlen:
            p, i, e = r.randrange(len(w) + 1), r.randrange(n - 1), r.choice([1, -1])
            w[p:p] = [[i, e], [i, -e]]
        elif len(w) >= 2:
            p = r.randrange(len(w) - 1)
            (a, e), (b, f) = w[p], w[p + 1]
            if abs(a - b) >= 2:
                w[p], w[p + 1] = w[p + 1], w[p]
            elif a == b and e == -f:
                del w[p:p + 2]
            elif p + 2 < len(w) and abs(a - b) == 1 and w[p + 2][0] == a:
                g = w[p + 2][1]
                # a^e b^f a^g with e = f or f = g:  a b a = b a b,  a b A = B a b ...
                if e == f or f == g:
                    w[p:p + 3] = [[b, g], [a, f], [b, e]]
    return w


def routes(r, n, k, w):
    """Functions building the braid of the word w in different ways."""
    c = CLS[k]
    W = [tuple(x) for x in w]
    half = r.randrange(len(W) + 1)
    gens = lambda: list(c.artin_gens(n))
    def fold():
        g, x = gens(), c.identity(n)
        for i, e in W: x = x * g[i] ** e
        return x
    def foldr():
        g, x = gens(), c.identity(n)
        for i, e in reversed(W): x = g[i] ** e * x
        return x
    def factors():
        x = c.identity(n)
        i = 0
        while i < len(W):
            j = i
            while j < len(W) and W[j][1] > 0: j += 1
            if j > i:
                ps = []
                for s, e in W[i:j]:
                    for _ in range(e):
                        ps.append(Permutation(perm_word(n, [s])) if k == 'G' else NPar.from_components(n, [[s, s + 1]] + [[t] for t in range(n) if t not in (s, s + 1)]))
                x = x * (GNF.from_perm_seq(n, ps) if k == 'G' else DGNF.from_npar_seq(n, ps))
                i = j
            else:
                x = x * c.from_artin_word(n, [(W[i][0], -W[i][1])]).inv()
                i += 1
        return x
    other = CLS['D' if k == 'G' else 'G']
    return [lambda: c.from_artin_word(n, W), lambda: c.from_artin_word(n, iter(W)), lambda: c.from_artin_word(n, W[:half]) * c.from_artin_word(n, W[half:]),
            lambda: c.from_artin_word(n, [(i, -e) for i, e in reversed(W)]).inv(), fold, foldr, factors,
            lambda: c.from_artin_word(n, c.from_artin_word(n, W).artin_word()),
            lambda: (other.from_artin_word(n, W).to_GNF() if k == 'G' else other.from_artin_word(n, W).to_DGNF()),
            lambda: (c.from_artin_word(n, W) ** -1) ** -1,
            lambda: c.from_artin_word(n, list(W) * 3) * c.from_artin_word(n, W) ** -2,
            lambda: c.identity(n) * c.from_artin_word(n, W), lambda: c.from_artin_word(n, W) * c.identity(n)]


MAXW = {2: 40, 3: 34, 4: 30, 5: 28, 6: 26}


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    # every word up to a length
    ball = [(3, 5, 'G'), (4, 3, 'G'), (3, 5, 'D'), (4, 3, 'D'), (5, 3, 'G'), (5, 3, 'D'), (2, 8, 'G'), (2, 8, 'D')]
    if not q: ball = [(3, 6, 'G'), (4, 4, 'G'), (3, 6, 'D'), (4, 4, 'D'), (5, 4, 'G'), (5, 4, 'D'), (2, 10, 'G'), (2, 10, 'D')]
    for j, (n, L, k) in enumerate(ball):
        if j % parts != part: continue
        ws, layer = [[]], [[]]
        for _ in range(L):
            layer = [w + [[i, e]] for w in layer for i in range(n - 1) for e in (1, -1)]
            ws += layer
        run = out.new('ball%d%s' % (n, k), n=n)
        v, res = attempt(lambda: classes([CLS[k].from_artin_word(n, [tuple(x) for x in w]) for w in ws]), lambda c: c, limit=300)
        run.log('part', ws=ws, res=res)
    # random words, rewritten and built along different routes, with near misses
    ns = [[2, 3], [4], [5], [3, 4, 6] if part == 3 else [3, 4]][part % 4]
    for n in ns:
        for j in range((12 if q else 120) if n < 6 else 4):
            r = rng(seed, 'c01', n, part, j)
            k = 'GD'[j % 2]
            run = out.new('mix%d.%d.%d' % (n, part, j), n=n)
            ws, fs = [], []
            M = MAXW[n]
            for _ in range(5):
                u = r.random()
                if u < .4: w = random_word(r, n, r.randrange(0, M - 6))
                elif u < .6: w = [[i, 1] for i, _ in random_word(r, n, r.randrange(0, M - 8))]
                elif u < .8:
                    a = random_word(r, n, r.randrange(1, M // 4)); w = a + random_word(r, n, 2) + inverse_word(a)
                else:
                    d = [[i, 1] for i in reduced_word(list(range(n))[::-1])]
                    w = (d if r.random() < .5 else inverse_word(d)) * (1 if n > 4 else 2)
                    w = w[:M] + random_word(r, n, 3)
                for w2 in [w] + [rewrite(r, n, w, r.choice([3, 20, 60]), M + 4) for _ in range(5)]:
                    rs = routes(r, n, k, w2)
                    for f in r.sample(rs, 3):
                        ws.append(w2); fs.append(f)
                # near misses: one letter changed, inserted or dropped
                w3 = [list(x) for x in w] or [[0, 1]]
                p = r.randrange(len(w3))
                if r.random() < .4: w3[p][1] = -w3[p][1]
                elif r.random() < .5: del w3[p]
                else: w3.insert(p, [r.randrange(n - 1), 1])
                ws.append(w3); fs.append(r.choice(routes(r, n, k, w3)))
            v, res = attempt(lambda: classes([f() for f in fs]), lambda c: c)
            run.log('part', ws=ws, res=res)
    if part == 0:
        run = out.new('differ', n=3)
        two = lambda w, n, m, k, l: (CLS[k].from_artin_word(n, w), CLS[l].from_artin_word(m, w))
        for w in ([], [(0, 1)], [(0, 1), (1, 1)], [(0, -1)]):
            for n, m, k, l in ((3, 4, 'G', 'G'), (3, 4, 'D', 'D'), (3, 3, 'G', 'D'), (4, 5, 'G', 'G'), (4, 5, 'D', 'D'), (3, 4, 'D', 'G')):
                v, res = attempt(lambda: two(w, n, m, k, l), lambda p: dict(eq=int(p[0] == p[1] or p[1] == p[0] or not (p[0] != p[1]))))
                run.log('differ', res=res)
        for k in 'GD':
            for o in (None, 0, (3, 0, ()), '1'):
                v, res = attempt(lambda: CLS[k].identity(3), lambda x: dict(eq=int(x == o)))
                run.log('differ', res=res)
