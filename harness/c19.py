"""Noncrossing partitions."""
import json, itertools
from common import *
from peyl import noncrossing as nc
from peyl.noncrossing import NPar
from peyl.permutations import Permutation
from c20 import flag


def word(w):
    return [ints(x) for x in w]


def about(n, p, dyn):
    l, r = p.left_complement(), p.right_complement()
    cs = p.components()
    if any(list(c) != sorted(c) for c in cs): raise Malformed('components not sorted')
    return dict(c=enc_npar(p), p=enc_perm(p.to_permutation()), e=[ints(e) for e in p.edges()], lc=enc_perm(l.to_permutation()), rc=enc_perm(r.to_permutation()),
                lcb=enc_npar(l), rcb=enc_npar(r), w=word(p.artin_word()), lw=word(l.artin_word()), rw=word(r.artin_word()), dyn=int(dyn),
                back=[int(x == p and not (x != p) and hash(x) == hash(p) and enc_npar(x) == enc_npar(p)) for x in
                      (NPar.from_components(n, cs), NPar.from_permutation(p.to_permutation()), l.right_complement(), r.left_complement(), NPar(n, p.inv))])


def shuffled(r, bs):
    bs = [r.sample(b, len(b)) for b in bs if len(b) > 1 or r.random() < .5]
    r.shuffle(bs)
    return bs


def shape(r, bs):
    """The same components as another kind of iterable."""
    u = r.randrange(6)
    return [bs, tuple(map(tuple, bs)), [set(b) for b in bs], [frozenset(b) for b in bs], {tuple(b) for b in bs}, {tuple(b): 1 for b in bs}.keys()][u] if u < 4 or len({tuple(b) for b in bs}) == len(bs) else bs


def some(r, n):
    """A random noncrossing partition of n points, by recursive splitting."""
    def go(xs):
        if not xs: return []
        b, rest, cur = [xs[0]], [], []
        for x in xs[1:]:
            if r.random() < .4:
                b.append(x); rest += go(cur); cur = []
            else: cur.append(x)
        return [b] + rest + go(cur)
    return go(list(range(n)))


def replay(out, inp, part, parts):
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            n = e['n']
            def step():
                x = NPar.from_components(n, e['from'])
                if e['op'] == 'left': y = x.left_complement()
                elif e['op'] == 'right': y = x.right_complement()
                else:
                    a, b = e['m']
                    A, B = [[c for c in x.components() if k in c][0] for k in (a, b)]
                    y = NPar.from_components(n, [c for c in x.components() if c not in (A, B)] + [A + B])
                return [enc_npar(y), enc_perm(y.to_permutation()), int(NPar.from_permutation(Permutation(tuple(e['p']))) == y)]
            res = attempt(step, lambda x: dict(x=x))[1]
            out.replayed += 1
            if res != dict(ok=1, x=[e['to'], e['p'], 1]): out.bad.append(dict(run='edge%d' % no, clause='replayed step: got %s, specification says %s' % (res, e['to']), event=e))
            if no < 1: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    r = rng(seed, 'c19', part)
    same = lambda d: d
    for n in range(0, 8 if q else 10):
        if n % parts == part:
            out.new('all%d' % n, n=n).log('all', n=n, res=attempt(lambda: dict(cat=integer(nc.catalan(n)), cs=[enc_npar(p) for p in NPar.all_of_size(n)], fin=enc_npar(NPar.finest(n)), coa=enc_npar(NPar.coarsest(n))), same, 200)[1])
    for n in range(1, 7 if q else 8):
        run = out.new('each%d' % n, n=n)
        for i, bs in enumerate(nc_partitions(n)):
            if i % parts != part: continue
            sh = shuffled(r, bs)
            run.log('np', n=n, bs=sh, res=attempt(lambda: about(n, NPar.from_components(n, shape(r, sh)), True), same)[1])
    # what is accepted
    for n in range(1, 4):
        run = out.new('parts%d' % n, n=n)
        if part == n % parts:
            for k in range(1, 3):
                opts = [list(c) for m in (1, 2, 3) for c in itertools.combinations(range(-1 if n < 3 else 0, n + 1), m)]
                for bs in itertools.product(opts, repeat=k):
                    run.log('blocks', n=n, bs=list(bs), res=attempt(lambda: NPar.from_components(n, list(bs)), lambda p: dict(c=enc_npar(p)))[1])
    for n in (1, 2, 3, 4, 5):
        run = out.new('perms%d' % n, n=n)
        for i, w in enumerate(all_perms(n)):
            if i % parts == part: run.log('fperm', w=list(w), res=attempt(lambda: NPar.from_permutation(Permutation(w)), lambda p: dict(c=enc_npar(p)))[1])
    k = 0
    for n, a, b in [(8, 2, 2), (7, 3, 2), (7, 2, 3)] + ([] if q else [(9, 2, 2), (8, 3, 3), (9, 3, 2), (9, 2, 4)]):
        run = out.new('two%d.%d.%d' % (n, a, b), n=n)
        for A in itertools.combinations(range(n), a):
            for B in itertools.combinations(sorted(set(range(n)) - set(A)), b):
                k += 1
                if k % parts != part: continue
                w = list(range(n))
                for c in (A, B):
                    for i in range(len(c)): w[c[i]] = c[i-1]
                run.log('fperm', w=w, res=attempt(lambda: NPar.from_permutation(Permutation(tuple(w))), lambda p: dict(c=enc_npar(p)))[1])
                if k % 3 == 0: run.log('blocks', n=n, bs=[list(B), list(A)], res=attempt(lambda: NPar.from_components(n, [B, A]), lambda p: dict(c=enc_npar(p)))[1])
    for n in (1, 2, 3):
        run = out.new('pairings%d' % n, n=n)
        allv = itertools.product(range(2*n), repeat=2*n) if n < 3 else itertools.permutations(range(6))
        for i, v in enumerate(allv):
            if i % parts == part: run.log('pairing', n=n, v=list(v), res=attempt(lambda: NPar(n, tuple(v)))[1])
    for j in range(20 if q else 150):
        n = r.choice([4, 5, 6, 7, 8, 9, 12])
        run = out.new('rand%d.%d' % (part, j), n=n)
        bs = some(r, n)
        if r.random() < .5:       # rotate
            k = r.randrange(n); bs = [[(x + k) % n for x in b] for b in bs]
        sh = shuffled(r, bs)
        run.log('np', n=n, bs=sh, res=attempt(lambda: about(n, NPar.from_components(n, shape(r, sh)), n <= 9), same)[1])
        # random set partitions, mostly crossing, and damaged ones
        for _ in range(8):
            u = r.random()
            if u < .5:
                bs2 = [[] for _ in range(r.randrange(2, n))]
                for x in range(n): r.choice(bs2).append(x)
                bs2 = [b for b in bs2 if b]
            else: bs2 = [list(b) for b in some(r, n)]
            if u > .8:
                b = r.choice(bs2); b.insert(r.randrange(len(b) + 1), r.choice([-1, n, r.randrange(n), b[0], 2 * n]))
            elif u > .7 and len(bs2) > 1:
                b = bs2.pop(); bs2[0] = bs2[0] + b
            s2 = shuffled(r, bs2)
            run.log('blocks', n=n, bs=s2, res=attempt(lambda: NPar.from_components(n, s2), lambda p: dict(c=enc_npar(p)))[1])
            run.log('disj', bs=s2, res=attempt(lambda: dict(b=flag(nc.are_pairwise_disjoint(s2))), same)[1])
            run.log('blocks', n=n, bs=s2, res=attempt(lambda: NPar.from_components(n, (b for b in s2)), lambda p: dict(c=enc_npar(p)))[1])
            w = list(range(n))
            for b in bs2:
                b = sorted(set(b) & set(range(n)))
                for a, y in zip(b, b[-1:] + b[:-1]): w[a] = y
            if r.random() < .3:
                a, b = r.sample(range(n), 2); w[a], w[b] = w[b], w[a]
            if sorted(w) == list(range(n)):
                run.log('fperm', w=w, res=attempt(lambda: NPar.from_permutation(Permutation(tuple(w))), lambda p: dict(c=enc_npar(p)))[1])
            v = list(NPar.finest(n).inv)
            ps = r.sample(range(2*n), 2*n) if r.random() < .3 else None
            if ps:
                for a, b in zip(ps[::2], ps[1::2]): v[a], v[b] = b, a
            else:
                p = some(r, n)
                for b in p:
                    b = sorted(b)
                    for a, y in zip(b, b[1:] + b[:1]): v[2*a + 1], v[2*y] = 2*y, 2*a + 1
                if r.random() < .6:
                    a, b = r.sample(range(2*n), 2); v[a], v[b] = v[b], v[a]
                if r.random() < .1: v = v[:-2]
            run.log('pairing', n=n, v=v, res=attempt(lambda: NPar(n, tuple(v)))[1])
        s, u = r.randrange(n), r.randrange(n)
        run.log('bkl', n=n, s=s, u=u, res=attempt(lambda: dict(w=word(nc.bkl_gen_to_artin_word(s, u))), same)[1])
        c = r.sample(range(n), r.randrange(1, min(n, 6)))
        if r.random() < .2: c = c + c[:1]
        run.log('comp', n=n, c=c, res=attempt(lambda: dict(w=word(nc.npar_component_to_artin_word(c))), same)[1])
