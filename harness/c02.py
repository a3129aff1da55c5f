"""Garside (c02) and dual Garside (c03) arithmetic."""
import itertools
from braids import *

KIND = 'G'


def sizes(part, tier):
    if part == 4 and KIND == 'D': return [7]
    if KIND == 'G':
        return [[3, 4], [4, 5], [5, 2], [6]][part % 4]
    return [[3, 4], [4, 5], [5, 2], [6]][part % 4] if tier == 'quick' else [[3, 4], [4, 5], [5, 2], [6, 7]][part % 4]


def pairs(out, n, k, part):
    """Every ordered pair of divisors, as a product of two lifts."""
    D = [list(p) for p in all_perms(n)] if k == 'G' else ncs(n)
    r = rng(0, 'pairs')
    for i, a in enumerate(D):
        run = out.new('pairs%d.%d' % (n, i), n=n)
        m = Machine(run, n, r)
        m.seq(k, [a])
        for b in D:
            if m.dead: break
            m.put('seq', lambda: m.regs[0] * m.obj2(b), 2, k=k, ss=[a, b])


def lift(m, k, d):
    return GNF.from_perm(Permutation(tuple(d))) if k == 'G' else DGNF.from_npar(NPar.from_components(m.n, d))


Machine.obj2 = lambda self, d: lift(self, KIND, d)


def replay(out, inp, part, parts):
    """Replays every transition of the exhaustive specification run in the real code."""
    cache = {}
    key = 'g' if KIND == 'G' else 'd'
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            n = e['n']
            def norm(x):
                fs = [list(p) for p in x['fs']]
                return (x['pow'], fs)
            def build(x):
                if KIND == 'G':
                    return BraidGroup(n).from_gnf_pair((x['pow'], [tuple(p) for p in x['fs']]))
                return DGNF(n, x['pow'], ()) * DGNF.from_npar_seq(n, [NPar.from_permutation(Permutation(tuple(p))) for p in x['fs']])
            def show(b):
                if kind(b) != KIND: raise Malformed('kind')
                return dict(r=[integer(b.inf()), [enc_perm(f) if KIND == 'G' else enc_perm(f.to_permutation()) for f in b.canonical_factors()]])
            def step():
                x = build(e[key])
                g = CLS[KIND].from_artin_word(n, [(e['i'], 1)])
                return x * (g if e['e'] == 1 else g.inv())
            def back():
                return build(e[key + key]) * CLS[KIND].from_artin_word(n, [(e['i'], -e['e'])])
            for what, f, want in (('step', step, norm(e[key + key])), ('undo', back, norm(e[key])),
                                  ('inverse', lambda: build(e[key + key]).inv().inv(), norm(e[key + key]))):
                v, res = attempt(f, show)
                out.replayed += 1
                if not res['ok'] or res['r'] != list(want):
                    out.bad.append(dict(run='edge%d' % no, clause='replayed transition (%s): got %s, specification says %s' % (what, res, want), event=e))
            if no < 2: out.samples.append(e)


def deep(m, k, L):
    """Long braids: cancellations and Garside elements that travel through every factor."""
    r, n = m.r, m.n
    w = random_word(r, n, L, 1)
    u = r.random()
    if u < .6: w = [[i, 1] for i, _ in w]
    elif u < .8:
        i, j = r.sample(range(n - 1), 2) if n > 3 else (0, 1)
        w = [[i, 1]] * (L // 2) + w[:4] + [[j, 1]] * (L // 2)
    x = m.word(k, w)
    if m.dead: return
    c = r.randrange(L)
    a, b = m.word(k, w[:c]), m.word(k, w[c:])
    y = m.word(k, inverse_word(w))
    if m.dead: return
    m.mul(a, b)
    m.mul(x, y) if r.random() < .5 else m.mul(y, x)
    d = m.seq(k, [m.div(k) for _ in range(3)])
    g = m.word(k, [[r.randrange(n - 1), 1]])
    if m.dead: return
    for _ in range(4):
        z = m.mul(x, r.choice([d, g, a, y]))
        if m.dead: return
        m.mul(z, g)
        if m.dead: return
    if not m.dead:
        m.inv(x)
        m.pow(a if c < L // 3 else g, r.choice([-7, 6, 9, 12]))


def record(out, part, parts, tier, seed, inp):
    if inp:
        return replay(out, inp, part, parts)
    q = tier == 'quick'
    k = KIND
    for n in sizes(part, tier):
        for j in range((60 if n < 7 else 16) if q else 400):
            r = rng(seed, k, n, part, j)
            m = Machine(out.new('%s%d.%d.%d' % (k, n, part, j), n=n), n, r)
            history(m, k, r.randrange(4, 14), 24 if j % 10 else 60)
        for j in range(3 if q else 12):
            if n < 3 or n > 5: continue
            r = rng(seed, 'deep', k, n, part, j)
            m = Machine(out.new('%sdeep%d.%d.%d' % (k, n, part, j), n=n), n, r)
            deep(m, k, r.choice([50, 80, 120] if n < 5 else [40, 60]))
        for j in range((14 if n < 6 else 4) if q else 60):
            r = rng(seed, 'far', k, n, part, j)
            far(Machine(out.new('%sfar%d.%d.%d' % (k, n, part, j), n=n), n, r), k)
    if part == 0:
        for n in ([2, 3, 4] if k == 'G' else [2, 3, 4]):
            pairs(out, n, k, part)
    if not q and part == 1:
        pairs(out, 5, k, part)
