"""Conversions between Garside and dual Garside form."""
from braids import *


def replay(out, inp, part, parts):
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            n = e['n']
            def G(x): return BraidGroup(n).from_gnf_pair((x['pow'], [tuple(p) for p in x['fs']]))
            def D(x): return DGNF(n, x['pow'], ()) * DGNF.from_npar_seq(n, [NPar.from_permutation(Permutation(tuple(p))) for p in x['fs']])
            def show(b): return dict(r=[kind(b), integer(b.inf()), [enc_perm(f) if kind(b) == 'G' else enc_perm(f.to_permutation()) for f in b.canonical_factors()]])
            for what, f, k, x in (('to dual', lambda: G(e['gg']).to_DGNF(), 'D', e['dd']), ('to Garside', lambda: D(e['dd']).to_GNF(), 'G', e['gg']),
                                  ('there and back', lambda: G(e['gg']).to_DGNF().to_GNF(), 'G', e['gg'])):
                v, res = attempt(f, show)
                out.replayed += 1
                want = [k, x['pow'], [list(p) for p in x['fs']]]
                if not res['ok'] or res['r'] != want:
                    out.bad.append(dict(run='edge%d' % no, clause='replayed conversion (%s): got %s, specification says %s' % (what, res, want), event=e))
            if no < 2: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    for n in [[2, 3], [4], [5], [3, 4, 6]][part % 4]:
        for j in range((40 if q else 300) if n < 6 else 10):
            r = rng(seed, 'c05', n, part, j)
            k = 'GD'[j % 2]
            m = Machine(out.new('c%d.%d.%d' % (n, part, j), n=n), n, r)
            for _ in range(4):
                if m.dead: break
                u = r.random()
                if u < .3: a = m.word(k, random_word(r, n, r.randrange(0, 12), 2))
                elif u < .8: a = m.seq(k, [m.div(k) for _ in range(r.randrange(0, 5))])
                else: a = m.pair(r.randrange(-4, 5), [m.div('G') for _ in range(r.randrange(0, 3))]) if k == 'G' else m.band(r.randrange(n), r.randrange(n))
                if m.dead: break
                if r.random() < .5:
                    x = m.pow(m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]]), r.randrange(-5, 6))
                    if m.dead: break
                    a = m.mul(a, x)
                if m.dead: break
                b = m.conv(a)
                if m.dead: break
                c = m.conv(b)
                if m.dead: break
                m.eq(a, c)
                if r.random() < .4: m.conv(m.inv(a))
        for j in range((10 if n < 6 else 2) if q else 40):
            r = rng(seed, 'far', n, part, j)
            m = Machine(out.new('far%d.%d.%d' % (n, part, j), n=n), n, r)
            def there(y, m=m):
                if len(m.regs[y-1].factors) > 70: return
                z = m.conv(y)
                if not m.dead: m.eq(y, m.conv(z))
            far(m, 'GD'[j % 2], there)
    for n in ([2, 3, 4], [5] if not q else [], [], [])[part % 4]:      # every divisor, with powers
        for k in 'GD':
            for p in (-2, -1, 0, 1, n):
                m = Machine(out.new('div%d%s%d' % (n, k, p), n=n), n, rng(seed))
                D = m.pow(m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]]), p)
                for d in ([list(x) for x in all_perms(n)] if k == 'G' else ncs(n)):
                    if m.dead: break
                    s = m.seq(k, [d])
                    if m.dead: break
                    c = m.mul(D, s)
                    if not m.dead: m.conv(c)
