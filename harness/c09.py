"""Evaluation on the search side: braidsearch.evaluate_*, statistics, low-gap search."""
import fractions, random
from reps import *
from peyl import braidsearch as bs
from peyl.braidsearch import JonesSummand


def enc_frame(df, rep):
    rows = []
    for i in range(len(df)):
        x = df.iloc[i]
        fr = fractions.Fraction(float(x['rhogap/length'])).limit_denominator(100000) if np.isfinite(x['rhogap/length']) else fractions.Fraction(0)
        g2 = 2 * float(x['rhogap'])
        if g2 != int(g2): raise Malformed('rhogap')
        rows.append(dict(length=integer(int(x['length'])), nz=int(x['nz_terms']), degmax=int(x['degmax']), valmin=int(x['valmin']), rhogap2=int(g2),
                         ratio=[fr.numerator, fr.denominator]))
    return dict(rows=rows, os=[obj(b) for b in df['braid']], ts=[enc_tensor(np.asarray(a)) for a in df['image']])


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    jobs = [(n, r, p) for n, r in CONFIGS if n < 6 or not q for p in PS if n < 5 or p in (0, 2, 5, 41) or not q]
    jobs += [(3, 1, 127), (4, 1, 257), (4, 2, 4093)] + ([(6, 1, 2), (6, 3, 0)] if q else [])
    for no, (n, r, p) in enumerate(jobs):
        if no % parts != part: continue
        rn = rng(seed, 'c09', no)
        rep = JonesSummand(n=n, r=r, p=p)
        cell = JonesCellRep(n=n, r=r, p=p)
        run = out.new('sum%d.%d.%d' % (n, r, p), n=n, r=r, p=p, basis=basis(cell))
        ev = lambda op, f, enc, **kw: run.log(op, res=attempt(f, enc)[1], **kw)
        LM = {2: 0, 3: 6, 4: 5, 5: 3, 6: 2}[n]
        ev('dim', lambda: rep.dimension(), lambda d: dict(d=integer(d)))
        ev('tw', lambda: rep.id(), lambda a: dict(ts=[enc_tensor(a)]), w=[])
        def gi(g):
            gens, invs = ([a % p for a in g[0]], [a % p for a in g[1]]) if p else g
            return dict(gens=[enc_tensor(x) for x in gens], invs=[enc_tensor(x) for x in invs])
        ev('tg', lambda: rep.artin_gens_invs(), gi)
        for it in range((2 if n < 6 else 1) if q else 10):
            x = some_braid(rn, n, 'G', rn.randrange(0, LM + 1), 5)
            ev('to', lambda: bs.evaluate_braid_factors(rep, x), lambda a: dict(ts=[enc_tensor(a)]), os=[obj(x)])
            if 2 < n < 6:
                y = of_length(rn, n, 'G', rn.randrange(7, 15 if n < 5 else 10), 5)
                ev('to', lambda: bs.evaluate_braid_factors(rep, y), lambda a: dict(ts=[enc_tensor(a)]), os=[obj(y)])
                ev('to', lambda: bs.evaluate_braids(rep, [y, x]), lambda l: dict(ts=[enc_tensor(a) for a in l]), os=[obj(y), obj(x)])
            L = rn.randrange(0, LM + 1)
            y = [of_length(rn, n, 'G', L, 4) if n > 2 else GNF.from_artin_word(2, [(0, rn.randrange(-3, 4))]) for _ in range(rn.choice([1, 2, 5, 9]))]
            ev('to', lambda: bs.evaluate_braids_of_same_length(rep, y), lambda a: dict(ts=enc_batch(a)), os=[obj(b) for b in y])
            ev('prefixes', lambda: bs.evaluate_prefixes_of_same_length(rep, y), lambda l: dict(pre=[enc_batch(a) for a in l]), os=[obj(b) for b in y])
            z = [of_length(rn, n, 'G', rn.randrange(0, LM + 1), 4) if n > 2 else GNF.from_artin_word(2, [(0, rn.randrange(-3, 4))]) for _ in range(rn.choice([1, 4, 10]))]
            z += y[:2]; rn.shuffle(z)
            v, res = attempt(lambda: bs.evaluate_braids(rep, z), lambda l: dict(ts=[enc_tensor(a) for a in l]))
            run.log('to', res=res, os=[obj(b) for b in z])
            # tables of statistics, from a list of images and from one tensor
            if res['ok'] and it % 2:
                ev('frame', lambda: bs.braids_images_to_dataframe(z, list(v)), lambda d: enc_frame(d, rep), os=[obj(b) for b in z])
            else:
                ev('frame', lambda: bs.braids_images_to_dataframe(y, bs.evaluate_braids_of_same_length(rep, y)), lambda d: enc_frame(d, rep), os=[obj(b) for b in y])
            if n > 2:
                L, c = rn.randrange(0, LM + 1), rn.choice([1, 3, 8])
                ev('sampled', lambda: bs.sample_braids_images(rep, L, c, random.Random(it) if it % 2 else None), lambda p_: dict(os=[obj(b) for b in p_[0]], ts=enc_batch(p_[1])), lens=[L] * c)
                lo = rn.randrange(0, 3); hi = rn.randrange(lo, LM + 1) if lo <= LM else lo
                ev('sampled', lambda: bs.sample_braids_images_upto_length(rep, lo, hi, c, random.Random(it)), lambda p_: dict(os=[obj(b) for b in p_[0]], ts=enc_batch(p_[1])),
                   lens=[l for l in range(lo, hi + 1) for _ in range(c)])
            a, b = some_braid(rn, n, 'G', 2), some_braid(rn, n, 'G', 2)
            ev('to', lambda: rep.mul(bs.evaluate_braid_factors(rep, a), bs.evaluate_braid_factors(rep, b)), lambda t: dict(ts=[enc_tensor(t)]), os=[obj(a * b)])
    # the exhaustive search of one length: batches of 1000, some with no, one or two braids of low gap (n = 4, p = 3: 0, 2, 2, 0, 0, 0)
    low = [(3, 1, 0, 1), (3, 1, 2, 4), (4, 2, 0, 2), (3, 1, 2, 9), (5, 2, 2, 2), (4, 1, 3, 4), (4, 2, 3, 3), (4, 1, 2, 3), (3, 1, 5, 3), (4, 1, 2, 2)]
    if not q: low += [(4, 1, 2, 4), (4, 2, 5, 4), (5, 1, 2, 2), (5, 2, 0, 2), (5, 1, 0, 2), (3, 1, 2, 12), (4, 2, 2, 4)]
    for no, (n, r, p, L) in enumerate(low):
        if no % parts != part: continue
        rep, cell = JonesSummand(n=n, r=r, p=p), JonesCellRep(n=n, r=r, p=p)
        run = out.new('low%d.%d.%d.%d' % (n, r, p, L), n=n, r=r, p=p, basis=basis(cell))
        run.log('below', len=L, res=attempt(lambda: bs.all_of_length_below_1(rep, L), lambda p_: dict(os=[obj(b) for b in p_[0]], ts=enc_batch(p_[1])), limit=200)[1])
