"""Tensors of the two-rowed representations, evaluated in bulk."""
from reps import *
from peyl import braid as braidmod


def index_of(n, k):
    """Factor indices of all divisors, as the braid objects use them."""
    try:
        T = (braidmod.PermTable if k == 'G' else braidmod.NParTable).create(n)
        return lambda d: T.index[d]
    except Exception:
        return None


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    jobs = [(n, r, p) for n, r in CONFIGS for p in PS if n < 6 or p in ((0, 5) if q else PS)]
    jobs += [(3, 1, 127), (4, 1, 257), (4, 2, 4093), (3, 1, 4093)]
    for no, (n, r, p) in enumerate(jobs):
        if no % parts != part: continue
        rn = rng(seed, 'c08', no)
        rep = JonesCellRep(n=n, r=r, p=p)
        run = out.new('rep%d.%d.%d' % (n, r, p), n=n, r=r, p=p, basis=basis(rep))
        ev = lambda op, f, enc, **kw: run.log(op, res=attempt(f, enc)[1], **kw)
        one = lambda a: dict(ts=[enc_tensor(a)])
        kinds = 'GD' if n < 6 or not q else 'D'
        LM = {0: 9, 1: 6}.get(min(p, 1), 6)
        LM = {2: 4, 3: 6, 4: 5, 5: 4, 6: 3}[n]
        seen = []          # arrays returned so far, must not change (checked at the end)
        for it in range((3 if n < 6 else 2) if q else 12):
            ev('tg', lambda: rep.polymat_artin_gens_invs(), lambda g: dict(gens=[enc_tensor(x) for x in g[0]], invs=[enc_tensor(x) for x in g[1]]))
            ev('tw', lambda: rep.polymat_id(), one, w=[])
            for _ in range(3):
                w = random_word(rn, n, rn.randrange(0, 14), rn.choice([1, 1, 3]))
                ev('tw', lambda: rep.polymat_evaluate_artin_word([tuple(x) for x in w]), one, w=w)
            for k in kinds:
                d = divisor(rn, n, k)
                ev('to', lambda: rep.polymat_evaluate(d), one, os=[dict(k=k, pow=0, fs=[enc_div(k, d)])])
                x = some_braid(rn, n, k, rn.randrange(0, LM), 5)
                ev('to', lambda: rep.polymat_evaluate(x), one, os=[obj(x)])
                ev('to', lambda: rep.polymat_evaluate_braid(x), one, os=[obj(x)])
                if n == 2:
                    y = [CLS[k].identity(2) for _ in range(3)]
                    L = 0
                else:
                    L = rn.randrange(0, LM + 1)
                    y = [of_length(rn, n, k, L, 5) for _ in range(rn.choice([1, 2, 6, 12]))]
                    if rn.random() < .5: y.append(y[0])
                v, res = attempt(lambda: rep.polymat_evaluate_braids_of_same_length(y), lambda a: dict(ts=enc_batch(a)))
                run.log('to', res=res, os=[obj(b) for b in y])
                if res['ok']: seen.append((v, y))
                # the same braids in another order, a subset, and the other kind of normal form
                z = y[:]; rn.shuffle(z)
                z = z[:rn.randrange(1, len(z) + 1)]
                ev('to', lambda: rep.polymat_evaluate_braids_of_same_length(z), lambda a: dict(ts=enc_batch(a)), os=[obj(b) for b in z])
                if n < 6:
                    c = y[0].to_DGNF() if k == 'G' else y[0].to_GNF()
                    ev('to', lambda: rep.polymat_evaluate_braid(c), one, os=[obj(y[0])])
                idx = index_of(n, k)
                if idx:
                    Ls = rn.randrange(0, LM + 1)
                    sss = [[divisor(rn, n, k) for _ in range(Ls)] for _ in range(rn.choice([1, 3, 7]))]
                    ev('tq', lambda: rep.polymat_evaluate_braid_integers_of_same_length(CLS[k], [[idx(d) for d in ds] for ds in sss]), lambda a: dict(ts=enc_batch(a)),
                       k=k, sss=[[enc_div(k, d) for d in ds] for ds in sss])
                a, b = some_braid(rn, n, k, 2), some_braid(rn, n, k, 2)
                ev('to', lambda: rep.polymat_mul(rep.polymat_evaluate_braid(a), rep.polymat_evaluate_braid(b)), one, os=[obj(a * b)])
        # long words and long braids: degrees and intermediate integers grow (over the integers they stay small only for short words)
        if n < 6 and (p > 0 or n < 5) or not q:
            for _ in range(1 if q else 4):
                LL = (rn.choice([40, 70]) if p > 0 else 22) if n < 5 else (30 if p > 0 else 14)
                w = random_word(rn, n, LL)
                ev('tw', lambda: rep.polymat_evaluate_artin_word([tuple(x) for x in w]), one, w=w)
                k = rn.choice(kinds)
                if n > 2 and p > 0:
                    y = [of_length(rn, n, k, rn.choice([16, 24]) if n < 5 else 10, 9)] * 2
                    y[1] = of_length(rn, n, k, y[0].canonical_length(), 9)
                    ev('to', lambda: rep.polymat_evaluate_braids_of_same_length(y), lambda a: dict(ts=enc_batch(a)), os=[obj(b) for b in y])
                    ev('to', lambda: rep.polymat_evaluate(y[1]), one, os=[obj(y[1])])
        for v, y in seen[-3:]:
            ev('to', lambda: v, lambda a: dict(ts=enc_batch(a)), os=[obj(b) for b in y])
    for no, (n, r, p) in enumerate(WIDE):
        if no % parts != part: continue
        rn = rng(seed, 'c08wide', no)
        rep = JonesCellRep(n=n, r=r, p=p)
        run = out.new('wide%d.%d.%d' % (n, r, p), n=n, r=r, p=p, basis=basis(rep))
        ev = lambda op, f, enc, **kw: run.log(op, res=attempt(f, enc)[1], **kw)
        one = lambda a: dict(ts=[enc_tensor(a)])
        ev('tg', lambda: rep.polymat_artin_gens_invs(), lambda g: dict(gens=[enc_tensor(x) for x in g[0]], invs=[enc_tensor(x) for x in g[1]]))
        for L in ((4, 12) if q else (0, 4, 8, 12, 20)):
            w = random_word(rn, n, L, rn.choice([1, 2]))
            ev('tw', lambda: rep.polymat_evaluate_artin_word([tuple(x) for x in w]), one, w=w)
        d = Permutation(tuple(rn.sample(range(n), n)))
        ev('to', lambda: rep.polymat_evaluate(d), one, os=[dict(k='G', pow=0, fs=[enc_div('G', d)])])
        d = random_npar(rn, n)
        ev('to', lambda: rep.polymat_evaluate(d), one, os=[dict(k='D', pow=0, fs=[enc_div('D', d)])])
    # large batches of short braids
    for no, (n, r, p) in enumerate([(3, 1, 2), (4, 1, 3), (4, 2, 0), (3, 1, 0)]):
        if no % parts != part: continue
        rn = rng(seed, 'c08many', no)
        rep = JonesCellRep(n=n, r=r, p=p)
        run = out.new('many%d.%d.%d' % (n, r, p), n=n, r=r, p=p, basis=basis(rep))
        for k in 'GD':
            for c in ([70, 300] if q else [70, 300, 1100]):
                y = [of_length(rn, n, k, 2, 4) for _ in range(c)]
                run.log('to', res=attempt(lambda: rep.polymat_evaluate_braids_of_same_length(y), lambda a: dict(ts=enc_batch(a)))[1], os=[obj(b) for b in y])
