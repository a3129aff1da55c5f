"""Exact matrices of the two-rowed representations."""
import os
from reps import *


def replay(out, inp, part, parts):
    cache = {}
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            n, r, p = e['n'], e['r'], e['p']
            rep = JonesCellRep(n, r, p)
            def step():
                m = n - 2*r
                B = []
                for s in basis(rep):
                    B.append([0 if s[m + n - j] < m else n - (s[m + n - j] - m) for j in range(1, n + 1)])
                at = [B.index(x) for x in e['links']]
                x = BraidGroup(n).from_gnf_pair((e['g']['pow'], [tuple(q) for q in e['g']['fs']]))
                M = rep.evaluate(GNF.from_artin_word(n, [(e['i'], e['e'])]) * x)
                rows = enc_matrix(M)
                return [[rows[at[i]][at[j]] for j in range(len(at))] for i in range(len(at))]
            v, res = attempt(step, lambda x: dict(r=x))
            out.replayed += 1
            D = len(e['links'])
            want = [[[e['cols'][j][i]['lo'], e['cols'][j][i]['c']] for j in range(D)] for i in range(D)]
            got = [[[lo, c] if any(c) else [0, []] for lo, c in row] for row in res['r']] if res['ok'] else None
            if got != want:
                out.bad.append(dict(run='edge%d' % no, clause='replayed matrix: got %s, specification says %s' % (got or res, want), event={k: e[k] for k in 'nrpie'}))
            if no < 1: out.samples.append({k: e[k] for k in ('n', 'r', 'p', 'i', 'e', 'g', 'links')})


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    big = 10000019
    jobs = [(n, r, p) for n, r in CONFIGS for p in PS if n < 6 or p in ((0, 5) if q else PS)]
    for no, (n, r, p) in enumerate(jobs):
        if no % parts != part: continue
        rn = rng(seed, 'c07', no)
        rep = JonesCellRep(n=n, r=r, p=p)
        run = out.new('rep%d.%d.%d' % (n, r, p), n=n, r=r, p=p, basis=basis(rep))
        ev = lambda op, f, enc, **kw: run.log(op, res=attempt(f, enc)[1], **kw)
        ev('dim', lambda: rep.dimension(), lambda d: dict(d=integer(d)))
        ev('gens', lambda: rep.artin_gens_invs(), lambda g: dict(gens=[enc_matrix(x) for x in g[0]], invs=[enc_matrix(x) for x in g[1]]))
        ev('ew', lambda: rep.id(), lambda m: dict(rows=enc_matrix(m)), w=[], q=0)
        for _ in range((6 if n < 6 else 3) if q else 40):
            w = random_word(rn, n, rn.randrange(0, 14), rn.choice([1, 1, 3]))
            Q = big if p == 0 else 0
            ev('ew', lambda: rep.evaluate_artin_word([tuple(x) for x in w]), lambda m: dict(rows=enc_matrix(m, Q)), w=w, q=Q)
            k = rn.choice('GD')
            d = divisor(rn, n, k)
            ev('eo', lambda: rep.evaluate(d), lambda m: dict(rows=enc_matrix(m, Q)), o=dict(k=k, pow=0, fs=[enc_div(k, d)]), q=Q)
            if n == 6 and k == 'G' and q: k = 'D'
            x, y = some_braid(rn, n, k, rn.randrange(0, 5)), some_braid(rn, n, k, rn.randrange(0, 4))
            z = x * y
            ev('eo', lambda: rep.evaluate(z), lambda m: dict(rows=enc_matrix(m, Q)), o=obj(z), q=Q)
            ev('eo', lambda: rep.evaluate(x) * rep.evaluate(y), lambda m: dict(rows=enc_matrix(m if p == 0 else m.map(lambda c: LPoly.coerce(c).map(lambda i: i % p)), Q)), o=obj(z), q=Q)
            c = x.to_DGNF() if k == 'G' else (x.to_GNF() if n < 6 else x)
            ev('eo', lambda: rep.evaluate(c), lambda m: dict(rows=enc_matrix(m, Q)), o=obj(x), q=Q)
        if n < 4:       # large exponents
            w = [[rn.randrange(n - 1), e] for e in (rn.randrange(30, 80), -rn.randrange(30, 80))] if n > 1 else []
            Q = big if p == 0 else 0
            ev('ew', lambda: rep.evaluate_artin_word([tuple(x) for x in w]), lambda m: dict(rows=enc_matrix(m, Q)), w=w, q=Q)
        if n < 6 and n > 2:
            w = random_word(rn, n, 40 if n < 5 else 24)
            Q = big if p == 0 else 0
            ev('ew', lambda: rep.evaluate_artin_word([tuple(x) for x in w]), lambda m: dict(rows=enc_matrix(m, Q)), w=w, q=Q)
            z = of_length(rn, n, rn.choice('GD'), 12 if n < 5 else 7, 7)
            ev('eo', lambda: rep.evaluate(z), lambda m: dict(rows=enc_matrix(m, Q)), o=obj(z), q=Q)
    for no, (n, r, p) in enumerate(WIDE + [(3, 1, 32749), (4, 2, 32749), (4, 1, 257), (3, 1, 4093)]):
        if no % parts != part: continue
        rn = rng(seed, 'c07wide', no)
        rep = JonesCellRep(n=n, r=r, p=p)
        run = out.new('wide%d.%d.%d' % (n, r, p), n=n, r=r, p=p, basis=basis(rep))
        ev = lambda op, f, enc, **kw: run.log(op, res=attempt(f, enc)[1], **kw)
        Q = big if p == 0 else 0
        ev('dim', lambda: rep.dimension(), lambda d: dict(d=integer(d)))
        ev('gens', lambda: rep.artin_gens_invs(), lambda g: dict(gens=[enc_matrix(x) for x in g[0]], invs=[enc_matrix(x) for x in g[1]]))
        for L in (((3, 12) if q else (0, 3, 8, 12, 20, 30)) if rep.dimension() < 30 else (2, 4)):
            w = random_word(rn, n, L, rn.choice([1, 2]))
            ev('ew', lambda: rep.evaluate_artin_word([tuple(x) for x in w]), lambda m: dict(rows=enc_matrix(m, Q)), w=w, q=Q)
        if rep.dimension() > 30: continue
        d = Permutation(tuple(rn.sample(range(n), n)))
        ev('eo', lambda: rep.evaluate(d), lambda m: dict(rows=enc_matrix(m, Q)), o=dict(k='G', pow=0, fs=[enc_div('G', d)]), q=Q)
        d = random_npar(rn, n)
        ev('eo', lambda: rep.evaluate(d), lambda m: dict(rows=enc_matrix(m, Q)), o=dict(k='D', pow=0, fs=[enc_div('D', d)]), q=Q)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kernels.json')) as f:
        K = json.load(f)
    for no, e in enumerate(K):
        if no % parts != part: continue
        n, r, p = e['n'], e['r'], e['p']
        if n == 6 and q and False: continue
        rep = JonesCellRep(n=n, r=r, p=p)
        run = out.new('kernel %s' % e['name'], n=n, r=r, p=p, basis=basis(rep))
        ws = [('G', e['delta'])]
        # the letters are logged as factors, so that no table for n = 6 is needed
        o = dict(k='G', pow=e['delta'], fs=e['fs'])
        def word():
            D = reduced_word(list(range(n))[::-1])
            w = [(s, 1) for s in D] if e['delta'] >= 0 else [(s, -1) for s in reversed(D)]
            return w * abs(e['delta']) + [(s, 1) for x in e['fs'] for s in reduced_word(x)]
        run.log('scalar', o=o, q=e['q'], res=attempt(lambda: rep.evaluate_artin_word(word()), lambda m: dict(rows=enc_matrix(m, e['q'])))[1])
        if n < 6:
            b = BraidGroup(n).from_gnf_pair((e['delta'], [tuple(x) for x in e['fs']]))
            run.log('scalar', o=o, q=e['q'], res=attempt(lambda: rep.evaluate(b), lambda m: dict(rows=enc_matrix(m, e['q'])))[1])
