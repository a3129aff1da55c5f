"""The Lawrence-Krammer-Bigelow representation."""
from reps import *
from algebra import enc_m
from peyl.jonesrep import LKBRep


def unit(r, m=3):
    return LPoly(r.randrange(-m, m + 1), (r.choice([1, 1, -1]),))


def replay(out, inp, part, parts):
    reps = {}
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            def step():
                key = e['n'], e['q'], e['t']
                if key not in reps: reps[key] = LKBRep(e['n'], 0, LPoly(e['q'], (1,)), LPoly(e['t'], (1,)))
                b = BraidGroup(e['n']).from_gnf_pair((e['g']['pow'], [tuple(x) for x in e['g']['fs']]))
                # the character of a braid, from its word, from its two normal forms
                ws = [reps[key].evaluate_artin_word([tuple(x) for x in e['w']]), reps[key].evaluate(b), reps[key].evaluate(b.to_DGNF())]
                return [enc_poly(m.trace()) for m in ws]
            _, res = attempt(step, lambda x: dict(x=x))
            out.replayed += 1
            if res != dict(ok=1, x=[e['tr']] * 3): out.bad.append(dict(run='edge%d' % no, clause='replayed character: got %s, specification says %s' % (res, e['tr']), event=e))
            if no < 1: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    r0 = rng(seed, 'c24jobs')
    jobs = [(n, p) for n in (2, 3, 4, 5, 6) for p in (PS if n < 5 else [0, 5, 101] if n == 5 else [0])] * (2 if q else 6)
    for no, (n, p) in enumerate(jobs):
        r = rng(seed, 'c24', no)
        Q, T = (unit(r, 7), unit(r, 7)) if n < 5 and r.random() < .2 else (unit(r, 2), unit(r, 2)) if n > 4 else (unit(r), unit(r))
        if no % parts != part: continue
        rep = LKBRep(n, p, Q, T)
        run = out.new('lkb%d.%d.%d' % (no, n, p), n=n, p=p, q=enc_poly(Q), t=enc_poly(T))
        ev = lambda op, f, enc, **kw: run.log(op, res=attempt(f, enc)[1], **kw)
        gi = lambda g: dict(gens=[enc_m(x) for x in g[0]], invs=[enc_m(x) for x in g[1]])
        one = lambda a: dict(ts=[enc_tensor(a)])
        mat = lambda m: dict(m=enc_m(m))
        ev('lkgens', lambda: rep.artin_gens_invs(), gi)
        ev('dim', lambda: rep.dimension(), lambda d: dict(d=integer(d)))
        ev('ew', lambda: rep.id(), mat, w=[])
        ev('tw', lambda: rep.polymat_id(), one, w=[])
        if n == 6 and q: continue
        LM = {2: 8, 3: 8, 4: 6, 5: 3, 6: 2}[n]
        FM = {2: 0, 3: 4, 4: 3, 5: 1, 6: 1}[n]
        kinds = 'GD' if n < 6 else 'D'
        for i in range(n - 1):
            ev('tw', lambda: rep.polymat_artin_gens_invs()[0][i], one, w=[[i, 1]])
            ev('tw', lambda: rep.polymat_artin_gens_invs()[1][i], one, w=[[i, -1]])
        for _ in range(5 if q else 10):
            w = random_word(r, n, r.randrange(0, LM + 1))
            ev('ew', lambda: rep.evaluate_artin_word([tuple(x) for x in w]), mat, w=w)
            ev('tw', lambda: rep.polymat_evaluate_artin_word([tuple(x) for x in w]), one, w=w)
            k = r.choice(kinds)
            L = r.randrange(FM + 1)
            y = [of_length(r, n, k, L, 2 if n < 5 else 1) for _ in range(r.choice([1, 2, 4 if n < 5 else 2]))]
            ev('eo', lambda: rep.evaluate(y[0]), mat, o=obj(y[0]))
            if n < 6:
                c = y[0].to_DGNF() if k == 'G' else y[0].to_GNF()
                ev('eo', lambda: rep.evaluate(c), mat, o=obj(y[0]))
            ev('to', lambda: rep.polymat_evaluate(y[-1]), one, os=[obj(y[-1])])
            ev('to', lambda: rep.polymat_evaluate_braid(y[0]), one, os=[obj(y[0])])
            ev('to', lambda: rep.polymat_evaluate_braids_of_same_length(y), lambda a: dict(ts=enc_batch(a)), os=[obj(b) for b in y])
            z = y[0] * y[-1]
            ev('to', lambda: rep.polymat_mul(rep.polymat_evaluate_braid(y[0]), rep.polymat_evaluate_braid(y[-1])), one, os=[obj(z)])
            if p == 0: ev('eo', lambda: rep.evaluate(y[0]) * rep.evaluate(y[-1]), mat, o=obj(z))
        ev('again', lambda: rep.artin_gens_invs(), gi)
