"""Exhaustive bootstrap and extension of buckets."""
from tracker import *
NFC = dict(G=GNF, D=DGNF)


def small(out, q, part, parts, seed):
    no = 0
    jobs = []
    for n, r, p, k, cap, L in [(3, 1, 0, 'G', 500, 4), (3, 1, 2, 'G', 4, 4), (3, 1, 3, 'D', 500, 4), (4, 1, 2, 'G', 500, 1), (4, 1, 5, 'D', 500, 2), (4, 2, 3, 'G', 3, 2), (4, 2, 0, 'D', 500, 2), (4, 1, 2, 'D', 6, 2), (5, 2, 2, 'D', 500, 1)] + \
            ([] if q else [(4, 1, 3, 'G', 500, 2), (4, 1, 2, 'D', 1000, 3), (5, 2, 0, 'G', 500, 1), (5, 1, 3, 'D', 1000, 2), (3, 0, 2, 'G', 500, 5), (3, 1, 7, 'D', 500, 7)]):
        for method in ('Uniform', 'GreedyFirst', 'EvictMin', 'AChao'):
            if cap == 500 and method != 'Uniform' and n != 3: continue
            jobs.append((n, r, p, k, cap, L, method))
    for job in jobs:
        no += 1
        if no % parts != part: continue
        n, rr, p, k, cap, L, method = job
        r = rng(seed, 'c13', no)
        keys = r.choice([['length', 'projlen'], ['length', 'projlen', 'nz_terms'], ['projlen', 'length'], ['nf', 'length', 'projlen']])
        m = TM(out.new('boot%d' % no), JonesCellRep(n=n, r=rr, p=p), method, cap, keys, 'one' if r.random() < .5 else 'mix', seed=r.randrange(1000))
        if not m.boot(NFC[k], k, L): continue
        m.validate()
        # forward: the longest buckets, discarding as a search would
        for _ in range(2):
            tags = [t for t in m.sorted_tags() if sum(len(m.contents(u)[0]) for u in [t]) <= 12]
            if not tags: break
            t = r.choice(tags[-4:])
            if not m.extend(t, 1, r.randrange(2)): break
            if r.random() < .5 and not m.discard(t): break
        m.validate()
        m.boot(NFC[k], k, 1)


def mixed(out, q, part, parts, seed):
    """Extension of buckets that hold braids of all sorts: other powers, repeats, both kinds, the identity."""
    no = 0
    for n, rr, p in [(3, 1, 0), (3, 1, 2), (4, 1, 2), (4, 1, 5), (4, 2, 3), (4, 1, 0), (5, 2, 2), (2, 1, 3)]:
        for method in ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin'):
            for _ in range(2 if q else 12):
                no += 1
                if no % parts != part: continue
                r = rng(seed, 'c13mixed', no)
                two = r.random() < .4
                kinds = ['G', 'D'] if two else [r.choice('GD')]
                if n == 5: kinds = ['D']
                if n == 2: kinds = [kinds[0]]
                keys = ['length', 'nf', 'projlen'] if two else r.choice([['length', 'projlen'], ['length', 'projlen', 'nz_terms']])
                m = TM(out.new('extend%d' % no), JonesCellRep(n=n, r=rr, p=p), method, r.choice([2, 4, 200]), keys, r.choice(['one', 'nz_terms', 'mix']), seed=r.randrange(1000))
                P = [of_length(r, n, k, r.choice([0, 0, 1, 1, 1, 2]) if n > 2 else 0, 3) for k in kinds for _ in range(14)]
                ok = m.offer([r.choice(P) for _ in range(12)])
                done = 0
                for step in range(6 if q else 9):
                    if not ok: break
                    tags = m.sorted_tags()
                    if tags and r.random() < .8:
                        t = r.choice(tags)
                        bs = m.contents(t)[0]
                        L = r.choice([1, 1, 1, 2])
                        size = {2: 0, 3: 4, 4: 22, 5: 40}[n] if L == 1 else {2: 0, 3: 8, 4: 164, 5: 700}[n]
                        if len(bs) * size > (260 if q else 900) or t[list(m.keys).index('length')] > 3: continue
                        ok = m.extend(t, L, r.randrange(2))
                    elif tags and r.random() < .5: ok = m.discard(r.choice(tags))
                    else: ok = m.offer([r.choice(P) for _ in range(3)])
                t = tuple('GNF' if k == 'nf' else 99 for k in m.keys)
                m.extend(t, 1)
                m.validate()


def lengths(m):
    """Per length: offers counted, braids held, distinct ones."""
    df, tags = m.tags()
    at = list(m.keys).index('length')
    L = {}
    for row, tag in enumerate(tags):
        x = L.setdefault(integer(tag[at]), [0, 0, set()])
        bs, _ = m.contents(tag)
        cnt = df.iloc[row]
        if m.method != 'Legacy': x[0] += pyint(cnt['reservoir_count'])
        else: x[0] += dict((tuple(a), c) for a, c in [(tuple(u), v) for u, v in [(plain(f['bucket']), pyint(f['reservoir_count'])) for _, f in m.t.stats_reservoir().iterrows()]])[tuple(plain(tag))]
        x[1] += len(bs)
        x[2] |= {json.dumps(obj(b), sort_keys=True) for b in bs}
    return L


def sample(m, r, k):
    s = []
    tags = m.sorted_tags()
    for _ in range(k):
        t = r.choice(tags)
        bs, ims = m.contents(t)
        i = r.randrange(len(bs))
        s.append(dict(b=m.bid(bs[i]), i=m.iid(ims[i]), tag=plain(t)))
    return s


def big(out, name, rep, method, cap, k, upto, r, ext=None, samples=40):
    """Bootstraps and extensions past the internal batch sizes."""
    m = TM(out.new(name), rep, method, cap, ['length', 'projlen'], seed=r.randrange(1000))
    m.needs(k)
    full = int(cap >= 5000)
    def boot():
        m.t.bootstrap_exhaustive(upto) if m.legacy else m.t.bootstrap_exhaustive(NFC[k], upto)
        L = lengths(m)
        return dict(lens=[dict(len=l, total=v[0], held=v[1], distinct=len(v[2])) for l, v in sorted(L.items())], sample=sample(m, r, samples))
    v, res = attempt(boot, lambda d: d, 500)
    m.run.log('big', res=res, k=k, upto=upto, full=full)
    if not ext or not res['ok']: return
    # a fresh tracker is extended from chosen braids
    for size, L in ext:
        m2 = TM(out.new(name + '.ext%d.%d' % (size, L)), rep, method, max(cap, 5000), ['length', 'projlen'], seed=r.randrange(1000))
        m2.needs(k)
        tag = max(m.sorted_tags(), key=lambda t: len(m.contents(t)[0]))
        bs, ims = m.contents(tag)
        bs, ims = bs[:size], ims[:size]
        m2.t.add_braids_images(list(bs), ims)
        frm = [m2.bid(b) for b in m2.contents(tag)[0]]
        def extend():
            m2.t.nf_descendants(tag, L)
            d = lengths(m2)
            new = {l: v for l, v in d.items() if l > tag[0]}
            if not m2.legacy and set(new) - {tag[0] + L}: raise Malformed('other lengths')
            if m2.legacy and sorted(new) != list(range(tag[0] + 1, tag[0] + L + 1)): raise Malformed('other lengths')
            top = new.get(tag[0] + L, [0, 0, set()])
            s = [x for x in sample(m2, r, samples) if x['tag'][0] == tag[0] + L]
            return dict(total=sum(v[0] for v in new.values()), held=top[1], distinct=len(top[2]), sample=s)
        v, res = attempt(extend, lambda d: d, 500)
        m2.run.log('bigext', res=res, **{'from': frm, 'len': L})


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    small(out, q, part, parts, seed)
    mixed(out, q, part, parts, seed)
    jobs = [(3, 1, 2, 'Uniform', 60, 'G', 13, [(60, 1)]), (4, 1, 2, 'Uniform', 10**6, 'G', 3, [(400, 1), (20, 2)]), (4, 1, 2, 'EvictMin', 10**6, 'G', 4, [(1100, 1)]), (4, 1, 3, 'EvictMin', 50, 'D', 6, None)] + \
        ([] if q else [(4, 1, 2, 'Uniform', 10**6, 'G', 5, [(1000, 1), (200, 2)]), (5, 1, 2, 'AChao', 500, 'D', 4, [(300, 1)]), (3, 1, 5, 'GreedyFirst', 10**6, 'G', 13, [(2000, 1)]), (5, 2, 3, 'Uniform', 200, 'G', 3, None), (6, 1, 2, 'Uniform', 300, 'D', 2, None)])
    for i, (n, rr, p, method, cap, k, upto, ext) in enumerate(jobs):
        if i % parts == part:
            if cap == 10**6: cap = 6000 if q else 40000
            big(out, 'big%d' % i, JonesCellRep(n=n, r=rr, p=p), method, cap, k, upto, rng(seed, 'c13big', i), ext)
