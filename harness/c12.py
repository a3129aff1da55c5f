"""What a bucket keeps of the braids it is offered."""
from tracker import *
from collections import defaultdict


def groups(rep, legacy, r, want, same=2):
    """Braids of equal length and projective length: {tag: [braids]}; want braids in at least `same` groups."""
    n = rep.n
    G = defaultdict(list)
    for L in (1, 2, 3):
        for x in [of_length(r, n, 'G', L, 2) for _ in range(60)]:
            a = braidsearch.evaluate_braids(rep, [x])[0] if legacy else rep.polymat_evaluate_braid(x)
            nz = np.nonzero(a.any(axis=(0, 1)))[0]
            t = (L, int(nz[-1] - nz[0] + 1))
            if x not in [y for y, _ in G[t]]: G[t].append((x, a))
    return {t: v[:want] for t, v in sorted(G.items()) if len(v) >= want}


def table_stat(W):
    class TableStat(bucketing.BraidStatBase):
        name = 'table'
        @staticmethod
        def calculate(rep, braids, images): return [W[b] for b in braids]
    return TableStat


def make(method, rep, cap, W, seed):
    if method in ('Legacy', 'LegacyR'):
        return braidsearch.Tracker(rep=rep, bucket_size=cap, bucket_keys=('length', 'projlen'), criterion=lambda x: x['length'] >= 0, rand=random.Random(seed) if method == 'LegacyR' else None)
    kw = dict(reservoir_weight=table_stat(W)) if W else {}
    return bucketing.Tracker(rep=rep, bucket_capacity=cap, bucket_braidstats=[Stats.CanonicalLength, Stats.ProjectiveLength], other_braidstats=[], reservoir_method=method, rand=random.Random(seed), **kw)


def batch(xs):
    d = max(a.shape[-1] for _, a in xs)
    out = np.zeros((len(xs), *xs[0][1].shape[:2], d), dtype=xs[0][1].dtype)
    for i, (_, a) in enumerate(xs): out[i, ..., :a.shape[-1]] = a
    return [b for b, _ in xs], out


def replay(out, inp, part, parts):
    r = rng('replay', part)
    reps = {False: JonesCellRep(n=4, r=1, p=3), True: JonesSummand(n=4, r=1, p=3)}
    P = {}
    with open(inp) as f:
        lines = sorted(set(f))
    for no, line in enumerate(lines):
        if no % parts != part: continue
        e = json.loads(line)
        leg = e['method'].startswith('Legacy')
        k = len(e['ws'])
        if (leg, k) not in P: P[leg, k] = list(groups(reps[leg], leg, rng('groups', leg), k).items())
        tag, items = r.choice(P[leg, k])
        W = {b: w for (b, _), w in zip(items, e['ws'])}
        def step():
            t = make(e['method'], reps[leg], e['c'], W if any(w != 1 for w in e['ws']) else None, no)
            i = 0
            while i < len(e['offers']):
                j = r.randrange(i + 1, len(e['offers']) + 1)
                t.add_braids_images(*batch([items[x-1] for x in e['offers'][i:j]]))
                i = j
            held, imgs = t.bucket_braids_images(tag)
            c = Counter([x for x, _ in items].index(b) + 1 for b in held)
            df = t.stats()
            if len(df) != 1: raise Malformed('buckets')
            x = df.iloc[0]
            cnt = pyint(x['reservoir_count']) if 'reservoir_count' in df else e['count']
            w = e['w'] if leg else float(x['reservoir_weight_avg_seen']) * cnt
            return dict(held=sorted([k, v] for k, v in c.items()), count=cnt, w=round(w, 6))
        res = attempt(step, lambda x: x)[1]
        out.replayed += 1
        allowed = [sorted(map(list, a)) for a in e['allowed']]
        if not res['ok'] or res['held'] not in allowed or res['count'] != e['count'] or res['w'] != e['w']:
            out.bad.append(dict(run='edge%d' % no, clause='replayed offers: got %s, specification allows %s, count %s' % (res, allowed, e['count']), event={k: v for k, v in e.items() if k != 'allowed'}))
        if not out.samples: out.samples.append(e)


CASES = [('Uniform', 1, [1] * 4), ('Uniform', 2, [1] * 5), ('Uniform', 3, [1] * 7), ('Uniform', 4, [1] * 6), ('LegacyR', 1, [1] * 4), ('LegacyR', 2, [1] * 5), ('LegacyR', 3, [1] * 7),
         ('AChao', 1, [1, 2, 3, 1]), ('AChao', 2, [1, 1, 4, 1, 2]), ('AChao', 2, [2, 0, 1, 3, 0, 1]), ('AChao', 3, [1] * 6), ('AChao', 1, [0, 1, 0, 4]), ('AChao', 3, [5, 1, 1, 2, 8, 1])]


def trials(run, no, method, c, ws, T, seed):
    leg = method == 'LegacyR'
    rep = (JonesSummand if leg else JonesCellRep)(n=4, r=1, p=3)
    r = rng(seed, 'trials', no)
    gs = list(groups(rep, leg, r, len(ws)).values())[:4]
    # buckets share the random source and are filled in turn
    seq = [(g, i) for i in range(len(ws)) for g in range(len(gs))]
    W = {gs[g][i][0]: float(ws[i]) for g, i in seq}
    cut = no % 3
    if cut == 1: seq.sort()
    elif cut == 2: r.shuffle(seq); seq.sort(key=lambda x: x[1])
    xs = [gs[g][i] for g, i in seq]
    bs, ims = batch(xs)
    tags = None
    where = {b: i for (g, i), (b, _) in zip(seq, xs)}
    def go():
        nonlocal tags
        hits, done, k = [0] * len(ws), 0, 0
        rnd = random.Random(seed * 1000 + no)
        while done < T:
            t = make(method, rep, c, W if any(w != 1 for w in ws) or no % 2 else None, rnd.getrandbits(40))
            h = k % (len(bs) + 1) if not leg else 0
            if h in (0, len(bs)): t.add_braids_images(bs, ims)
            else:
                t.add_braids_images(bs[:h], ims[:h])
                t.add_braids_images(bs[h:], ims[h:])
            k += 1
            for tag in list(t.buckets):
                for b in t.bucket_braids_images(tag)[0]: hits[where[b]] += 1
                done += 1
        return dict(hits=hits, T=done)
    v, res = attempt(go, lambda d: d, 500)
    run.log('trials', res=res, method=('AChao' if method == 'AChao' else 'Uniform'), c=c, ws=ws, T=res.get('T', T))


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    no = 0
    for n, rr, p in [(3, 1, 2), (4, 1, 2), (4, 2, 5)]:
        for method in ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin', 'Legacy', 'LegacyR'):
            for _ in range(2 if q else 12):
                no += 1
                if no % parts != part: continue
                r = rng(seed, 'c12', no)
                leg = method.startswith('Legacy')
                m = TM(out.new('keeps%d' % no), (JonesSummand if leg else JonesCellRep)(n=n, r=rr, p=p), method, r.choice([1, 2, 3, 5]), ['length', 'projlen'],
                       'one' if leg else r.choice(['one', 'projlen', 'nz_terms', 'mix', 'few', 'few']), seed=r.randrange(1000), focus='keeps')
                history(m, r, ['G'] if leg else [r.choice('GD')], 35 if q else 90, 3, size=20)
    # Many different weights in large buckets, and long histories of single offers.
    for j in range(8 if q else 64):
        if j % parts != part: continue
        r = rng(seed, 'c12evict', j)
        m = TM(out.new('evict%d' % j), JonesCellRep(n=4, r=1, p=[5, 0, 3][j % 3]), 'EvictMin', r.choice([4, 5, 6, 8, 11]), ['length', 'projlen'], r.choice(['nz_terms', 'nz_terms', 'mix']), seed=r.randrange(1000), focus='keeps')
        P = [of_length(r, 4, 'G', 2, 2) for _ in range(160 if q else 300)]
        G = defaultdict(list)
        for x in P: G[m.rep.polymat_evaluate_braid(x).shape[-1]].append(x)
        P = [x for v in sorted(G.values(), key=len)[-2:] for x in v]
        r.shuffle(P)
        i = 0
        while i < len(P):
            k = r.choice([1, 1, 2, 3, 8])
            if not m.offer(P[i:i+k]): break
            i += k
            if r.random() < .02: m.discard(r.choice(m.sorted_tags()))
    for i, (method, c, ws) in enumerate(CASES):
        for copy in range(1 if q else 3):
            if (i * 3 + copy) % parts == part:
                run = out.new('trials%d.%d' % (i, copy), n=2, r=0, p=2, basis=[[3, 2, 1, 0]], focus='keeps', method='Uniform', cap=1, keys=[], weight='one', crit={}, kinds=[], braids=[], images=[])
                trials(run, i * 3 + copy, method, c, ws, (8000 if method == 'LegacyR' else 20000) * (1 if q else 4), int(seed) + 17 * copy)
