"""Behaviours of whole trackers, generated by TLC from MC_Buckets, replayed into the real trackers."""
import io, contextlib
from collections import Counter
from tracker import *
NFC = dict(G=GNF, D=DGNF)


def build(x, n):
    if x['k'] == 'G': return BraidGroup(n).from_gnf_pair((x['pow'], [tuple(p) for p in x['fs']]))
    return DGNF(n, x['pow'], ()) * DGNF.from_npar_seq(n, [NPar.from_permutation(Permutation(tuple(p))) for p in x['fs']])


def key(b):
    """A braid as the specification shows it."""
    k = kind(b)
    return json.dumps([k, integer(b.inf()), [enc_perm(f if k == 'G' else f.to_permutation()) for f in b.canonical_factors()]])


def make(e, seed):
    cap = e['cap'] or 300
    leg = e['method'].startswith('Legacy')
    rep = (JonesSummand if leg else JonesCellRep)(n=e['n'], r=e['r'], p=e['p'])
    rand = random.Random(seed)
    if leg:
        crit = e['crit']
        return rep, braidsearch.Tracker(rep=rep, bucket_size=cap, bucket_keys=('length', 'projlen'), criterion=lambda x: x['length'] <= crit, rand=rand if e['method'] == 'LegacyR' else None)
    kw = dict(reservoir_weight=Stats.NonzeroTerms) if e['method'] in ('AChao', 'EvictMin') else {}
    return rep, bucketing.Tracker(rep=rep, bucket_capacity=cap, bucket_braidstats=[Stats.CanonicalLength, Stats.ProjectiveLength], other_braidstats=[], reservoir_method=e['method'], rand=rand, **kw)


def images(rep, bs, legacy):
    ims = braidsearch.evaluate_braids(rep, bs) if legacy else [rep.polymat_evaluate_braid(b) for b in bs]
    d = max(a.shape[-1] for a in ims)
    out = np.zeros((len(ims), *ims[0].shape[:2], d), dtype=ims[0].dtype)
    for i, a in enumerate(ims): out[i, ..., :a.shape[-1]] = a
    return out


def play(e, r):
    n, leg = e['n'], e['method'].startswith('Legacy')
    rep, t = make(e, r.randrange(10**6))
    ops, i = e['ops'], 0
    while i < len(ops):
        o = ops[i]
        if o['op'] == 'offer':
            j = i + 1
            while j < len(ops) and ops[j]['op'] == 'offer' and r.random() < .5: j += 1
            bs = [build(q['x'], n) for q in ops[i:j]]
            t.add_braids_images(bs, images(rep, bs, leg))
            i = j
            continue
        i += 1
        if o['op'] == 'discard': t.discard_bucket(tuple(o['tag']))
        elif o['op'] == 'boot': t.bootstrap_exhaustive(o['upto']) if leg else t.bootstrap_exhaustive(NFC[e['k']], o['upto'])
        elif o['op'] == 'extend': t.nf_descendants(tuple(o['tag']), o['len'])
        elif o['op'] == 'product': t.bucket_product(tuple(o['a']), tuple(o['b']))
        elif o['op'] == 'substrings': t.substrings(tuple(o['tag']))
        else: raise Malformed('operation')
    df = t.stats()
    tags = list(df['bucket'])
    if set(tags) != set(t.buckets) or len(set(tags)) != len(tags): raise Malformed('the table of buckets')
    S = {}
    for q, tag in enumerate(tags):
        x = df.iloc[q]
        bs, ims = t.bucket_braids_images(tag)
        if pyint(x['count']) != len(bs) or len(ims) != len(bs): raise Malformed('number of braids')
        cnt = pyint(x['reservoir_count']) if 'reservoir_count' in df else None
        w = None if leg else round(float(x['reservoir_weight_avg_seen']) * cnt, 6)
        S[json.dumps(plain(tag))] = (sorted(Counter(key(b) for b in bs).items()), cnt, w)
    seen = None
    if leg:
        f = t.stats_reservoir()
        seen = sorted([plain(f.iloc[q]['bucket']), pyint(f.iloc[q]['reservoir_count'])] for q in range(len(f)))
        if len(set(map(str, seen))) != len(seen): raise Malformed('reservoir counts')
    with contextlib.redirect_stdout(io.StringIO()):
        sound = t.valiate_buckets() == "All bucket entries are sound."
    return dict(S=S, seen=seen, sound=sound)


def wrong(e, res):
    leg = e['method'].startswith('Legacy')
    want = {json.dumps(tag): (allowed, c, w) for tag, allowed, c, w in e['bk']}
    if set(want) != set(res['S']): return 'the set of buckets'
    for tag, (h, c, w) in res['S'].items():
        allowed, c0, w0 = want[tag]
        if h not in [sorted((json.dumps([x['k'], x['pow'], x['fs']]), m) for x, m in a) for a in allowed]: return 'contents of bucket ' + tag
        if c is not None and c != c0: return 'number offered to bucket ' + tag
        if w is not None and w != w0: return 'weight offered to bucket ' + tag
    if leg and res['seen'] != sorted([list(tag), c] for tag, c in e['seen']): return 'reservoir counts'
    if not res['sound']: return 'validation'


def record(out, part, parts, tier, seed, inp):
    with open(inp) as f: lines = sorted(set(f))
    r = rng('buckets', part)
    for no, line in enumerate(lines):
        if no % parts != part: continue
        e = json.loads(line)
        res = attempt(lambda: play(e, r), lambda x: x)[1]
        out.replayed += 1
        why = wrong(e, res) if res['ok'] else res['exc']
        if why:
            out.bad.append(dict(run='edge%d' % no, clause='replayed operations: %s' % why, event={k: e[k] for k in ('method', 'cap', 'crit', 'ops')}))
        if not out.samples: out.samples.append(e)
