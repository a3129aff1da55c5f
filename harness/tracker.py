"""The tracker machine: drives either tracker through its public interface and logs every step."""
import json, math, random
from collections import Counter
from reps import *
from peyl import bucketing, braidsearch
from peyl.bucketing import Stats
from peyl.braidsearch import JonesSummand

WEIGHT = {}


def stat(kind):
    """Weight statistics of our own (the specification computes the same numbers)."""
    if kind == 'one': return None
    if kind == 'projlen': return Stats.ProjectiveLength
    if kind == 'nz_terms': return Stats.NonzeroTerms
    from peyl import polymat
    if kind not in WEIGHT:
        class W(bucketing.BraidStatBase):
            name = kind
            @staticmethod
            def calculate(rep, braids, images):
                if kind == 'mix': return [((b.inf() + int(z)) % 4) / 2 for b, z in zip(braids, nonzero(images))]
                return [2.0 if (b.inf() + b.canonical_length()) % 3 == 0 else 0 for b in braids]
        WEIGHT[kind] = W
    return WEIGHT[kind]


def nonzero(images):
    return [int(np.count_nonzero(a)) for a in images]


STATS = dict(length=Stats.CanonicalLength, projlen=Stats.ProjectiveLength, nz_terms=Stats.NonzeroTerms, nf=Stats.NFKind)


def plain(tag):
    """A tag as plain numbers and strings."""
    if not isinstance(tag, tuple): raise Malformed('tag is not a tuple: %r' % (tag,))
    return [str(x) if isinstance(x, str) else integer(x) for x in tag]


def pyint(x):
    f = float(x)
    if f != int(f): raise Malformed('not a whole number: %r' % (x,))
    return int(f)


class TM:
    def __init__(self, run, rep, method, cap, keys, weight='one', crit=None, seed=0, rand=True, focus='all'):
        self.run, self.rep, self.method, self.keys, self.cap = run, rep, method, list(keys), cap
        self.legacy = method in ('Legacy', 'LegacyR')
        self.crit = crit or dict(minlen=0, maxlen=10**6, maxproj=10**6, maxnz=10**6)
        self.kinds = []
        self.b, self.bi, self.im, self.ii, self.obj = [], {}, [], {}, []
        if self.legacy:
            c = self.crit
            def criterion(x):
                k = (x['length'] >= c['minlen']) & (x['length'] <= c['maxlen']) & (x['projlen'] <= c['maxproj']) & (x['nz_terms'] <= c['maxnz'])
                return k if seed % 2 else list(k)
            self.t = braidsearch.Tracker(rep=rep, bucket_size=cap, bucket_keys=tuple(keys), criterion=criterion, rand=random.Random(seed) if method == 'LegacyR' else None)
        else:
            kw = dict(rand=random.Random(seed)) if rand else {}
            if weight != 'one': kw['reservoir_weight'] = stat(weight)
            if method != 'Uniform' or seed % 2: kw['reservoir_method'] = method
            self.t = bucketing.Tracker(rep=rep, bucket_capacity=cap, bucket_braidstats=[STATS[k] for k in keys],
                                       other_braidstats=[STATS[k] for k in ('nz_terms',) if k not in keys], **kw)
        run.d.update(n=rep.n, r=rep.r, p=rep.p, basis=basis(JonesCellRep(n=rep.n, r=rep.r, p=rep.p)), focus=focus, method=method, cap=cap, keys=self.keys, weight=weight, crit=self.crit, kinds=self.kinds,
                     braids=self.b, images=self.im)

    # --- numbering of braids and images ---
    def bid(self, x):
        o = obj(x)
        k = json.dumps(o, sort_keys=True)
        if k not in self.bi:
            self.b.append(o); self.obj.append(x)
            self.bi[k] = len(self.b)
        return self.bi[k]

    def iid(self, a):
        a = np.asarray(a)
        e = enc_tensor(a)
        if a.size:                      # up to powers of v
            nz = np.nonzero(a.any(axis=(0, 1)))[0]
            if len(nz): e = a[..., nz[0]:nz[-1]+1].tolist()
        k = json.dumps(e)
        if k not in self.ii:
            self.im.append(e)
            self.ii[k] = len(self.im)
        return self.ii[k]

    def tags(self):
        df = self.t.stats()
        tags = list(df['bucket'])
        if set(tags) != set(self.t.buckets): raise Malformed('the table of buckets does not list the buckets')
        return df, tags

    def contents(self, tag):
        bs, imgs = self.t.bucket_braids_images(tag)
        if len(bs) != len(imgs): raise Malformed('%d braids and %d images' % (len(bs), len(imgs)))
        if self.legacy and (self.t.bucket_braids[tag] != list(bs)): raise Malformed('bucket_braids differs from bucket_braids_images')
        return list(bs), imgs

    def snapshot(self):
        df, tags = self.tags()
        S = []
        for row, tag in enumerate(tags):
            bs, imgs = self.contents(tag)
            x = df.iloc[row]
            e = dict(tag=plain(tag), h=[[self.bid(b), self.iid(a)] for b, a in zip(bs, imgs)], cnt=pyint(x['count']),
                     cols=[str(x[k]) if isinstance(x[k], str) else pyint(x[k]) for k in self.keys], count=-1, wavg=-1, wseen=-1)
            if self.legacy:
                if 'reservoir_count' in df: e['count'] = pyint(x['reservoir_count'])
            else:
                e['count'] = pyint(x['reservoir_count'])
                e['wavg'], e['wseen'] = round(10000 * float(x['reservoir_weight_avg'])), round(10000 * float(x['reservoir_weight_avg_seen']))
            S.append(e)
        d = dict(S=S)
        if self.legacy:
            f = self.t.stats_reservoir()
            d['rc'] = []
            for i in range(len(f)):
                x = f.iloc[i]
                if plain(x['bucket']) != [pyint(x[k]) for k in self.keys]: raise Malformed('table of reservoir counts')
                d['rc'].append([plain(x['bucket']), pyint(x['reservoir_count'])])
        return d

    def act(self, op, f, limit=120, /, **kw):
        def g():
            f()
            return self.snapshot()
        v, res = attempt(g, lambda d: d, limit)
        self.run.log(op, res=res, **kw)
        return res['ok']

    def ask(self, op, f, /, **kw):
        self.run.log(op, res=attempt(f, lambda d: d)[1], **kw)

    # --- events ---
    def images_of(self, braids, r=None):
        """Images of braids of any lengths, padded to one tensor; shifted by powers of v if r."""
        from peyl import polymat
        if self.legacy: ims = braidsearch.evaluate_braids(self.rep, braids)
        else: ims = [self.rep.polymat_evaluate_braid(b) for b in braids]
        off = [r.randrange(3) if r and not self.legacy else 0 for _ in ims]       # (the legacy tracker takes projective images)
        d = max((a.shape[-1] + o for a, o in zip(ims, off)), default=1) + (r.randrange(2) if r else 0)
        out = np.zeros((len(ims), *ims[0].shape[:2], d), dtype=ims[0].dtype)
        for i, (a, o) in enumerate(zip(ims, off)): out[i, ..., o:o+a.shape[-1]] = a
        return out

    def offer(self, braids, r=None):
        bs = [self.bid(b) for b in braids]
        ims = self.images_of(braids, r)
        keep_b, keep_i = list(braids), ims.copy()
        def f():
            self.t.add_braids_images(braids, ims)
            if braids != keep_b or ims.shape != keep_i.shape or (ims != keep_i).any(): raise Malformed('the arguments were changed')
        return self.act('offer', f, bs=bs)

    def sorted_tags(self):
        return sorted(self.t.buckets, key=lambda t: [str(type(x)) + '%09d' % x if not isinstance(x, str) else x for x in t])

    def discard(self, tag):
        return self.act('discard', lambda: self.t.discard_bucket(tag), tag=plain(tag))

    def needs(self, k):
        """Normal forms of this kind will be enumerated."""
        if k not in self.kinds: self.kinds.append(k)

    def boot(self, cls, k, upto):
        self.needs(k)
        if self.legacy: return self.act('boot', lambda: self.t.bootstrap_exhaustive(upto), k=k, upto=upto)
        return self.act('boot', lambda: self.t.bootstrap_exhaustive(cls, upto), k=k, upto=upto)

    def extend(self, tag, length, how=0):
        if tag in self.t.buckets:
            for b in self.contents(tag)[0]: self.needs(obj(b)['k'])
        f = (lambda: self.t.nf_descendants(tag)) if length == 1 and how else (lambda: self.t.nf_descendants(tag, length=length)) if how else (lambda: self.t.nf_descendants(tag, length))
        return self.act('extend', f, tag=plain(tag), len=length)

    def bstats(self, tag):
        def f():
            df = self.t.bucket_stats(tag)
            bs, _ = self.contents(tag)
            if len(df) != len(bs): raise Malformed('rows')
            if not self.legacy and list(df['braid']) != bs: raise Malformed('braid column')
            rows = []
            for i in range(len(df)):
                x = df.iloc[i]
                more = [pyint(x['degmax']), pyint(2 * x['rhogap']), pyint(x['valmin'])] if self.legacy else []
                if self.legacy and abs(float(x['rhogap/length']) * max(1, x['length']) - x['rhogap']) > 1e-9: raise Malformed('rhogap/length')
                rows.append(dict(length=pyint(x['length']), projlen=pyint(x['projlen']), nz=pyint(x['nz_terms']), more=more))
            return dict(h=[self.bid(b) for b in bs], rows=rows)
        self.ask('bstats', f, tag=plain(tag))

    def validate(self):
        import io, contextlib
        def f():
            with contextlib.redirect_stdout(io.StringIO()):
                return dict(good=int(self.t.valiate_buckets() == "All bucket entries are sound."))
        self.ask('validate', f)

    def corrupt(self, r):
        """Spoil an image (in the array that the tracker hands out) or a braid, ask for the validation, put it back."""
        import io, contextlib
        tags = self.sorted_tags()
        if not tags: return
        tag = r.choice(tags)
        def f():
            bs, ims = self.t.bucket_braids_images(tag)
            i = r.randrange(len(bs))
            old, oldb = ims[i].copy(), bs[i]
            swap = r.random() < .4
            if swap:
                # another braid of the same length
                others = [b for b in self.obj if type(b) is type(oldb) and b.canonical_length() == oldb.canonical_length() and b != oldb]
                if not others: return dict(good=-1, pairs=[])
                bs[i] = r.choice(others)
            else:
                for _ in range(20):
                    at = tuple(r.randrange(k) for k in ims[i].shape)
                    x = (int(old[at]) + r.choice([1, 1, 2])) % (self.rep.p or 10**6)
                    new = old.copy(); new[at] = x
                    if new.any() and self.trimmed(new) != self.trimmed(old): break
                else: return dict(good=-1, pairs=[])
                try: ims[i][at] = x
                except ValueError: return dict(good=-1, pairs=[])      # a read-only view
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ans = self.t.valiate_buckets()
                pairs = []
                for u in tags:
                    b2, i2 = self.contents(u)
                    pairs += [[self.bid(b), self.iid(a)] for b, a in zip(b2, i2)]
                good = int(isinstance(ans, str) and ans == "All bucket entries are sound.")
                told = []
                if not good and isinstance(ans, tuple) and len(ans) == 3:
                    b, actual, have = ans
                    told = [self.bid(b), self.iid(actual), self.iid(have)]
            finally:
                bs[i] = oldb
                ims[i] = old
            return dict(good=good, pairs=pairs, told=told)
        self.ask('spoiled', f)

    def trimmed(self, a):
        nz = np.nonzero(a.any(axis=(0, 1)))[0]
        return a[..., nz[0]:nz[-1]+1].tolist()

    def hashes(self, tag):
        self.ask('hash', lambda: dict(groups=[[self.bid(b) for b in g] for g in self.t.hash_bucket(tag).values()]), tag=plain(tag))

    def product(self, a, b):
        return self.act('product', lambda: self.t.bucket_product(a, b), a=plain(a), b=plain(b))

    def substrings(self, tag):
        return self.act('substrings', lambda: self.t.substrings(tag), tag=plain(tag))


def pool(r, n, k, size, L):
    """Braids to be offered, with repeats of tags and braids."""
    out = []
    for _ in range(size):
        if n == 2: out.append(CLS[k].identity(2))
        else: out.append(of_length(r, n, k, r.randrange(0, L + 1), 2))
    return out


def history(m, r, kinds, steps, L, size=40):
    """Random offers, discards and questions."""
    n = m.rep.n
    P = {k: pool(r, n, k, size, L) for k in kinds}
    for _ in range(steps):
        tags = m.sorted_tags()
        u = r.random()
        if u < .62 or not tags:
            k = r.choice(kinds)
            cnt = r.choice([1, 1, 1, 2, 4, 9])
            bs = [r.choice(P[k]) for _ in range(cnt)]
            if r.random() < .3: bs = [of_length(r, n, k, r.randrange(0, L + 1), 3) for _ in bs]
            if not m.offer(bs, r if r.random() < .5 else None): break
        elif u < .72:
            t = r.choice(tags) if r.random() < .85 else tuple('GNF' if k == 'nf' else 99 for k in m.keys)
            if not m.discard(t): break
        elif u < .82: m.bstats(r.choice(tags) if r.random() < .93 else tuple('GNF' if k == 'nf' else 99 for k in m.keys))
        elif u < .87: m.validate()
        elif u < .9: m.corrupt(r)
        elif not m.legacy: m.hashes(r.choice(tags))
