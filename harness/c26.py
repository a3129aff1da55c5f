"""Seeded programs, executed again under other hash seeds and after, or amid, other work."""
import subprocess
from pure import *
from searching import Searches
HERE = os.path.dirname(os.path.abspath(__file__))


def p_legacy(n, r, p, cap, keys, seed, L, minimise=None):
    t = BS.Tracker(rep=BS.JonesSummand(n=n, r=r, p=p), bucket_size=cap, bucket_keys=tuple(keys), criterion=lambda x: x['length'] >= 1, rand=random.Random(seed))
    def show(): return [[b, list(t.bucket_braids[b]), t.bucket_images[b][:len(t.bucket_braids[b])]] for b in sorted(t.buckets)]
    t.bootstrap_exhaustive(upto_length=L)
    yield 'bootstrap', show()
    for l in range(L, L + 3):
        for b in [b for b in sorted(t.buckets) if b[0] == l][:4]: t.nf_descendants(b, length=1)
        yield 'descendants', show()
    B = sorted(t.buckets)
    t.substrings(B[-1])
    yield 'substrings', show()
    if n == 3: t.bucket_product(B[0], B[1]); yield 'products', show()
    yield 'statistics', t.stats().sort_values(list(keys), ignore_index=True)


def p_modern(n, r, p, kind_, cap, method, nf, seed, L):
    S = BK.Stats
    keys = [S.CanonicalLength, S.ProjectiveLength] + ([S.NFKind] if nf else [])
    t = BK.Tracker(JR.JonesCellRep(n=n, r=r, p=p), cap, keys, [S.NonzeroTerms], method, S.NonzeroTerms if method in ('AChao', 'EvictMin') else None, random.Random(seed))
    def show(): return [[tag, *t.bucket_braids_images(tag)] for tag in sorted(t.buckets)]
    t.bootstrap_exhaustive(CLS[kind_], L)
    if nf: t.bootstrap_exhaustive(CLS['D' if kind_ == 'G' else 'G'], L)
    yield 'bootstrap', show()
    for l in range(L, L + 3):
        for tag in [b for b in sorted(t.buckets) if b[0] == l][:4]: t.nf_descendants(tag, length=1)
        yield 'descendants', show()
    yield 'statistics', t.stats()


def p_sample(n, k, L, seed):
    g = random.Random(seed)
    for _ in range(3): yield 'sample', [CLS[k].sample(n, L, g) for _ in range(5)]
    if k == 'G': yield 'sample_braid_perm', [BraidGroup(n).sample_braid_perm(L, rand=g) for _ in range(5)]


def p_images(n, r, p, seed):
    g = random.Random(seed)
    S = BS.JonesSummand(n=n, r=r, p=p)
    yield 'images', BS.sample_braids_images(S, 3, 6, rand=g)
    yield 'images up to a length', BS.sample_braids_images_upto_length(S, 1, 3, 4, rand=g)


PROG = dict(legacy=p_legacy, modern=p_modern, sample=p_sample, images=p_images)


def programs(r, q):
    P = []
    for _ in range(4 if q else 12):
        n, rr, p = r.choice([(3, 1, 2), (3, 1, 3), (3, 0, 2), (4, 1, 2), (4, 2, 3), (4, 2, 2), (3, 1, 0)])
        L = 1 if n > 3 else 2
        P.append(['legacy', n, rr, p, r.choice([1, 2, 3, 7, 20]), r.choice([['length', 'projlen'], ['length', 'projlen', 'nz_terms'], ['length', 'projlen', 'valmin']]), r.randrange(10**6), L])
        P.append(['modern', n, rr, p, r.choice('GD'), r.choice([1, 2, 3, 7, 20]), r.choice(['Uniform', 'Uniform', 'GreedyFirst', 'AChao', 'AChao', 'EvictMin']), r.randrange(2), r.randrange(10**6), L])
        P.append(['sample', r.choice([3, 4, 5]), r.choice('GD'), r.randrange(1, 6), r.randrange(10**6)])
        P.append(['images', *r.choice([(3, 1, 2), (4, 2, 3), (4, 1, 0)]), r.randrange(10**6)])
    return P


def execute(P, r, mode, warm):
    """[program number, [[what, value], ...], failure] in the order of execution."""
    if warm:
        for c in catalogue(rng(warm, 'warm26'), 60, r.choice(['all', 'trackers', 'sums', 'braids', 'reps'])): result(c, [a.make() for a in c.args])
    order = list(range(len(P)))
    r.shuffle(order)
    if mode == 'twice': order = [i for i in order for _ in range(2)]
    live = [[i, PROG[P[i][0]](*P[i][1:]), [], None] for i in order]
    width = {'plain': 1, 'twice': 1, 'turns': 3}[mode]
    at = 0
    while at < len(live):
        group = live[at:at + width]
        going = list(group)
        while going:
            for x in list(going):
                if mode != 'plain': random.random(); np.random.rand()
                signal.alarm(120)
                try:
                    what, v = next(x[1])
                    x[2].append([what, print_of(enc(v))])
                except StopIteration: going.remove(x)
                except Hang: x[3] = 'no step within 120 s'; going.remove(x)
                except Exception as e: x[3] = type(e).__name__ + ' ' + str(e)[:80]; going.remove(x)
                finally: signal.alarm(0)
        at += width
    return [[i, st, why] for i, _, st, why in live]


def clean(s): return s.replace('|', '/').replace('"', "'").replace('\\', '/').encode('ascii', 'replace').decode()


# n r p bootstrap bucket use save step stop, last length
SEARCHES = [(3, 1, 2, 2, 3, 30, 1000, 1, 0, 6), (4, 1, 2, 1, 6, 40, 1000, 1, 0, 4), (3, 1, 3, 3, 2, 12, 1000, 1, 0, 7), (4, 1, 2, 1, 1000, 40, 1000, 1, 1, None), (4, 2, 2, 1, 5, 30, 1000, 1, 0, 3), (4, 1, 3, 2, 4, 25, 1000, 1, 0, 5),
            (3, 0, 2, 2, 2, 10, 1000, 1, 1, None), (4, 2, 3, 1, 8, 50, 1000, 1, 1, None)]


def searches(out, part, parts, seed, q):
    for no, (n, r, p, b, cap, use, save, step, stop, upto) in enumerate(SEARCHES):
        for j in range(1 if q else 4):
            if (no + 3 * j) % parts != part: continue
            run = out.new('search%d.%d' % (no, j), names=[])
            g = rng(seed, 'c26s', no, j)
            sd = g.randrange(1000)
            s = Searches(run, n, r, p, b, cap, use, save, step, stop, seed=sd)
            run.d['names'] = ['search.py ' + clean(' '.join(s.argv(False)))]
            for del_ in ('n', 'r', 'p', 'basis', 'braids'): run.d.pop(del_, None)
            for e in range(3 if q else 6):
                for x in ('', '-wal', '-shm', '-journal'):
                    if os.path.exists(s.db + x): os.unlink(s.db + x)
                s.old = []
                warm = 0 if e == 0 else e + no * 3
                hs = '0' if e == 0 else str(g.randrange(1, 2**31))
                how = 'hash seed %s%s' % (hs, ', after other work' if warm else '')
                log, run.d['ev'] = run.d['ev'], []
                res = s.search(upto=upto, conf=dict(warm=warm) if warm else {}, env=dict(PYTHONHASHSEED=hs), limit=60)
                run.d['ev'] = log
                run.log('begin', p=1)
                if not res['ok']:
                    run.log('fail', why=clean(res['exc'])[:150])
                    continue
                raw = s.rows()
                lens = sorted({x[3] for x in raw} | {a[0] for a in res['ann']})
                top = upto if upto is not None and res['end'] == 'cut' else 10**9
                for L in range(b - step + 1, min(top, lens[-1] if lens else 0) + 1):
                    run.log('step', what='length %d' % L, v=print_of([[a for a in res['ann'] if a[0] == L], [x for x in raw if x[3] == L]]), how=how)
                run.log('end', full=int(res['end'] == 'self'), how=how)
            s.close()


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    searches(out, part, parts, seed, q)
    for j in range(1 if q else 6):
        P = programs(rng(seed, 'c26', part, j), q)
        run = out.new('programs%d.%d' % (part, j), names=[clean(text(x)) for x in P])
        for k, (mode, warm) in enumerate([('plain', 0), ('twice', 0), ('turns', part * 5 + 1), ('twice', part * 5 + 2)] + ([] if q else [('turns', part * 7 + 3 + i) for i in range(4)])):
            e = dict(os.environ, PYTHONHASHSEED=str((int(seed) * 7919 + part * 31 + j * 101 + k * 1013) % 2**31))
            how = 'execution %d: %s, hash seed %s%s' % (k, mode, e['PYTHONHASHSEED'], ', after other work' if warm else '')
            r = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), json.dumps(P), mode, str(warm), '%s.%s.%s' % (part, j, k)], capture_output=True, text=True, timeout=1000, env=e)
            if r.returncode:
                run.log('begin', p=1); run.log('fail', why='the process died: ' + clean(r.stderr[-200:])); continue
            for i, st, why in json.loads(r.stdout):
                run.log('begin', p=i + 1)
                for what, v in st: run.log('step', what=what, v=v, how=how)
                if why: run.log('fail', why=clean(why))
                else: run.log('end', full=1, how=how)


if __name__ == '__main__':
    P, mode, warm, key = sys.argv[1:]
    json.dump(execute(json.loads(P), rng(key), mode, int(warm)), sys.stdout)
