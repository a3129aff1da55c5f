"""Shared recording helpers.  Drivers run the code in REPO (default /repo) and log what it
did; they never judge: exceptions, hangs and malformed values become logged results."""
import json, os, random, signal, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
INT_MAX = 2**31 - 1


class Malformed(Exception):
    pass


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def err(e):
    return dict(ok=0, exc=(type(e).__name__ + ': ' + str(e))[:200].replace('|', '/').replace('\n', ' ').encode('ascii', 'replace').decode())


def attempt(f, enc=None, limit=60):
    """(value or None, result record).  enc turns the value into the fields of the record."""
    signal.alarm(limit)
    try:
        v = f()
        r = enc(v) if enc else {}
        signal.alarm(0)
        return v, dict(ok=1, **r)
    except Hang:
        return None, dict(ok=0, exc='no result after %d s' % limit)
    except KeyboardInterrupt:
        raise
    except BaseException as e:          # noqa: whatever the code raises is an observation
        signal.alarm(0)
        return None, err(e)
    finally:
        signal.alarm(0)


def integer(x):
    import numbers
    if isinstance(x, bool) or not isinstance(x, numbers.Integral):
        raise Malformed('not an integer: %r' % (x,))
    x = int(x)
    if abs(x) > INT_MAX:
        raise Malformed('integer out of the range of the specification')
    return x


def ints(xs):
    return [integer(x) for x in xs]


def enc_perm(p):
    from peyl.permutations import Permutation
    if not isinstance(p, Permutation):
        raise Malformed('not a permutation: %r' % (p,))
    return ints(p.word)


def enc_npar(p):
    from peyl.noncrossing import NPar
    if not isinstance(p, NPar):
        raise Malformed('not a noncrossing partition: %r' % (p,))
    return [ints(c) for c in p.components()]


def kind(b):
    from peyl.braid import GNF, DGNF
    if type(b) is GNF:
        return 'G'
    if type(b) is DGNF:
        return 'D'
    raise Malformed('not a braid: %r' % (b,))


def enc_div(k, d):
    return enc_perm(d) if k == 'G' else enc_npar(d)


def enc_braid(b):
    """Everything the public accessors say about a braid."""
    k = kind(b)
    L = integer(b.canonical_length())
    if L > 10000:
        raise Malformed('length')
    pow2, fs2 = b.canonical_decomposition()
    return dict(k=k, n=integer(b.n), pow=integer(b.inf()), pow2=integer(pow2), powd=integer(b.power), sup=integer(b.sup()), len=L,
                fs=[enc_div(k, f) for f in b.canonical_factors()],
                fs2=[enc_div(k, f) for f in fs2],
                fsd=[enc_div(k, b.canonical_factor(i)) for i in range(L)],
                fsr=[enc_div(k, b.canonical_factor(i - L)) for i in range(L)])


def enc_nf(b):
    """Just the normal form."""
    k = kind(b)
    return dict(k=k, n=integer(b.n), pow=integer(b.inf()), fs=[enc_div(k, f) for f in b.canonical_factors()])


def enc_list(bs):
    bs = list(bs)
    return dict(pows=[integer(b.inf()) for b in bs], ks=sorted({kind(b) for b in bs}),
                fss=[[enc_div(kind(b), f) for f in b.canonical_factors()] for b in bs])


class Run:
    def __init__(self, id, **hdr):
        self.d = dict(id=id, ev=[], **hdr)

    def log(self, op, **kw):
        self.d['ev'].append(dict(op=op, **kw))


class Out:
    """What a driver hands back: runs for the trace specification, plus replayed specification
    behaviours (counted), plus mismatches found while replaying those."""
    def __init__(self):
        self.runs, self.bad, self.replayed, self.samples = [], [], 0, []

    def new(self, id, **hdr):
        r = Run(id, **hdr)
        self.runs.append(r.d)
        return r

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump(dict(runs=self.runs, bad=self.bad, replayed=self.replayed, samples=self.samples), f)


def rng(seed, *salt):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, salt))))


# ---- trusted little helpers on words and permutations (not from the code under test) ----

def perm_word(n, cox):
    w = list(range(n))
    for s in cox:
        w[s], w[s + 1] = w[s + 1], w[s]
    return tuple(w)


def reduced_word(w):
    """A reduced word (s1..sk) with perm_word = w."""
    w, out = list(w), []
    done = False
    while not done:
        done = True
        for i in range(len(w) - 1):
            if w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]
                out.append(i)
                done = False
    return out[::-1]


def all_perms(n):
    import itertools
    return list(itertools.permutations(range(n)))


def set_partitions(xs):
    xs = list(xs)
    if not xs:
        yield []
        return
    x, rest = xs[0], xs[1:]
    for p in set_partitions(rest):
        yield [[x]] + p
        for i in range(len(p)):
            yield p[:i] + [[x] + p[i]] + p[i + 1:]


def noncrossing(p):
    return not any(a < b < c < d for A in p for B in p if A is not B
                   for a in A for c in A for b in B for d in B)


def nc_partitions(n):
    return [sorted(sorted(b) for b in p) for p in set_partitions(range(n)) if noncrossing(p)]


def random_word(r, n, length, emax=1):
    w = []
    for _ in range(length):
        e = r.choice([x for x in range(-emax, emax + 1) if x != 0 or emax > 1])
        w.append([r.randrange(n - 1), e])
    return w


def inverse_word(w):
    return [[i, -e] for i, e in reversed(w)]
