"""A catalogue of calls to the public functions, with a value for whatever they return.  Used by
c25 and c26; the judgement (equal calls, equal values; objects keep their value) is in Pure.tla."""
import hashlib, itertools, types
import numpy as np
import pandas as pd
from braids import *
from peyl import polymat, tl, permutations as PM, noncrossing as NC, braidsearch as BS, bucketing as BK, jonesrep as JR, show
from peyl.braid import adapt_braid, convert_braid
from peyl.lpoly import LPoly
from peyl.poly import Poly
from peyl.matrix import Matrix
from peyl.permutations import SymmetricGroup


# ---- values ------------------------------------------------------------------
def enc(x):
    """Equal values, equal encodings, whatever the object is made of."""
    if x is None or isinstance(x, (bool, str)): return x
    if isinstance(x, np.bool_): return bool(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, (float, np.floating)): return ['f', repr(float(x))]
    if isinstance(x, bytes): return ['b', x.hex()]
    if isinstance(x, list): return ['l'] + [enc(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple: return ['t'] + [enc(y) for y in x]
    if isinstance(x, (set, frozenset)): return ['s'] + sorted((enc(y) for y in x), key=text)
    if isinstance(x, dict): return ['d'] + sorted(([enc(k), enc(v)] for k, v in x.items()), key=text)
    if isinstance(x, np.ndarray): return ['a', list(x.shape), enc(x.tolist())]
    if isinstance(x, LPoly): return ['L', x.valuation() if not x.is_zero() else 0, [enc(c) for c in x.coeffs]]
    if isinstance(x, Poly): return ['Y', [enc(c) for c in x.coeffs]]
    if isinstance(x, Matrix): return ['M', x.nrows, x.ncols, [[enc(x[i, j]) for j in range(x.ncols)] for i in range(x.nrows)]]
    if isinstance(x, (GNF, DGNF)): return ['B', kind(x), x.n, x.inf(), [enc(f) for f in x.canonical_factors()], list(x.factors)]
    if isinstance(x, Permutation): return ['P', list(x.word)]
    if isinstance(x, NPar): return ['N', x.n, [list(c) for c in x.components()]]
    if isinstance(x, tl.TLDiag): return ['TD', x.top, x.bot, list(x.seq)]
    if isinstance(x, tl.TLMor): return ['TM', x.top, x.bot, sorted(([enc(d), enc(c)] for d, c in x.pairs()), key=text)]
    if isinstance(x, pd.DataFrame): return ['df', [str(c) for c in x.columns], [[enc(v) for v in row] for row in x.itertuples(index=False, name=None)]]
    if isinstance(x, (BS.JonesSummand, JR.JonesCellRep)): return ['R', type(x).__name__, x.n, x.r, x.p]
    if isinstance(x, JR.LKBRep): return ['R', 'LKB', x.n, x.p, str(x.q), str(x.t)]
    if isinstance(x, (types.GeneratorType, map, filter, zip, range)) or hasattr(x, '__next__'): return ['i'] + [enc(y) for y in x]
    return ['?', type(x).__name__, repr(x)]


def text(v): return json.dumps(v, separators=(',', ':'))


def print_of(v):
    """A short name for a value (a prefix, and a digest when it is long)."""
    s = text(v)
    return s if len(s) <= 80 else s[:40] + '...' + hashlib.md5(s.encode()).hexdigest()


def value(x): return print_of(enc(x))


# ---- arguments -----------------------------------------------------------------
class A:
    """An argument: a name, and how to make it."""
    def __init__(self, name, make): self.name, self.make = name, make


def lit(x): return A(text(enc(x)), lambda: _copy(x))


def _copy(x):
    if isinstance(x, list): return [_copy(y) for y in x]
    if isinstance(x, tuple): return tuple(_copy(y) for y in x)
    if isinstance(x, np.ndarray): return x.copy()
    return x


def many(args, as_=list): return A('%s[%s]' % (as_.__name__, ' '.join(a.name for a in args)), lambda: as_(a.make() for a in args))
def braid(n, k, w): return A('%s%d%s' % (k, n, w), lambda: CLS[k].from_artin_word(n, [tuple(x) for x in w]))
def perm(w): return A('P%s' % (w,), lambda: Permutation(tuple(w)))
def npar(n, c): return A('N%d%s' % (n, c), lambda: NPar.from_components(n, c))
def rand(s): return A('rand%s' % s, lambda: random.Random(s))
def lp(lo, c): return A('L%d%s' % (lo, c), lambda: LPoly(lo, tuple(c)))
def poly(c): return A('Y%s' % (c,), lambda: Poly(*c))
def cell(n, r, p): return A('cell%d.%d.%d' % (n, r, p), lambda: JR.JonesCellRep(n=n, r=r, p=p))
def summand(n, r, p): return A('summand%d.%d.%d' % (n, r, p), lambda: BS.JonesSummand(n=n, r=r, p=p))
def lkb(n, p, q, t): return A('lkb%d.%d.%s.%s' % (n, p, q, t), lambda: JR.LKBRep(n, p, LPoly(*q), LPoly(*t)))
def group(n): return A('B%d' % n, lambda: BraidGroup(n))
def sym(n): return A('S%d' % n, lambda: SymmetricGroup(n))
def arr(a, dt): return A('arr%s%s%s' % (dt, list(a.shape), a.tolist()), lambda: a.astype(dt).copy())
def mat(rows): return A('M%s' % [[text(enc(x)) for x in r] for r in rows], lambda: Matrix.from_rows([list(r) for r in rows]))
def diag(n, m, s): return A('diag%d.%d.%s' % (n, m, list(s)), lambda: tl.TLDiag(n, m, tuple(s)))
def mor(n, w): return A('mor%d.%s' % (n, w), lambda: _mor(n, w))
def _mor(n, w):
    x = tl.TLMor.id(n)
    for i, c in w: x = x * (tl.TLMor.e(i, n) if c == 0 else tl.TLMor.id(n) + LPoly(c, (1,)) * tl.TLMor.e(i, n))
    return x


class Call:
    """One call: a name telling function and arguments, and how to do it with given argument objects."""
    def __init__(self, fn, f, *args, rnd=False):
        self.fn, self.f, self.args = fn, f, args
        self.name = fn + '(' + '; '.join(a.name for a in args) + ')'
        if len(self.name) > 160: self.name = self.name[:100] + '...' + hashlib.md5(self.name.encode()).hexdigest()


def result(call, objs):
    """The result object (or None) and its value; generators are run."""
    def go():
        x = call.f(*objs)
        if isinstance(x, (types.GeneratorType, map, filter, zip)) or hasattr(x, '__next__'): x = list(x)
        return x
    signal.alarm(60)
    try:
        x = go()
        v = enc(x)
        signal.alarm(0)
        return x, print_of(v)
    except Hang:
        return None, 'no result after 60 s'
    except KeyboardInterrupt:
        raise
    except BaseException as e:     # noqa: raising is a result too
        signal.alarm(0)
        return None, 'raised ' + type(e).__name__
    finally:
        signal.alarm(0)


# ---- the catalogue ---------------------------------------------------------------
def turns(*gens):
    """Run generators in turns; all they gave, one after the other."""
    out = [[] for _ in gens]
    live = [iter(g) for g in gens]
    going = True
    while going:
        going = False
        for i, g in enumerate(live):
            for y in itertools.islice(g, 2 + i):
                out[i].append(y)
                going = True
    return out


def legacy(n, r, p, cap, keys, seed, reserv):
    t = BS.Tracker(rep=BS.JonesSummand(n=n, r=r, p=p), bucket_size=cap, bucket_keys=keys, criterion=lambda x: x['length'] >= 1, rand=random.Random(seed))
    out = []
    def show(): out.append([[list(map(int, b)), list(t.bucket_braids[b]), t.bucket_images[b][:len(t.bucket_braids[b])]] for b in sorted(t.buckets)])
    t.bootstrap_exhaustive(upto_length=1 if n > 3 else 2)
    show()
    for b in sorted(t.buckets):
        if b[0] == (1 if n > 3 else 2): t.nf_descendants(b, length=1)
    show()
    B = sorted(t.buckets)
    t.bucket_product(B[-1], B[0])
    t.substrings(B[0])
    out.append(t.stats().sort_values(list(keys), ignore_index=True))
    show()
    t.discard_bucket(B[0])
    show()
    return out


def modern(n, r, p, kind_, cap, method, nf, seed):
    S = BK.Stats
    keys = [S.CanonicalLength, S.ProjectiveLength] + ([S.NFKind] if nf else [])
    t = BK.Tracker(JR.JonesCellRep(n=n, r=r, p=p), cap, keys, [S.NonzeroTerms], method, S.NonzeroTerms if method != 'Uniform' else None, random.Random(seed))
    L = 1 if n > 3 else 2
    t.bootstrap_exhaustive(CLS[kind_], L)
    out = []
    def show(): out.append([[tag, *t.bucket_braids_images(tag)] for tag in sorted(t.buckets)])
    show()
    for tag in sorted(t.buckets):
        if tag[0] == L: t.nf_descendants(tag, length=1)
    show()
    out.append(t.stats())
    t.discard_bucket(sorted(t.buckets)[0])
    show()
    return out


THEMES = {
    'braids': lambda f: f.split('.')[0].split('%')[0].rstrip('0123456789-') in ('G', 'D', 'mul', 'inv', 'pow', 'convert', 'word', 'magma', 'decomposition', 'suffixes', 'descendants', 'eq', 'repr', 'store', 'stored', 'samplebp', 'bkl', 'group', 'lift',
                                                                             'fromnpar', 'pair', 'permseq', 'nparseq', 'list of two suffixes', 'bad word', 'bad product') or f.startswith('list('),
    'perms': lambda f: f[0] == 'p' and f[:2] in ('pm', 'pa') and f[2] in 'ul' or f.split('%')[0].rstrip('0123456789') in ('sym', 'fromcox', 'fromcycles', 'tuples', 'npar', 'ncall', 'ncfrom', 'ncperm', 'bad perm', 'bad npar', 'bkl', 'G.gens', 'D.gens'),
    'algebra': lambda f: f.rstrip('0123456789') in ('lpoly', 'lpmix', 'lpdiv', 'quantum', 'poly', 'cyclotomic', 'chebyshev', 'matrix', 'lmatrix') or f.startswith('pm.'),
    'reps': lambda f: f.startswith('rep.') or f in ('bad rep', 'bad cell'),
    'sums': lambda f: f.startswith('sum.'),
    'lkbs': lambda f: f.startswith('lkb') or f.startswith('rep.p'),
    'diagrams': lambda f: f.startswith('tl.') or f == 'rep.basis' or f == 'sum.gens',
    'trackers': lambda f: f in ('legacy', 'modern') or f.startswith('sum.'),
    'all': lambda f: True,
}


def catalogue(r, size=400, theme='all'):
    """Calls, several for every function of the theme, on a small palette of groups and moduli."""
    C = []
    only = THEMES[theme]
    def c(fn, f, *args):
        if only(fn): C.append(Call(fn, f, *args))
    ns = r.choice([[2, 3], [3, 4], [3, 4], [4, 5], [3], [4], [2, 4]]) if theme != 'all' else [2, 3, 4, 5]
    CELLS = [(n, x, p) for n in ns for x in range(n // 2 + 1) for p in ((0, 2, 3, 5) if n < 5 else (0, 3))]
    TRACK = r.choice([[(3, 1, 2), (3, 1, 3), (3, 0, 2)], [(4, 1, 2), (4, 2, 2), (4, 1, 0)], [(3, 1, 2), (4, 1, 2)]])
    def word(n, L=6): return [[r.randrange(n - 1), r.choice([1, 1, -1])] for _ in range(r.randrange(L + 1))]
    def pos(n, L=6): return [[r.randrange(n - 1), 1] for _ in range(r.randrange(L + 1))]
    def wperm(n): w = list(range(n)); r.shuffle(w); return w
    def poly1(): return lp(r.randrange(-3, 3), [r.choice([1, -1, 2])] + [r.randrange(-2, 3) for _ in range(r.randrange(3))])
    def tensor(b=True):
        d = r.randrange(1, 4)
        a = np.array([[[r.choice([0, 0, 1, -1, 2]) for _ in range(r.randrange(3, 4))] for _ in range(d)] for _ in range(d)])
        if b: a = np.stack([a, np.roll(a, 1, axis=0)])
        return arr(a, r.choice(['int32', 'int64']))
    # a few representations, so that one object is asked for many things
    if theme in ('reps', 'sums'):
        big = [x for x in CELLS if x[0] >= 3 and x[1] >= 1] or CELLS
        CELLS = [r.choice(big), r.choice(big), r.choice(CELLS)]
    def cellp(n=None):
        return r.choice(CELLS)
    def anybraids(n, k, m): return many([braid(n, k, word(n, 4)) for _ in range(m)])
    def pure_len(n, k, L, m): return A('len%d%s%d.%d.%d' % (n, k, L, m, (s := r.randrange(10**6))), lambda: [of_len(n, k, L if n > 2 else 0, s + i) for i in range(m)])
    while len(C) < size:
        n = r.choice(ns); k = r.choice('GD'); m = r.choice(ns)
        W = word(n); b = braid(n, k, W); b2 = braid(n, k, word(n)); wl = lit([tuple(x) for x in W])
        kc = CLS[k]
        # braids
        c(k + '.from_word', lambda w, n=n, kc=kc: kc.from_artin_word(n, w), wl)
        c('mul', lambda x, y: x * y, b, b2)
        c('inv', lambda x: x.inv(), b)
        e = r.randrange(-3, 5); c('pow%d' % e, lambda x, e=e: x ** e, b)
        c('convert', lambda x: x.to_DGNF() if kind(x) == 'G' else x.to_GNF(), b)
        c('word', lambda x: x.artin_word(), b)
        c('magma', lambda x: x.magma_artin_word(), b)
        c('decomposition', lambda x: (x.canonical_decomposition(), x.inf(), x.sup(), x.canonical_length()), b)
        c('suffixes1', lambda x: x.nf_suffixes(1), b)
        c('descendants', lambda x: x.nf_descendants(), b)
        c('eq', lambda x, y: (x == y, hash(x) == hash(y)), b, b2)
        c('repr', lambda x: (repr(x), x._repr_latex_()), b)
        c('store', lambda x: adapt_braid(x), b)
        c('stored', lambda x: convert_braid(adapt_braid(x).encode()), b)
        L = r.randrange(3) if n < 5 else r.randrange(2)
        c(k + '.all%d.%d' % (n, L), lambda n=n, kc=kc, L=L: kc.all_of_length(n, L))
        c(k + '.count%d.%d' % (n, L + 5), lambda n=n, kc=kc, L=L: kc.count_all_of_length(n, L + 5))
        c(k + '.sample%d' % n, lambda g, n=n, kc=kc: [kc.sample(n, 4, g) for _ in range(4)], rand(r.randrange(99)))
        c('samplebp%d' % n, lambda g, n=n: [BraidGroup(n).sample_braid_perm(3, rand=g) for _ in range(4)], rand(r.randrange(99)))
        n2 = r.choice([n, r.choice(ns)]); k2 = r.choice([k, 'G', 'D']); L = r.choice([1, 2, 3] if n == 3 else [2] if k == 'D' or n < 4 else [1]); L2 = r.choice([L, L, 1]) if n2 < 4 else 1
        one = ['list(all %s%d.%d)' % (k, n, L), 'list(all %s%d.%d)' % (k2, n2, L2)]
        c(' and '.join(one), lambda n=n, kc=kc, L=L, n2=n2, kc2=CLS[k2], L2=L2: [list(kc.all_of_length(n, L)), list(kc2.all_of_length(n2, L2))])
        c(' and '.join(one), lambda n=n, kc=kc, L=L, n2=n2, kc2=CLS[k2], L2=L2: turns(kc.all_of_length(n, L), kc2.all_of_length(n2, L2)))
        c('list of two suffixes', lambda x, y: [list(x.nf_suffixes(2 if x.n < 4 else 1)), list(y.nf_suffixes(2 if y.n < 4 else 1))], b, b2)
        c('list of two suffixes', lambda x, y: turns(x.nf_suffixes(2 if x.n < 4 else 1), y.nf_suffixes(2 if y.n < 4 else 1)), b, b2)
        c(k + '.gens%d' % n, lambda n=n, kc=kc: kc.artin_gens(n))
        c('bkl%d' % n, lambda n=n: DGNF.bkl_gens(n))
        c('group', lambda g: (g.id(), g.gens(), g.invs(), g.bkl_gens()), group(n))
        c('lift', lambda g, w: g.positive_lift(w), group(n), perm(wperm(n)))
        c('fromnpar', lambda g, w: g.from_npar(w), group(n), npar(n, r.choice(ncs(n))))
        c('pair', lambda g, p: g.from_gnf_pair(p), group(n), lit((r.randrange(-2, 3), [tuple(wperm(n)) for _ in range(r.randrange(3))])))
        c('permseq%d' % n, lambda ps, n=n: GNF.from_perm_seq(n, ps), many([perm(wperm(n)) for _ in range(r.randrange(4))]))
        c('nparseq%d' % n, lambda ps, n=n: DGNF.from_npar_seq(n, ps), many([npar(n, r.choice(ncs(n))) for _ in range(r.randrange(4))]))
        # permutations and noncrossing partitions
        p, q = perm(wperm(n)), perm(wperm(n))
        c('pmul', lambda x, y: x * y, p, q)
        c('pall', lambda x: (x.length(), x.inv(), x.disjoint_cycles(), x.cycle_type(), x.shortlex(), x.artin_word(), x.right_descent_set(), x.left_descent_set()), p)
        c('sym', lambda s: (s.id(), s.longest_element(), s.cox_gens(), list(s.reflections()), list(s.elements())), sym(r.choice([1, 2, 3, 4])))
        c('fromcox', lambda s, w: s.from_cox(w), sym(n), lit([x[0] for x in W]))
        c('fromcycles', lambda s, w: s.from_cycles(w), sym(n), lit([list(range(n))[::r.choice([1, -1])]]))
        w1 = wperm(n); w2 = wperm(n)
        c('tuples', lambda x, y: (PM.compose(x, y), PM.inverse(x), PM.shortlex(x), PM.length(x), PM.right_descent_set(x), PM.left_descent_set(y), PM.cycle_type(x), PM.parity(y), PM.disjoint_cycles(x)), lit(tuple(w1)), lit(tuple(w2)))
        nc = npar(n, r.choice(ncs(n)))
        c('npar', lambda x: (x.components(), sorted(x.edges()), x.to_permutation(), x.left_complement(), x.right_complement(), x.artin_word()), nc)
        c('ncall%d' % n, lambda n=n: NPar.all_of_size(n))
        c('ncfrom%d' % n, lambda x, n=n: NPar.from_components(n, x), lit([list(y) for y in r.choice(ncs(n))]))
        c('ncperm', lambda x: NPar.from_permutation(x.to_permutation()), nc)
        # polynomials and matrices
        f, g = poly1(), poly1()
        c('lpoly', lambda x, y: (x + y, x - y, x * y, -x, x ** 2, x.valuation(), x.degree(), x == y, hash(x) == hash(y), str(x), x.is_unit()), f, g)
        c('lpmix', lambda x, y: (x + 1, 2 * x, x - 3, 1 - x), f, g)
        c('lpdiv', lambda x, y: (x * y) / y, f, g)
        c('quantum%d' % n, lambda n=n: LPoly.quantum_integer(n))
        y1, y2 = poly([r.randrange(-3, 4) for _ in range(r.randrange(1, 5))]), poly([r.randrange(-3, 4) for _ in range(3)] + [1])
        c('poly', lambda x, y: (x + y, x - y, x * y, divmod(x, y), -x, x ** 2, x.deg(), str(x)), y1, y2)
        i = r.randrange(1, 13); c('cyclotomic%d' % i, lambda i=i: Poly.cyclotomic(i)); c('chebyshev%d' % i, lambda i=i: Poly.chebyshevT(i))
        d = r.randrange(1, 4)
        M1, M2 = (mat([[r.randrange(-3, 4) for _ in range(d)] for _ in range(d)]) for _ in range(2))
        c('matrix', lambda x, y: (x * y, x - y, x ** 3, x.transpose(), x.trace(), 3 * x, x == y, x.rows(), x.is_symmetric(), str(x)), M1, M2)
        M3 = mat([[LPoly(r.randrange(-2, 3), (r.choice([1, -1, 2]), 1)) for _ in range(d)] for _ in range(d)])
        c('lmatrix', lambda x: (x * x, x.transpose(), x.trace(), x ** 2, x - x), M3)
        # tensors
        T1, T2 = tensor(), tensor(False)
        for fn in ('trim', 'trim_left', 'projectivise', 'degmax', 'valmin', 'nz_terms', 'rhogap', 'efflen', 'projlen', 'proj_starts_ends'):
            c('pm.' + fn, getattr(polymat, fn), r.choice([T1, T2]))
        c('pm.projrank', lambda x: polymat.projrank(x, 2), T2)
        c('pm.mul', lambda x: polymat.mul(x, x), T1)
        c('pm.pack', lambda x, y: polymat.pack([x, x]), T2, T2)
        c('pm.concat', lambda x: polymat.concatenate([x, x]), T1)
        c('pm.to', lambda x: polymat.to_matrix(x), T2)
        c('pm.from', lambda x: polymat.from_matrix(x, proj=True), M3)
        c('pm.zeropad', lambda x: polymat.zeropad(x, 5), T1)
        # representations
        n4, r4, p4 = cellp()
        R = cell(n4, r4, p4); S = summand(n4, r4, p4)
        kk = r.choice('GD'); kk = 'G' if n4 == 5 else kk
        w4 = lit([tuple(x) for x in word(n4)])
        b4 = braid(n4, kk, word(n4, 5))
        same = pure_len(n4, kk, r.randrange(3), 3)
        samG = pure_len(n4, 'G', r.randrange(3), 3)
        c('rep.gens', lambda R: R.artin_gens_invs(), R)
        c('rep.pgens', lambda R: R.polymat_artin_gens_invs(), R)
        c('rep.ids', lambda R: (R.id(), R.polymat_id(), R.dimension(), repr(R)), R)
        c('rep.word', lambda R, w: R.evaluate_artin_word(w), R, w4)
        c('rep.pword', lambda R, w: R.polymat_evaluate_artin_word(w), R, w4)
        c('rep.braid', lambda R, x: R.evaluate(x), R, b4)
        c('rep.pany', lambda R, x: R.polymat_evaluate(x), R, b4)
        c('rep.pbraid', lambda R, x: R.polymat_evaluate_braid(x), R, b4)
        c('rep.batch', lambda R, x: R.polymat_evaluate_braids_of_same_length(x), R, same)
        c('rep.divs', lambda R, ks: [[R.polymat_evaluate_braid(x) for x in CLS[k].all_of_length(R.n, 1)] for k in ks], R, lit(r.choice(['G', 'D', 'GD', 'DG']) if n4 < 5 else 'D'))
        c('rep.mul', lambda R, x: R.polymat_mul(R.polymat_evaluate_braid(x), R.polymat_id()), R, b4)
        c('rep.basis', lambda R: R.tl_basis(), R)
        c('sum.gens', lambda S: (S.artin_gens_invs(), S.id(), S.dimension(), repr(S)), S)
        c('sum.one', lambda S, x: BS.evaluate_braid_factors(S, x), S, braid(n4, 'G', word(n4, 5)))
        c('sum.batch', lambda S, x: BS.evaluate_braids_of_same_length(S, x), S, samG)
        c('sum.prefixes', lambda S, x: BS.evaluate_prefixes_of_same_length(S, x), S, samG)
        c('sum.many', lambda S, x: BS.evaluate_braids(S, x), S, anybraids(n4, 'G', 4))
        c('sum.sample', lambda S, g: BS.sample_braids_images(S, 2, 3, rand=g), S, rand(r.randrange(99)))
        c('sum.sampleupto', lambda S, g: BS.sample_braids_images_upto_length(S, 0, 2, 2, rand=g), S, rand(r.randrange(99)))
        c('sum.below1', lambda S: BS.all_of_length_below_1(S, 1), summand(*((n4, r4, p4) if n4 in (3, 4) else (3, 1, p4))))
        c('sum.frame', lambda S, x: BS.braids_images_to_dataframe(x, BS.evaluate_braids_of_same_length(S, x)), S, samG)
        if r.random() < .6 or theme == 'lkbs':
            nk = r.choice([2, 3, 3, 4]); K = lkb(nk, r.choice([0, 0, 5]), (r.choice([1, -1, 2]), (1,)), (r.choice([1, -1, 3]), (r.choice([1, -1]),)))
            c('lkb', lambda K: (K.artin_gens_invs(), K.dimension(), K.id()), K)
            c('lkb.word', lambda K, w: (K.evaluate_artin_word(w), K.polymat_evaluate_artin_word(w)), K, lit([tuple(x) for x in word(nk, 4)]))
            c('lkb.braid', lambda K, x: (K.evaluate(x), K.polymat_evaluate_braid(x)), K, braid(nk, r.choice('GD'), word(nk, 3)))
        # diagrams
        nd = r.randrange(1, 5)
        D1, D2 = (diag(nd, nd, r.choice(tl.tl_basis(nd, nd)).seq) for _ in range(2))
        c('tl.diag', lambda x, y: (x * y, x @ y, x.flip(), tl.through_strands(x), x == y), D1, D2)
        c('tl.basis%d' % nd, lambda nd=nd: tl.tl_basis(nd, nd))
        nb, rb = r.randrange(6), r.randrange(3); c('tl.cell%d.%d' % (nb, rb), lambda nb=nb, rb=rb: tl.cell_basis(nb, rb))
        no = r.randrange(2, 5)
        u, v = mor(no, [[r.randrange(no - 1), r.choice([0, 1, -1])] for _ in range(r.randrange(3))]), mor(no, [[r.randrange(no - 1), r.choice([0, 1])] for _ in range(r.randrange(3))])
        c('tl.mor', lambda x, y: (x * y, x + y, x - y, -x, x.flip(), x == y, x.is_zero(), list(x.support()) and sorted(enc(s) for s in x.support())), u, v)
        c('tl.trace', lambda x: x.trace(), u)
        c('tl.quot', lambda x, s: x.quotient(s), u, lit(no - 2))
        rr = r.randrange(no // 2 + 1)
        c('tl.left%d' % rr, lambda x, no=no, rr=rr: tl.TLCell(no, rr).project_leftmult_matrix(x), u)
        c('tl.tlcell', lambda a, no=no, rr=rr: (tl.TLCell(no, rr).dim(), tl.TLCell(no, rr).basis_diagrams(), tl.TLCell(no, rr).trace_scalar()), lit((no, rr)))
        # trackers
        if r.random() < .5:
            nt, rt, pt = r.choice(TRACK); cap = r.choice([2, 5, 40]); sd = r.randrange(50)
            c('legacy', lambda a: legacy(*a[:4], keys=('length', 'projlen'), seed=a[4], reserv=1), lit((nt, rt, pt, cap, sd)))
            c('modern', lambda a: modern(*a), lit((nt, rt, pt, r.choice('GD'), cap, r.choice(['Uniform', 'Uniform', 'GreedyFirst', 'AChao', 'EvictMin']), r.randrange(2), sd)))
        # calls that cannot succeed
        c('bad word', lambda w, n=n, kc=kc: kc.from_artin_word(n, w), lit([(n + 3, 1)]))
        c('bad product', lambda x, y: x * y, b, braid(7 - n, k, word(7 - n)))
        c('bad perm', lambda x: Permutation(x), lit((0, 0, 2)))
        c('bad npar', lambda x: NPar.from_components(4, x), lit([[0, 2], [1, 3]]))
        c('bad rep', lambda R, x: R.evaluate(x), cell(3, 1, p4), braid(4, 'G', word(4)))
        c('bad cell', lambda x: JR.JonesCellRep(n=3, r=x, p=0), lit(2))
    C = C[:2 * size]
    r.shuffle(C)
    return C[:size]


def of_len(n, k, L, s):
    b = CLS[k].sample(n, L, random.Random(s))
    pw = random.Random(s + 7).randrange(-2, 3)
    return type(b)(n, pw, b.factors)
