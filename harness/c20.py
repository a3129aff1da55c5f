"""Permutations."""
import json
from common import *
from peyl import permutations as pm
from peyl.permutations import Permutation, SymmetricGroup


def tup(x):
    if not isinstance(x, tuple): raise Malformed('not a tuple: %r' % (x,))
    return ints(x)


def flag(b):
    if b is not True and b is not False: raise Malformed('not a boolean: %r' % (b,))
    return int(b)


def setof(s):
    if not isinstance(s, (set, frozenset)): raise Malformed('not a set')
    return sorted(ints(s))


def unary(w, seq=tuple):
    """seq: the sequence type handed to the functions on words."""
    def f():
        p, v, n = Permutation(tuple(w)), seq(w), len(w)
        G = SymmetricGroup(n)
        return dict(inv=[tup(pm.inverse(v)), enc_perm(p.inv())], len=[integer(pm.length(v)), integer(p.length())], par=integer(pm.parity(v)),
                    cyc=[[tup(c) for c in pm.disjoint_cycles(v)], [tup(c) for c in p.disjoint_cycles()]], ct=[tup(pm.cycle_type(v)), tup(p.cycle_type())],
                    rd=[setof(pm.right_descent_set(v)), setof(p.right_descent_set())], ld=[setof(pm.left_descent_set(v)), setof(p.left_descent_set())],
                    ird=[[flag(pm.is_right_descent(v, i)) for i in range(n - 1)], [flag(p.is_right_descent(i)) for i in range(n - 1)]],
                    ild=[[flag(pm.is_left_descent(v, i)) for i in range(n - 1)], [flag(p.is_left_descent(i)) for i in range(n - 1)]],
                    sl=[tup(pm.shortlex(v)), tup(p.shortlex())], aw=[ints(x) for x in p.artin_word()],
                    id=flag(pm.is_identity(v)), w0=flag(pm.is_longest_element(v)), dc=flag(pm.is_descending_cycles(v)), pc=flag(pm.is_parallel_descending_cycles(v)),
                    back=[tup(pm.from_cox(n, pm.shortlex(v))), enc_perm(G.from_cox(p.shortlex())), enc_perm(G.from_cycles(p.disjoint_cycles())), enc_perm(p.inv().inv())],
                    grp=integer(p.group().n))
    return attempt(f, lambda d: d)[1]


def mul(x, y, seq=tuple):
    return attempt(lambda: dict(p=[tup(pm.compose(seq(x), seq(y))), enc_perm(Permutation(tuple(x)) * Permutation(tuple(y)))]), lambda d: d)[1]


def either(x, y):
    """Both calls must be refused for the pair to count as refused: one that is accepted is what is reported."""
    a, b = attempt(lambda: mulw(x, y))[1], attempt(lambda: Permutation(tuple(x)) * Permutation(tuple(y)))[1]
    return a if a['ok'] else b


def mulw(x, y):
    return pm.compose(tuple(x), tuple(y))


def replay(out, inp, part, parts):
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            def step():
                x = Permutation(tuple(e['from']))
                if e['op'] == 'inv': y = x.inv()
                else:
                    t = Permutation(pm.transposition(e['n'], *e['r'])) if no % 2 else SymmetricGroup(e['n']).from_cycle(e['r'])
                    y = x * t if e['op'] == 'right' else t * x
                return dict(w=enc_perm(y), len=integer(y.length()), sl=tup(y.shortlex()), cyc=[tup(c) for c in y.disjoint_cycles()],
                            rd=setof(y.right_descent_set()), ld=setof(y.left_descent_set()), par=integer(pm.parity(y.word)))
            res = attempt(step, lambda x: dict(x=x))[1]
            out.replayed += 1
            if res != dict(ok=1, x=e['to']): out.bad.append(dict(run='edge%d' % no, clause='replayed step: got %s, specification says %s' % (res, e['to']), event=e))
            if no < 1: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    q = tier == 'quick'
    # all of the small groups
    for n in range(0, 5 if q else 6):
        run = out.new('S%d' % n, n=n)
        P = all_perms(n)
        for i, w in enumerate(P):
            if i % parts != part: continue
            run.log('un', w=list(w), res=unary(w, [tuple, list][i // parts % 2]))
            for y in P:
                if n < 5 or sum(a * b for a, b in zip(w, y)) % 5 == 0: run.log('mul', x=list(w), y=list(y), res=mul(w, y))
    r = rng(seed, 'c20', part)
    for n in range(0, 15):
        if n % parts != part: continue
        G = lambda: SymmetricGroup(n)
        run = out.new('group%d' % n, n=n)
        def grp():
            g = G()
            return dict(id=[tup(pm.identity(n)), enc_perm(g.id())], w0=[tup(pm.longest_element(n)), enc_perm(g.longest_element())], gens=[enc_perm(x) for x in g.cox_gens()],
                        refl=[enc_perm(x) for x in g.reflections()], els=[enc_perm(x) for x in g.elements()] if n <= (5 if q else 6) else [])
        run.log('grp', n=n, res=attempt(grp, lambda d: d)[1])
    # larger permutations
    for j in range(25 if q else 150):
        n = r.choice([5, 6, 6, 7, 8, 9, 11, 14, 20, 33])
        run = out.new('rand%d.%d' % (part, j), n=n)
        def rp():
            u, w = r.random(), list(range(n))
            if u < .4: r.shuffle(w)
            elif u < .6: w = list(perm_word(n, [r.randrange(n - 1) for _ in range(r.randrange(6))]))
            elif u < .75: w = w[::-1]; w = [w[i] for i in perm_word(n, [r.randrange(n - 1) for _ in range(r.randrange(4))])]
            elif u < .9:
                k = r.randrange(n); w = w[k:] + w[:k]
            else:      # descending cycles, perhaps crossing
                r.shuffle(w)
                c, v, i = w[:], list(range(n)), 0
                while i < n:
                    b = sorted(c[i:i + r.randrange(1, 5)]); i += len(b)
                    for a, y in zip(b, b[-1:] + b[:-1]): v[a] = y
                w = v
            return w
        x, y, z = rp(), rp(), rp()
        if n <= 14: run.log('un', w=x, res=unary(x, r.choice([tuple, list])))
        for a, b in ((x, y), (y, x), (x, x), (y, z)): run.log('mul', x=a, y=b, res=mul(a, b, r.choice([tuple, list])))
        m = r.choice([n - 1, n + 1])
        run.log('mul', x=x, y=list(range(m)), res=either(x, range(m)))
        c = [r.randrange(n - 1) for _ in range(r.randrange(12))]
        if r.random() < .3: c.insert(r.randrange(len(c) + 1), r.choice([-1, n - 1, n, n + 5]))
        def cox():
            a, b = attempt(lambda: tup(pm.from_cox(n, c)), lambda v: dict(v=v))[1], attempt(lambda: enc_perm(SymmetricGroup(n).from_cox(c)), lambda v: dict(v=v))[1]
            if a['ok'] + b['ok'] == 1: return dict(ok=1, p=[a.get('v', []), b.get('v', [])])
            return dict(ok=1, p=[a['v'], b['v']]) if a['ok'] else a
        run.log('cox', n=n, c=c, res=cox())
        cs = []
        for _ in range(r.randrange(1, 5)):
            cs.append(r.sample(range(n), r.randrange(1, min(n, 6))))
        if r.random() < .3: cs[r.randrange(len(cs))].append(r.choice([-1, n, cs[0][0], n + 3]))
        if r.random() < .3: cs = cs[:1]
        f = (lambda: SymmetricGroup(n).from_cycle(tuple(cs[0]))) if len(cs) == 1 and r.random() < .7 else (lambda: SymmetricGroup(n).from_cycles([tuple(c) for c in cs]))
        run.log('cycs', n=n, cs=cs, res=attempt(f, lambda v: dict(p=enc_perm(v)))[1])
        i, k = r.randrange(-1, n + 1), r.randrange(-1, n + 1)
        run.log('tr', n=n, i=i, j=k, res=attempt(lambda: tup(pm.transposition(n, i, k)), lambda v: dict(p=v))[1])
        # what is and is not a permutation
        for _ in range(6):
            s = list(r.choice([x, y, z]))
            u = r.random()
            if u < .3: s[r.randrange(n)] = s[r.randrange(n)]
            elif u < .4: s[r.randrange(n)] = n
            elif u < .5: s = [a + 1 for a in s]
            elif u < .6: s = [a - 1 for a in s]
            elif u < .7: del s[r.randrange(n)]
            elif u < .8: s[s.index(0)] = n - 1; s[s.index(n - 1)] = 0; s[r.randrange(n)] = r.choice([0, n - 1, n // 2])
            elif u < .9: a, b = r.sample(range(n), 2); d = r.choice([1, 1, 2]); s[a] += d; s[b] -= d
            run.log('isp', s=s, made=attempt(lambda: Permutation(tuple(s)))[1]['ok'], res=attempt(lambda: flag(pm.is_permutation(r.choice([tuple, list])(s))), lambda b: dict(b=b))[1])
    # pairs of descending cycles, parallel or not
    import itertools
    k = 0
    for n, a, b in [(8, 2, 2), (9, 2, 2), (7, 3, 2), (7, 2, 3), (8, 3, 3)] + ([] if q else [(12, 2, 2), (9, 3, 2), (9, 4, 3), (9, 3, 4), (10, 3, 3), (9, 3, 5)]):
        run = out.new('two%d.%d.%d' % (n, a, b), n=n)
        ws = []
        for A in itertools.combinations(range(n), a):
            for B in itertools.combinations(sorted(set(range(n)) - set(A)), b):
                k += 1
                if k % parts != part: continue
                w = list(range(n))
                for c in (A, B):
                    for i in range(len(c)): w[c[i]] = c[i-1]
                ws.append(w)
        run.log('two', ws=ws, res=attempt(lambda: dict(f=[[flag(pm.is_descending_cycles(w)), flag(pm.is_parallel_descending_cycles(tuple(w)))] for w in ws]), lambda d: d)[1])
    if part == 0:
        run = out.new('words', n=3)
        for m in range(0, 6 if q else 7):
            A = range(-1, m + 1) if m < 5 else range(m)
            def accepted(m=m, A=A):
                S = list(itertools.product(A, repeat=m))
                return dict(isp=[list(s) for s in S if flag(pm.is_permutation(s))], made=[list(s) for s in S if attempt(lambda: Permutation(s))[1]['ok']])
            run.log('accept', n=m, res=attempt(accepted, lambda d: d, limit=100)[1])
