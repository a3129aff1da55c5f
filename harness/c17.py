"""Braids stored as text and in database columns."""
import re, sqlite3, subprocess
from braids import *
from peyl.braid import adapt_braid, convert_braid, register_sqlite3_adapters
OTHER = ['x', '0.5', "'a'", 'None', '[', ']', '*']
NAMES = {'G': 'GNF', 'D': 'DGNF'}
SIZES = {'G': 5, 'D': 5}


def raw(b):
    t = adapt_braid(b)
    if not isinstance(t, str): raise Malformed('stored form is not text')
    return t.encode('utf-8')


def tokens(text):
    out = []
    for x in re.findall(r"\s+|DGNF|GNF|-?\d+|\(|\)|,|.", text):
        if x.isspace(): continue
        out.append(['G', 0] if x == 'GNF' else ['D', 0] if x == 'DGNF' else [x, 0] if x in '(),' else ['int', int(x)] if re.fullmatch(r'-?\d+', x) else ['other', 1])
    return out


def text(T):
    s = ''
    last = ''
    for ty, v in T:
        x = NAMES.get(ty) or (str(v) if ty == 'int' else OTHER[v - 1] if ty == 'other' else ty)
        s += (' ' if last == ',' or ty == 'int' and last in ('int', 'other') or ty == 'other' and last in ('int', 'other') else '') + x
        last = ty
    return s


def numbers():
    """Which number stands for which divisor, and whether the text has the documented form."""
    num, form = {}, True
    for k in 'GD':
        num[k] = [[]]
        for n in range(2, SIZES[k] + 1):
            D = [list(p) for p in all_perms(n)] if k == 'G' else ncs(n)
            triv = list(range(n)) if k == 'G' else [[i] for i in range(n)]
            P = [triv] * len(D)
            for d in D:
                b = (GNF.from_perm(Permutation(tuple(d))) if k == 'G' else DGNF.from_npar(NPar.from_components(n, d)))
                if b.canonical_length() != 1: continue
                T = tokens(raw(b).decode())
                i = [v for ty, v in T if ty == 'int']
                if T[:1] + T[1:2] != [[k, 0], ['(', 0]] or len(i) != 3 or i[0] != n or i[1] != 0 or not 0 <= i[2] < len(P): form = False
                else: P[i[2]] = d
            num[k].append(P)
    return num, form


def same(x, b):
    return dict(b=enc_braid(b), eq=int((x == b) is True), ne=int((x != b) is True), h=int(hash(x) == hash(b)), s=int(raw(b) == raw(x)), null=0)


NULL = dict(null=1)


def cells(run, m, as_, r, work):
    """The registers as_ (0: NULL) in a column; read back, looked up, also by another process."""
    rows = [m.regs[a - 1] if a else None for a in as_]
    path = os.path.join(work, 'c17_%s.sqlite' % r.random()) if r.random() < .6 else ':memory:'
    decl = r.choice(['BRAID', 'BRAID', 'braid', 'BRAID NOT NULL', 'Braid']) if None not in rows else r.choice(['BRAID', 'braid'])
    con = []
    def fill():
        register_sqlite3_adapters()
        c = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)
        con.append(c)
        c.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, x INTEGER, b %s, plain)' % decl)
        c.executemany('INSERT INTO t (b, plain) VALUES (?, ?)', [(b, b) for b in rows])
        c.commit()
        if path != ':memory:' and r.random() < .7:
            c.close()
            con[0] = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)
    def reads(q):
        def f():
            if not con: fill()
            return [x[0] for x in con[0].execute(q)]
        return f
    back = lambda L: dict(rows=[dict(NULL) if y is None else same(rows[i] if i < len(rows) and rows[i] is not None else y, y) for i, y in enumerate(L)])
    m.query('rows', reads('SELECT b FROM t ORDER BY id'), back, **{'as': as_})
    m.query('rows', reads('SELECT plain AS "p [BRAID]" FROM t ORDER BY id'), back, **{'as': as_})
    m.query('distinct', reads('SELECT count(DISTINCT b) FROM t'), lambda L: dict(c=integer(L[0])), **{'as': as_})
    for a in r.sample(range(1, len(m.regs) + 1), min(3, len(m.regs))):
        m.query('find', lambda: [x[0] for x in con[0].execute('SELECT id FROM t WHERE b = ? ORDER BY id', (m.regs[a - 1],))], lambda L: {'is': ints(L)}, a=a, **{'as': as_})
    if path != ':memory:':
        def other():
            e = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 10**6)))
            p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c17.py'), path, str(r.randrange(4))], capture_output=True, text=True, timeout=60, env=e)
            if p.returncode: raise RuntimeError('another process cannot read the braids: ' + p.stderr[-300:])
            L = json.loads(p.stdout)
            for i, x in enumerate(L):
                if not x['null']: x['s'] = int(x['text'] == raw(rows[i]).decode()) if i < len(rows) and rows[i] is not None else 0
            return L
        m.query('rows', other, lambda L: dict(rows=L), **{'as': as_})
    if con: con[0].close()
    if path != ':memory:' and os.path.exists(path): os.remove(path)


def child(path, warm):
    """The reading process: its own history first."""
    for n in [(), (3,), (5, 4), (2, 5)][int(warm)]:
        (GNF.from_artin_word(n, [(0, 1)]) * GNF.from_artin_word(n, [(n - 2, -1)])).to_DGNF()
    register_sqlite3_adapters()
    c = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    L = []
    for b, in c.execute('SELECT b FROM t ORDER BY id'):
        L.append(dict(NULL) if b is None else dict(same(b, b), text=raw(b).decode()))
    print(json.dumps(L))


def enc_any(b):
    try: return dict(b=dict(enc_nf(b)))
    except Exception as e: return dict(b=dict(k='?', n=0, pow=0, fs=[], why=str(e)[:80]))


def parse(run, T, via=None):
    s = text(T)
    f = (lambda: convert_braid(s.encode())) if via is None else (lambda: via.execute('SELECT ? AS "b [BRAID]"', (s,)).fetchone()[0])
    run.log('parse', T=T, text=s, res=attempt(f, enc_any, 10)[1])


def mutated(r, T):
    T = [list(x) for x in T]
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(T))
        u = r.random()
        n = [j for j, x in enumerate(T) if x[0] == 'int'][:1]
        if u < .5:
            J = [j for j, x in enumerate(T) if x[0] == 'int']
            if J:
                j = r.choice(J)
                T[j] = ['int', r.choice([-3, 0, 2, 3, 4, 5]) if [j] == n else r.choice([-7, -2, -1, 0, 1, 2, 3, 5, 13, 14, 22, 23, 24, 41, 42, 118, 119, 120, 131, 132, 99999])]
        elif u < .6: T[0] = ['D' if T[0][0] == 'G' else 'G', 0]
        elif u < .7: del T[i]
        elif u < .8: T.insert(i, list(r.choice(T)))
        elif u < .9: T[i] = ['other', r.randrange(1, len(OTHER) + 1)]
        else: T.insert(i, ['int', r.randrange(-1, 6)])
    return T


def safe(T):
    """Only group sizes the specification knows."""
    I = [v for ty, v in T if ty == 'int'][:1]
    return not I or I[0] < 1 or 2 <= I[0] <= 5


def record(out, part, parts, tier, seed, inp):
    work = os.environ.get('VERIF_WORK') or '/tmp'
    q = tier == 'quick'
    num, form = numbers()
    if inp:
        run = None
        with open(inp) as f:
            for no, line in enumerate(f):
                if no % parts != part: continue
                e = json.loads(line)
                if 'T' in e:
                    if not form: continue
                    if run is None:
                        run = out.new('texts%d' % part, n=2, num=num)
                        register_sqlite3_adapters()
                        via = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_COLNAMES)
                    parse(run, e['T'], via if no % 3 == 0 else None)
                    out.replayed += 1
                else:
                    n = e['n']
                    for k, x in (('G', e['gg']), ('D', e['dd'])):
                        def step():
                            if k == 'G': b = BraidGroup(n).from_gnf_pair((x['pow'], [tuple(p) for p in x['fs']]))
                            else: b = DGNF(n, x['pow'], ()) * DGNF.from_npar_seq(n, [NPar.from_permutation(Permutation(tuple(p))) for p in x['fs']])
                            c = convert_braid(raw(b))
                            return [kind(c), integer(c.n), integer(c.inf()), [enc_perm(f) if k == 'G' else enc_perm(f.to_permutation()) for f in c.canonical_factors()], bool(c == b), bool(hash(c) == hash(b))]
                        res = attempt(step, lambda r: dict(r=r))[1]
                        out.replayed += 1
                        if res.get('r') != [k, n, x['pow'], [list(p) for p in x['fs']], True, True]:
                            out.bad.append(dict(run='edge%d' % no, clause='replayed storage (%s): got %s, specification says %s' % (k, res, x), event=e))
        return
    if part == 0:
        run = out.new('numbers', n=2, num=num)
        if form: run.log('numbers')
    for n in [[2, 3], [4], [5], [3, 4, 5]][part % 4]:
        for j in range((12 if q else 150) if n < 6 else 10):
            r = rng(seed, 'c17', n, part, j)
            m = Machine(out.new('b%d.%d.%d' % (n, part, j), n=n, num=num), n, r)
            for k in 'GD':
                if m.dead: break
                history(m, k, r.randrange(3, 9), 60)
                for s in [m.div(k) for _ in range(2)]:
                    if m.dead: break
                    a = m.seq(k, [s])
                    if m.dead: break
                    D = m.pow(m.seq(k, [list(range(n))[::-1] if k == 'G' else [list(range(n))]]), r.randrange(-4, 5))
                    if m.dead: break
                    m.mul(D, a)
            if m.dead: continue
            m.identity('GD'[j % 2])
            N = len(m.regs)
            for a in range(1, N + 1): m.query('store', lambda: same(m.regs[a - 1], convert_braid(raw(m.regs[a - 1]))), lambda d: d, a=a)
            cells(m.run, m, [r.randrange(1, N + 1) for _ in range(r.randrange(1, 8))] + ([0] if r.random() < .3 else []), r, work)
            if form:
                for a in r.sample(range(N), min(N, 5)):
                    T = tokens(raw(m.regs[a]).decode())
                    if safe(T): parse(m.run, T)
                    for _ in range(12):
                        U = mutated(r, T)
                        if safe(U): parse(m.run, U)
            for what, bs in (('empty text', b''), ('bytes that are no text', b'\xff\xfe'), ('a name alone', b'GNF'), ('a name alone', b'DGNF'), ('nonsense', b'hello'), ('a list of words', b'GNF(a, b, c)')):
                m.reject(what, lambda: convert_braid(bs))


if __name__ == '__main__': child(*sys.argv[1:])
