"""Starts searches in processes of their own and reads what they print and save."""
import ast, json, os, re, shutil, signal, sqlite3, subprocess, sys, tempfile, time
from reps import *
PY = sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))
COLS = 'n, r, p, length, projlen, gnf'


class Searches:
    def __init__(self, run, n, r, p, b, cap, use, save, step=1, stop=0, seed=1):
        self.run = run
        self.par = dict(b=b, cap=cap, use=use, save=save, step=step, stop=stop, seed=seed)
        self.n, self.r, self.p = n, r, p
        self.b, self.bi = [], {}
        run.d.update(n=n, r=r, p=p, basis=basis(JonesCellRep(n=n, r=r, p=p)), braids=self.b)
        self.dir = tempfile.mkdtemp(prefix='search_', dir=os.environ.get('VERIF_WORK'))
        self.db = os.path.join(self.dir, 'a.sqlite')
        self.old = []

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def bid(self, x):
        o = obj(x)
        k = json.dumps(o, sort_keys=True)
        if k not in self.bi:
            self.b.append(o)
            self.bi[k] = len(self.b)
        return self.bi[k]

    def argv(self, db, **kw):
        q = dict(self.par, **kw)
        a = [str(x) for x in (q.get('n', self.n), q.get('r', self.r), q.get('p', self.p))]
        for k, v in (('bootstrap-length', q['b']), ('bucket-size', q['cap']), ('use-best', q['use']), ('save-best', q['save']), ('step-size', q['step']), ('seed', q['seed'])): a += ['--' + k, str(v)]
        if q['stop']: a += ['--stop-at-projlen-1']
        if db: a += ['--database', self.db]
        return a

    def rows(self):
        if not os.path.exists(self.db): return []
        c = sqlite3.connect(self.db)
        try:
            if not c.execute("SELECT name FROM sqlite_master WHERE name = 'good_braids'").fetchall(): return []
            if c.execute('PRAGMA integrity_check').fetchall() != [('ok',)]: raise Malformed('the database is damaged')
            return [list(x) for x in c.execute('SELECT %s FROM good_braids ORDER BY rowid' % COLS)]
        finally: c.close()

    def start(self, db, conf=None, env=None, **kw):
        conf = dict(conf or {}, repo=os.environ.get('VERIF_REPO', '/repo'), argv=self.argv(db, **kw))
        f = os.path.join(self.dir, 'conf.json')
        with open(f, 'w') as h: json.dump(conf, h)
        e = dict(os.environ, PYTHONUNBUFFERED='1')
        e.update(env or {})
        self.out = open(os.path.join(self.dir, 'out.txt'), 'w+')
        return subprocess.Popen([PY, '-B', os.path.join(HERE, 'searchrun.py'), f], cwd=self.dir, stdout=self.out, stderr=open(os.path.join(self.dir, 'err.txt'), 'w'), env=e, stdin=subprocess.DEVNULL)

    def announced(self, upto=10**9):
        """[step, length, power, permutations] of the near-kernel lines."""
        self.out.seek(0)
        A, L = [], None
        for line in self.out:
            m = re.match(r'-+ Length (\d+)', line)
            if m: L = int(m.group(1))
            m = re.match(r'\(n=(\d+), r=(\d+), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form \((-?\d+), (\[.*\])\)\s*$', line)
            if m:
                if tuple(map(int, m.groups()[:3])) != (self.n, self.r, self.p): raise Malformed('near-kernel line of another group')
                if L is None or L <= upto: A.append([L if L is not None else -1, int(m.group(4)), int(m.group(5)), [list(w) for w in ast.literal_eval(m.group(6))]])
        return A

    def search(self, db=True, upto=None, conf=None, env=None, limit=60, after=None, sig=signal.SIGKILL, cut=False, op='search', **kw):
        """One search.  upto: kill it when a row of that length has been saved; after: signal it after so many seconds.  conf: faults."""
        def go():
            p = self.start(db, conf, env, **kw)
            end = 'self'
            t0 = time.time()
            while True:
                try:
                    p.wait(.03)
                    break
                except subprocess.TimeoutExpired: pass
                if time.time() - t0 > limit:
                    p.kill(); p.wait()
                    if upto is None and after is None and not cut: raise TimeoutError('the search did not end within %d s' % limit)
                    end = 'cut'; break
                if upto is not None:
                    try:
                        c = sqlite3.connect('file:%s?mode=ro' % self.db, uri=True)
                        try: x = c.execute('SELECT max(length) FROM good_braids WHERE rowid > ?', (len(self.old),)).fetchone()
                        finally: c.close()
                    except sqlite3.Error: x = None
                    if x and x[0] is not None and x[0] >= upto: p.kill(); p.wait(); end = 'cut'; break
                if after is not None and time.time() - t0 > after:
                    p.send_signal(sig)
                    p.wait(30); end = 'cut'; break
            if conf and set(conf) & {'stmt', 'fsize', 'call'} and p.returncode != 0: end = 'cut'
            if end == 'self' and p.returncode != 0: raise RuntimeError('the search failed: ' + open(os.path.join(self.dir, 'err.txt')).read()[-400:])
            raw = self.rows() if db else list(self.old)
            kept = int(raw[:len(self.old)] == self.old)
            new = raw[len(self.old):]
            if upto is not None and any(x[3] > upto for x in new): new, end = [x for x in new if x[3] <= upto], 'cut'
            A = self.announced(upto if upto is not None and end == 'cut' else 10**9)
            rows = []
            for x in new:
                if not all(isinstance(y, int) for y in x[:5]) or not isinstance(x[5], str): raise Malformed('types of the columns %r' % (x,))
                g = ast.literal_eval(x[5])
                rows.append(x[:5] + [self.bid(GNF(*g))])
            self.old = raw
            return dict(rows=rows, kept=kept, ann=A, end=end)
        v, res = attempt(go, lambda d: d, limit + 60)
        q = dict(self.par, **kw)
        self.run.log(op, res=res, db=int(db), **{k: q[k] for k in ('b', 'cap', 'use', 'save', 'step', 'stop')})
        return res
