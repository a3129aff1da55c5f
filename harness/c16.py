"""Searches that are killed or fail."""
from searching import *

CONF = [(4, 1, 2, 1, 1000, 40, 30, 1, 1), (4, 1, 2, 2, 1000, 60, 12, 2, 1), (4, 2, 3, 1, 1000, 60, 60, 1, 1), (3, 0, 2, 3, 1000, 16, 20, 1, 1), (4, 1, 2, 1, 1000, 60, 500, 1, 1)]


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    for i, (n, r, p, b, cap, use, save, step, stop) in enumerate(CONF):
        for rep in range(2 if q else 6):
            if (i * 2 + rep) % parts != part: continue
            g = rng(seed, 'c16', i, rep)
            s = Searches(out.new('crash%d.%d' % (i, rep)), n, r, p, b, cap, use, save, step, stop, seed=i + int(seed))
            if rep % 2:
                # the database has seen other searches, and other tables
                c = sqlite3.connect(s.db); c.execute('CREATE TABLE notes (x TEXT)'); c.execute("INSERT INTO notes VALUES ('kept')"); c.commit(); c.close()
                s.search(op='other', n=3, r=1, p=5, b=2, use=5, save=5, stop=0, upto=6)
            if rep % 2 == 0: s.search()
            total = len(s.old) + 8
            K = sorted({g.randrange(1, total + 6) for _ in range(7)} | {1 + (rep + i) % 6, total - 2 * g.randrange(4)}) if q else range(1 + rep // 2, total + 6, 3)
            for j, k in enumerate(K):
                f = dict(stmt=k, how=['kill', 'int', 'exit', 'int', 'fail'][(j + i + rep) % 5])
                if g.random() < .25: fresh(s)
                s.search(conf=f)
            sizes = [4096 * g.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18]) + g.choice([0, 0, 32, 100, 4000]) + 1 for _ in range(5 if q else 40)]
            for j, z in enumerate(sizes):
                if g.random() < .6: fresh(s)
                s.search(conf=dict(fsize=z, how='kill' if (j + i) % 3 else 'fail'))
            for name in ('nf_descendants', 'discard_bucket', 'bootstrap_exhaustive', 'stats'):
                s.search(conf=dict(call=[name, 1 if name == 'bootstrap_exhaustive' else g.randrange(1, 9)]))
            for j in range(3 if q else 12):
                s.search(after=.35 + g.random() * .9, sig=g.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
            s.search()
            if rep % 2:
                c = sqlite3.connect(s.db)
                if c.execute("SELECT name FROM sqlite_master WHERE name = 'notes'").fetchall() and c.execute('SELECT * FROM notes').fetchall() != [('kept',)] : out.bad.append(dict(run='crash%d.%d' % (i, rep), clause='another table of the database changed'))
                c.close()
            s.close()


def fresh(s):
    for x in ('', '-wal', '-shm', '-journal'):
        if os.path.exists(s.db + x): os.unlink(s.db + x)
    s.old = []
