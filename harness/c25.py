"""Calls in all sorts of orders, in several processes; objects looked at again."""
import gc, subprocess
from pure import *
HERE = os.path.dirname(os.path.abspath(__file__))


class History:
    """Makes calls and keeps what it gave and got."""
    def __init__(self):
        self.ev, self.objs, self.pool = [], [], {}

    def hold(self, x):
        self.objs.append(x)
        return len(self.objs)

    def value(self, o):
        signal.alarm(60)
        try: return value(self.objs[o - 1])
        except Hang: return 'no value after 60 s'
        except Exception as e: return 'raised %s when looked at' % type(e).__name__
        finally: signal.alarm(0)

    def call(self, call, share):
        new, ids, xs = [], [], []
        for a in call.args:
            if share() and a.name in self.pool: o = self.pool[a.name]
            else:
                o = self.hold(a.make())
                self.pool.setdefault(a.name, o)
                if not isinstance(self.objs[o - 1], random.Random): new.append([o, self.value(o)])
            # a source of randomness is used up: never shared
            if isinstance(self.objs[o - 1], random.Random): x = a.make()
            else: x = self.objs[o - 1]; ids.append(o)
            xs.append(x)
        x, v = result(call, xs)
        as_ = [[o, self.value(o)] for o in ids]
        out = []
        if x is not None:
            o = self.hold(x)
            out = [[o, v]]
        self.ev.append(dict(op='call', c=call.name, v=v, new=new, out=out, **{'as': as_}))

    def look(self, os_):
        self.ev.append(dict(op='look', **{'as': [[o, self.value(o)] for o in os_ if not isinstance(self.objs[o - 1], random.Random)]}))


def wander(C, r, steps):
    """One process: the calls in some order, with some done again and again."""
    h = History()
    order = list(range(len(C)))
    r.shuffle(order)
    order = (order + [r.choice(order) for _ in range(steps)])
    style = r.randrange(3)
    if style == 1: order = [i for i in order for _ in range(2)]
    share = lambda: r.random() < (.5, .9, .2)[style]
    for k, i in enumerate(order):
        u = r.random()
        if u < .05: random.seed(k); np.random.seed(k % 1000)
        elif u < .07: gc.collect()
        h.call(C[i], share)
        if h.objs and r.random() < .5: h.look(r.sample(range(1, len(h.objs) + 1), min(3, len(h.objs))))
    for k in range(0, len(h.objs), 40): h.look(range(k + 1, min(k + 40, len(h.objs)) + 1))
    return h.ev


def fresh(C):
    """Every call in a process of its own."""
    ev = []
    for c in C:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                h = History()
                h.call(c, lambda: False)
                with os.fdopen(wr, 'w') as f: json.dump(h.ev, f)
            finally: os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f: s = f.read()
        os.waitpid(pid, 0)
        ev += [dict(op='process')] + (json.loads(s) if s else [dict(op='call', c=c.name, v='the process died', new=[], out=[], **{'as': []})])
    return ev


def calls(seed, key, size): return catalogue(rng(seed, 'c25', key), size, key.split('.')[0])


def record(out, part, parts, tier, seed, inp):
    q = tier == 'quick'
    jobs = ['%s.%d' % (t, j) for j in range(2 if q else 16) for t in THEMES]
    for j, key in enumerate(jobs):
        if j % parts != part: continue
        size = {'trackers': 40, 'lkbs': 50, 'sums': 110, 'reps': 110}.get(key.split('.')[0], 100)
        C = calls(seed, key, size)
        names = {}
        for c in C: names.setdefault(c.name, len(names) + 1)
        run = out.new('calls' + key, names=[x.replace('|', '/').replace('"', "'").replace('\\', '/').encode('ascii', 'replace').decode() for x in names])
        ev = fresh(C)
        for k in range(2 if q else 4):
            e = dict(os.environ, PYTHONHASHSEED=str((int(seed) * 7919 + part * 31 + j * 101 + k * 1013) % 2**31))
            p = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), str(seed), key, str(k), str(size), '60' if q else '200'], capture_output=True, text=True, timeout=500, env=e)
            if p.returncode: ev += [dict(op='process'), dict(op='call', c=C[0].name, v='the process died: ' + p.stderr[-200:], new=[], out=[], **{'as': []})]
            else: ev += [dict(op='process')] + json.loads(p.stdout)
        for e in ev:
            if 'c' in e: e['c'] = names[e['c']]
            run.log(**e)


if __name__ == '__main__':
    seed, key, k, size, steps = sys.argv[1:]
    json.dump(wander(calls(seed, key, int(size)), rng(seed, 'wander', key, k), int(steps)), sys.stdout)
