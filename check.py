#!/usr/bin/env python3
"""check.py CXX [--tier quick|thorough] [--keep DIR]

Decides one property: runs the TLC jobs and the recorders of the property (table in
checks.py), validates every recorded trace with TLC against the trace specification, and
rewrites evidence/CXX.json.
Exit 0: held.  Exit 1 with VIOLATION lines: broken.  Exit 2: the machinery failed."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


class Broken(Exception):
    pass


class Check:
    def __init__(self, pid, tier, work):
        self.pid, self.tier, self.work = pid, tier, work
        self.c = checks.CHECKS[pid]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.lock = threading.Lock()
        self.bad, self.notes = [], []
        self.mc, self.states, self.transitions, self.runs, self.replayed = [], 0, 0, 0, 0
        self.ops, self.samples = {}, []

    def tlc(self, name, module, cfg, env, heap, limit, workers=1, extra=()):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, 'out.txt')
        cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JARS, 'tlc2.TLC', '-metadir', d,
               '-noGenerateSpecTE', '-workers', str(workers), '-fpmem', '0.1', '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        with open(out, 'w') as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=limit, env=dict(os.environ, **env)).returncode
            except subprocess.TimeoutExpired:
                rc = -99
        return rc, out

    # ---- the specification on its own --------------------------------------
    def model(self, i, job):
        name = 'mc%d' % i
        cfg = os.path.join(self.work, name + '.cfg')
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % job.get('spec', 'Spec'))
            if job.get('consts'):
                f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in job['consts'].items()))
            if job.get('view'):
                f.write('VIEW %s\n' % job['view'])
            if job.get('inv'):
                f.write('INVARIANTS ' + ' '.join(job['inv']) + '\n')
            if job.get('props'):
                f.write('PROPERTIES ' + ' '.join(job['props']) + '\n')
        extra = job.get('args', [])
        rc, out = self.tlc(name, job['module'], cfg, {}, job.get('heap', '4g'), job.get('limit', 3000), job.get('workers', 1), extra)
        edges, txt, n = None, [], 0
        if job.get('edges'):
            edges = os.path.join(self.work, name + '.edges')
        ef = open(edges, 'w') if edges else None
        with open(out) as f:
            for line in f:
                if line.startswith('"EDGE '):
                    if ef:
                        ef.write(json.loads(line)[5:] + '\n'); n += 1
                else:
                    txt.append(line)
        if ef: ef.close()
        txt = ''.join(txt)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', txt) or \
            (re.search(r'The number of states generated: (\d+)()', txt) if '-simulate' in extra else None)
        if job.get('refute'):
            # a wrong design: the property must tell it from the right one
            if not re.search(r'(%s) is violated' % job['refute'], txt): raise Broken('specification check %s: a wrong design is not refuted:\n%s' % (job['module'], txt[-2000:]))
            with self.lock: self.mc.append(dict(module=job['module'], constants=job.get('consts', {}), refuted='a wrong design breaks ' + job['refute']))
            return []
        if rc != 0 or not m:
            raise Broken('specification check %s %s failed (rc %s):\n%s' % (job['module'], job.get('consts'), rc, txt[-3000:]))
        g, d = int(m.group(1)), int(m.group(2) or m.group(1))
        with self.lock:
            self.mc.append(dict(module=job['module'], constants=job.get('consts', {}), view=job.get('view'), invariants=job.get('inv', []),
                                states=d, transitions=g, behaviours_replayed=n))
            self.states += d
            self.transitions += g
        if edges:
            N = job.get('edge_parts', 2)
            return [('edge', job['edges'], k, N, edges, job.get('edge_trace')) for k in range(N)]
        return []

    # ---- the code -------------------------------------------------------------
    def record(self, name, driver, part, parts, inp, limit):
        f = os.path.join(self.work, name + '.json')
        cmd = [PY, '-B', os.path.join(HERE, 'harness', 'record.py'), driver, '--part', str(part), '--parts', str(parts), '--tier', self.tier,
               '--seed', str(self.seed), '--out', f] + (['--inp', inp] if inp else [])
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', VERIF_WORK=self.work, VERIF_REPO=REPO)
        env.pop('PYTHONPATH', None)
        try:
            p = subprocess.run(cmd, cwd=self.work, capture_output=True, text=True, timeout=limit, env=env)
        except subprocess.TimeoutExpired:
            self.bad.append(dict(run=name, clause='the code gave no result within %d s' % limit, cmd=cmd))
            return None
        if p.returncode != 0 or not os.path.exists(f):
            if p.returncode in (-9, 137):
                raise Broken('recorder %s was killed' % name)
            self.bad.append(dict(run=name, clause='driving the public interface of the code failed', rc=p.returncode, stderr=p.stderr[-3000:]))
            return None
        return f

    def validate(self, name, f, module):
        """TLC reads the trace; every logged result is judged by the specification."""
        with open(f) as h:
            d = json.load(h)
        with self.lock:
            self.replayed += d['replayed']
            for b in d['bad']:
                b['run'] = name + ':' + str(b['run'])
                self.bad.append(b)
            if len(self.samples) < 12:
                self.samples += [dict(kind='replayed specification behaviour', behaviour=s) for s in d['samples'][:1]]
                self.samples += [dict(kind='trace', run=r['id'], first_events=r['ev'][:3]) for r in d['runs'][:1] if len(json.dumps(r['ev'][:3])) < 6000]
        if not d['runs']:
            return
        cfg = os.path.join(SPEC, module + '.cfg')
        t0 = time.time()
        rc, out = self.tlc(name + '.v', module, cfg, dict(TRACE=f), '3g', 3000)
        if os.environ.get('VERIF_TIMES'):
            print('TIME %s %d s' % (name, time.time() - t0), file=sys.stderr)
        with open(out) as h:
            txt = h.read()
        byid = {str(r['id']): r for r in d['runs']}
        want = sum(len(r['ev']) + 1 for r in d['runs'])
        for m in re.finditer(r'"BAD\|([^|]*)\|(\d+)\|([^|]*)\|(.*)"', txt):
            run = byid.get(m.group(1).replace('\\"', ''), {'ev': []})
            k = int(m.group(2))
            self.bad.append(dict(run=name + ':' + m.group(1), event=k, op=m.group(3), clause=m.group(4),
                                 header={x: y for x, y in run.items() if x not in ('ev', 'id')}, history=run['ev'][max(0, k-60):k]))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', txt)
        if rc != 0 or not m:
            if rc == -99 or 'OutOfMemory' in txt or 'StackOverflow' in txt or 'Overflow when computing' in txt or 'Error' not in txt or 'Parsing' in txt and 'failed' in txt:
                raise Broken('TLC failed on trace %s (rc %s):\n%s' % (name, rc, txt[-3000:]))
            self.bad.append(dict(run=name, clause='the trace is not a behaviour of the specification: ' + txt[txt.find('Error'):][:1500]))
            return
        if int(m.group(2)) != want:
            self.bad.append(dict(run=name, clause='the trace is not a behaviour of the specification: %s of %d states reached' % (m.group(2), want)))
        with self.lock:
            self.states += int(m.group(2))
            self.runs += len(d['runs'])
            for r in d['runs']:
                for e in r['ev']:
                    self.ops[e['op']] = self.ops.get(e['op'], 0) + 1
                    self.transitions += 1

    def task(self, t):
        if t[0] == 'mc':
            return self.model(t[1], t[2])
        kind, driver, part, parts, inp, trace = t
        name = '%s.%s%d' % (driver, 'e' if kind == 'edge' else 'r', part) + ('.' + os.path.basename(inp).split('.')[0] if inp else '')
        f = self.record(name, driver, part, parts, inp, 600 if self.tier == 'quick' else 20000)
        if f:
            self.validate(name, f, trace or self.c['trace'])
        return []

    def run(self):
        tasks = [('mc', i, j) for i, j in enumerate(self.c.get('mc', [])) if self.tier in j.get('tiers', ('quick', 'thorough'))]
        for driver, parts, *trace in self.c['drivers']:
            N = parts[self.tier]
            tasks += [('rec', driver, k, N, '', trace[0] if trace else None) for k in range(N)]
        first = self.c.get('order', lambda t: 0)
        tasks.sort(key=first)
        errors = []
        with ThreadPoolExecutor(8) as ex:
            todo = [ex.submit(self.task, t) for t in tasks]
            while todo:
                fu = todo.pop(0)
                try:
                    todo += [ex.submit(self.task, t) for t in fu.result()]
                except Broken as e:
                    errors.append(str(e))
        return errors


def known(pid):
    """finding: property=<id> match=<text> -- <what fails>   (fixed: lines suppress nothing)"""
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=<(.*?)> (.*)', line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--keep', default='')
    a = ap.parse_args()
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix='verif_%s_' % a.pid)
    os.makedirs(work, exist_ok=True)
    try:
        c = Check(a.pid, a.tier, work)
        errors = c.run()
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    listed, fresh = {}, []
    for b in c.bad:
        line = '%s|%s|%s' % (b['run'], b.get('op', ''), b['clause'])
        for match, what in known(a.pid):
            if match in line:
                listed[what] = listed.get(what, 0) + 1
                break
        else:
            fresh.append(b)
    assumptions = ['TLC, its JSON reader and the recorder (harness/) are trusted; results are judged only by the specification'] + c.c.get('assume', [])
    with open(os.path.join(ev, a.pid + '.json'), 'w') as f:
        json.dump(dict(property=a.pid, tier=a.tier, seed=c.seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(fresh),
                       assumptions=assumptions,
                       coverage=dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.runs,
                                     specification_behaviours_replayed_in_impl=c.replayed, specification_runs=c.mc, events_by_operation=dict(sorted(c.ops.items())),
                                     samples=c.samples[:12], known_findings_seen=listed, machinery_errors=errors)), f, indent=1)
    for what in listed:
        print('KNOWN-FINDING: property=%s %s' % (a.pid, what))
    print('%s %s: %d specification jobs, %d states, %d transitions, %d traces validated, %d behaviours replayed, %.1f s'
          % (a.pid, a.tier, len(c.mc), c.states, c.transitions, c.runs, c.replayed, time.time() - t0))
    if fresh:
        rd = os.path.join(ev, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % a.pid)
        with open(path, 'w') as f:
            json.dump(dict(property=a.pid, tier=a.tier, seed=c.seed, command='VERIF_SEED=%d python3 check.py %s --tier %s' % (c.seed, a.pid, a.tier),
                           count=len(fresh), violations=fresh[:50]), f, indent=1)
        for b in fresh[:5]:
            print('  %s event %s %s: %s' % (b['run'], b.get('event', '-'), b.get('op', ''), b['clause'][:600]))
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
        return 1
    if errors:
        print('\n'.join(e[-1500:] for e in errors[:3]), file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
