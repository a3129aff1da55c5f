"""Confirm a planted change and file it under /verif/seeded/<id>/.

usage: seed.py SPEC.py...   Each SPEC.py assigns ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...],
DEMO (a Python program: exit 0 on the unchanged tree, nonzero with the change).
Works in two scratch copies of /repo; /repo itself is not touched."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1')
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)


def original_lines(rep):
    """Lines of HEAD that none of our own commits added, per file."""
    ours = set(sh(['git', 'log', '--format=%H', '--grep=^fix:'], '/repo').stdout.split())
    return ours


def one(path):
    g = {}
    exec(open(path).read(), g)
    id = g['ID']
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        rep = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', rep], check=True)
        sh(['git', 'checkout', '-q', '--', '.'], rep)
        dst = '/verif/seeded/' + id
        d = tmp + '/demo'
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(g['DEMO'].lstrip())
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Run in the root of the repository.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        try:
            a = sh(['bash', d + '/demo.sh'], rep, timeout=300)
        except subprocess.TimeoutExpired:
            return '%s: demo times out on the unchanged tree' % id
        if a.returncode != 0: return '%s: demo fails on the unchanged tree: %s' % (id, (a.stdout + a.stderr)[-600:])
        ours = original_lines(rep)
        for f, old, new in g['EDITS']:
            s = open(rep + '/' + f).read()
            if s.count(old) != 1: return '%s: %d matches in %s for %r' % (id, s.count(old), f, old)
            open(rep + '/' + f, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff', '-U3'], rep).stdout
        # changed lines must be lines of the original repository
        fn, ln, changed, bad = None, 0, 0, 0
        for l in sh(['git', 'diff', '-U0'], rep).stdout.splitlines():
            if l.startswith('--- a/'): fn = l[6:]
            elif l.startswith('@@'):
                x = l.split()[1][1:].split(',')
                s, c = int(x[0]), int(x[1]) if len(x) > 1 else 1
                if c:
                    for b in sh(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (s, s + c - 1), 'HEAD', '--', fn], rep).stdout.splitlines():
                        changed += 1
                        bad += b.split()[0].lstrip('^') in ours
        if not changed: note = ' [WARNING: adds lines only]'
        elif bad: note = ' [WARNING: %d of %d changed lines are ours]' % (bad, changed)
        else: note = ''
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300'], rep)
        if t.returncode != 0: return '%s: existing tests catch it: %s' % (id, t.stdout[-300:])
        try:
            b = sh(['bash', d + '/demo.sh'], rep, timeout=300)
            if b.returncode == 0: return '%s: demo passes with the change' % id
            tail = (b.stdout + b.stderr).strip().splitlines()[-1:]
        except subprocess.TimeoutExpired:
            return '%s: demo times out with the change' % id
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(diff)
        for f in ('demo.sh', 'demo.py'): shutil.copy(d + '/' + f, dst)
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(dst + '/meta.json', 'w'), indent=1)
        return '%s: kept (%s)%s %s' % (id, g['PROPERTY'], note, tail)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for p in sys.argv[1:]:
    print(one(p)[:900], flush=True)
