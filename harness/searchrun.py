"""Runs search.py of the repository in this process: searchrun.py CONFIG.json
argv: its arguments; stmt: k, how: at the k-th SQL statement die ('kill') or interrupt ('int', 'fail' the statement);
fsize: largest file it can write before the system kills it; call: [method, k] raise in the k-th call of that method of peyl.Tracker"""
import json, os, sys, time, runpy, signal
c = json.load(open(sys.argv[1]))
sys.path.insert(0, c['repo'])
sys.dont_write_bytecode = True
sleep = time.sleep
time.sleep = lambda s: None
if c.get('stmt'):
    import sqlite3
    real, count, left = sqlite3.connect, [0], [0]
    def fail():
        # the statement is given up with an error
        if left[0]:
            left[0] = 0
            return 1
        return 0
    def interrupt(frame, event, arg):
        # as if ctrl-C came while the next function is being called
        if event in ('call', 'c_call') and frame.f_code is not hit.__code__:
            sys.setprofile(None)
            raise KeyboardInterrupt
    def hit(sql):
        count[0] += 1
        if count[0] == c['stmt']:
            sys.stdout.flush()
            if c['how'] == 'kill': os.kill(os.getpid(), signal.SIGKILL)
            if c['how'] == 'exit': os._exit(3)
            if c['how'] == 'int': sys.setprofile(interrupt)
            if c['how'] == 'fail': left[0] = 1
    def connect(*a, **k):
        conn = real(*a, **k)
        conn.set_trace_callback(hit)
        if c['how'] == 'fail': conn.set_progress_handler(fail, 1)
        return conn
    sqlite3.connect = connect
    import sqlite3.dbapi2
    sqlite3.dbapi2.connect = connect
if c.get('fsize'):
    import resource
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if c['how'] == 'kill' else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (c['fsize'], c['fsize']))
if c.get('call'):
    import peyl
    name, k = c['call']
    f, left = getattr(peyl.Tracker, name), [k]
    def wrapped(*a, **kw):
        left[0] -= 1
        if left[0] == 0: raise (MemoryError if k % 2 else KeyboardInterrupt)('injected')
        return f(*a, **kw)
    setattr(peyl.Tracker, name, wrapped)
if c.get('warm'):
    # other work done in the same process before the search
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import pure
    for k in pure.catalogue(pure.rng(c['warm'], 'warm'), 80, ['all', 'trackers', 'sums', 'braids'][c['warm'] % 4]): pure.result(k, [a.make() for a in k.args])
    pure.random.seed(c['warm'])
    pure.np.random.seed(c['warm'])
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
sys.argv = ['search.py'] + c['argv']
runpy.run_path(os.path.join(c['repo'], 'search.py'), run_name='__main__')
