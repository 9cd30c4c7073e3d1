"""Runs the scenarios of one property against the real code (in forked workers) and records traces.

A scenario that raises, hangs or kills its process is recorded with a final 'crash' event, which no specification allows.
"""
import importlib, json, multiprocessing, os, random, shutil, signal, sys, tempfile, time, traceback

class Timeout(BaseException):
    pass

def norm(x):
    if isinstance(x, bool) or isinstance(x, str): return x
    if isinstance(x, int):
        if abs(x) > 2**31 - 1: raise TypeError('integer out of range in trace: %r' % x)
        return x
    if isinstance(x, dict): return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    try:
        import numpy
        if isinstance(x, numpy.bool_): return bool(x)
        if isinstance(x, numpy.integer): return norm(int(x))
        if isinstance(x, numpy.ndarray) and x.dtype.kind in 'iub': return norm(x.tolist())
    except ImportError: pass
    raise TypeError('value of type %s in trace: %r' % (type(x).__name__, x))

def run_one(h, sc, base):
    tmp = tempfile.mkdtemp(dir=base)
    events = []
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        def alarm(*a): raise Timeout()
        signal.signal(signal.SIGALRM, alarm); signal.alarm(getattr(h, 'TIMEOUT', 60))
        def record(a, **kw):
            e = norm(kw); e['a'] = a; events.append(e)
        h.execute(sc, record, tmp)
    except Timeout:
        events.append(dict(a='crash', err='timeout'))
    except Exception:
        events.append(dict(a='crash', err=traceback.format_exc()[-1500:]))
    except SystemExit:
        events.append(dict(a='crash', err='SystemExit ' + traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0); os.chdir(cwd); shutil.rmtree(tmp, ignore_errors=True)
    return events

def worker(h, items, path, base, log):
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1); os.dup2(fd, 2)
    sys.stdout = os.fdopen(1, 'w'); sys.stderr = os.fdopen(2, 'w')
    with open(path, 'a') as f:
        for i, sc in items:
            f.write('S %d\n' % i); f.flush()
            ev = run_one(h, sc, base)
            f.write('D ' + json.dumps([i, ev]) + '\n'); f.flush()
    sys.stdout.flush()
    os._exit(0)

def main():
    cfg = json.load(open(sys.argv[1]))
    h = importlib.import_module('h_' + cfg['prop'].lower())
    if cfg['replay']:
        scs = [s['scenario'] for s in json.load(open(cfg['replay']))['scenarios']]
    else:
        scs = list(h.scenarios(random.Random(cfg['seed']), cfg['tier'], cfg['model']))
        if hasattr(h, 'known'): scs += h.known()
    base = tempfile.mkdtemp(dir=os.getcwd())
    try:
        if hasattr(h, 'prepare'): h.prepare()
    except Exception: traceback.print_exc()
    nw = min(getattr(h, 'WORKERS', 8), max(1, len(scs)))
    todo = [[(i, s) for i, s in enumerate(scs) if i % nw == k] for k in range(nw)]
    results = {}
    paths = [os.path.join(base, 'w%d' % k) for k in range(nw)]
    procs = [None] * nw
    limit = getattr(h, 'TIMEOUT', 60) * 2 + 30
    last = [time.time()] * nw; size = [0] * nw
    def spawn(k):
        open(paths[k], 'w').close(); size[k] = 0; last[k] = time.time()
        p = multiprocessing.Process(target=worker, args=(h, todo[k], paths[k], base, os.path.join(base, 'log')))
        p.start(); procs[k] = p
    def harvest(k, died):
        started = None
        for line in open(paths[k]):
            if line.startswith('S '): started = int(line[2:])
            elif line.startswith('D ') and line.endswith('\n'):
                i, ev = json.loads(line[2:]); results[i] = ev; started = None
        if died and started is not None: results[started] = [dict(a='crash', err=died)]
        todo[k] = [(i, s) for i, s in todo[k] if i not in results]
    multiprocessing.set_start_method('fork', force=True)
    for k in range(nw):
        if todo[k]: spawn(k)
    while any(procs):
        time.sleep(0.05)
        for k, p in enumerate(procs):
            if p is None: continue
            if not p.is_alive():
                p.join(); n = len(todo[k])
                harvest(k, 'process ended with status %s' % p.exitcode)
                procs[k] = None
                if todo[k]:
                    if len(todo[k]) == n: raise SystemExit('worker makes no progress: ' + open(os.path.join(base, 'log')).read()[-2000:])
                    spawn(k)
            else:
                s = os.path.getsize(paths[k])
                if s != size[k]: size[k] = s; last[k] = time.time()
                elif time.time() - last[k] > limit:
                    os.kill(p.pid, signal.SIGKILL)
    with open(sys.argv[2], 'w') as f:
        for i, s in enumerate(scs):
            f.write(json.dumps(dict(id=i, events=results[i], scenario=s, key=s.get('key', '') if isinstance(s, dict) else '')) + '\n')
    shutil.rmtree(base, ignore_errors=True)

if __name__ == '__main__':
    main()
