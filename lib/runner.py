"""Runs one property check: build the tree, model-check the specification, run scenarios against the real code,
validate the recorded traces against the specification with TLC, write evidence.

exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import concurrent.futures, hashlib, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HOME, 'lib')); sys.path.insert(0, os.path.join(HOME, 'harness'))
sys.dont_write_bytecode = True
import vbuild

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(HOME, 'spec')

class CheckError(Exception):
    pass

def tlc(module, cfg, tmp, env=(), workers=1, timeout=800, heap='2g', args=()):
    meta = tempfile.mkdtemp(dir=tmp, prefix='tlc')
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss16m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers), '-config', cfg] + list(args) + [module]
    e = dict(os.environ); e.pop('DIAG', None); e.update(dict(env))
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(meta, ignore_errors=True)
        raise CheckError('TLC timed out on %s %s' % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    ok = p.returncode == 0 and 'Model checking completed. No error has been found.' in out
    return dict(ok=ok, rc=p.returncode, out=out, generated=gen, distinct=dist)

def printed(out, tag):
    for line in out.splitlines():
        if line.startswith('"@@' + tag + ' '):
            yield json.loads(line)[len(tag) + 3:]

def validate(trace_module, cfg, scenarios, tmp, stats, depth=0):
    """Return the set of ids of accepted scenarios."""
    if not scenarios: return set()
    fd, path = tempfile.mkstemp(dir=tmp, suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for s in scenarios: f.write(json.dumps(dict(id=s['id'], events=s['events']), sort_keys=True) + '\n')
    r = tlc(trace_module, cfg, tmp, env={'TRACE': path})
    os.unlink(path)
    if 'Parsing or semantic analysis failed' in r['out']: raise CheckError('specification does not parse:\n' + r['out'][-1500:])
    acc = set(int(x) for x in printed(r['out'], 'ACC'))
    if r['ok']:
        stats['states'] += r['distinct']; stats['generated'] += r['generated']
        return acc
    if len(scenarios) == 1:
        if scenarios[0]['id'] < 1000000: stats['uninterpretable'].append((scenarios[0]['id'], r['out'][-1500:]))
        return set()
    # TLC stopped on an event it cannot interpret: find which scenarios those are
    h = len(scenarios) // 2
    return validate(trace_module, cfg, scenarios[:h], tmp, stats, depth + 1) | validate(trace_module, cfg, scenarios[h:], tmp, stats, depth + 1)

def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x): yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x: yield path
        for i, v in enumerate(x): yield from leaves(v, path + (i,))
    else: yield path

def default_mutate(s, rng):
    """A copy of a recorded scenario with one observation altered."""
    c = json.loads(json.dumps(s))
    cand = [('events', i, 'out') + p for i, e in enumerate(c['events']) if 'out' in e for p in leaves(e['out'])]
    cand = [p for p in cand if p]
    if not cand: return None
    p = rng.choice(cand)
    o = c
    for k in p[:-1]: o = o[k]
    v = o[p[-1]]
    if isinstance(v, bool): o[p[-1]] = not v
    elif isinstance(v, int): o[p[-1]] = v + 1
    elif isinstance(v, str): o[p[-1]] = v + '~'
    elif isinstance(v, list): o[p[-1]] = v[:-1]
    elif isinstance(v, dict): return None
    return c

def known_findings(prop):
    res = []
    p = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) digest=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop: res.append((m.group(2), m.group(3), m.group(4)))
    return res

def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if '--replay' in args:
        i = args.index('--replay'); replay = os.path.abspath(args[i + 1]); del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vchk_%s_' % prop)
    try:
        return check(prop, tier, seed, tmp, t0, replay)
    except (CheckError, vbuild.BuildError) as e:
        print('CHECK-ERROR %s: %s' % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); print('CHECK-ERROR %s' % prop); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def build(h, tmp):
    tree = os.path.join(tmp, 'tree')
    b = getattr(h, 'BUILD', {})
    vbuild.translate(tree)
    vbuild.extensions(tree, b.get('ext', []))
    for driver, sources, out, *libs in b.get('cpp', []):
        vbuild.cpp(tree, os.path.join(HOME, 'harness', driver), sources, os.path.join(tree, out), *libs)
    return tree

def run_models(h, tier, tmp, prop):
    res = []
    for m in h.MODELS:
        if m.get('tier', tier) != tier: continue
        r = tlc(m['module'], m['cfg'], tmp, workers=m.get('workers', 4), timeout=m.get('timeout', 600), heap=m.get('heap', '6g'), args=m.get('args', ()))
        if not r['ok']:
            raise CheckError('model %s %s did not pass:\n%s' % (m['module'], m['cfg'], r['out'][-3000:]))
        scs = [json.loads(x) for x in sorted(printed(r['out'], 'SC'))]
        res.append(dict(model=m['module'] + ' / ' + m['cfg'], states=r['distinct'], transitions=r['generated'], scenarios=scs))
    return res

def check(prop, tier, seed, tmp, t0, replay):
    h = importlib.import_module('h_' + prop.lower())
    ev_dir = os.path.join(HOME, 'evidence'); os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    timing = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fm = None if replay else ex.submit(run_models, h, tier, tmp, prop)
        tb = time.time(); tree = build(h, tmp); timing['build_s'] = round(time.time() - tb, 1)
        models = [] if replay else fm.result()
        timing['models_s'] = round(time.time() - tb, 1)
        msc = [s for m in models for s in m['scenarios']]
        inp = os.path.join(tmp, 'in.json'); outp = os.path.join(tmp, 'trace.ndjson')
        with open(inp, 'w') as f: json.dump(dict(prop=prop, tier=tier, seed=seed, model=msc, replay=replay), f)
        td = time.time()
        p = subprocess.run([vbuild.VENV, '-W', 'ignore', os.path.join(HOME, 'harness', 'driver.py'), inp, outp], env=vbuild.run_env(tree), cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        timing['run_s'] = round(time.time() - td, 1)
        if p.returncode != 0: raise CheckError('driver failed:\n' + p.stdout[-3000:])
        traces = [json.loads(line) for line in open(outp)]
        if not traces: raise CheckError('no traces recorded')
        rng = random.Random(seed * 7919 + 13)
        mutate = getattr(h, 'mutate', default_mutate)
        nneg = 0 if replay else min(getattr(h, 'NEG', 60), len(traces))
        neg = []
        for s in rng.sample(traces, nneg):
            try: c = mutate(s, rng)
            except Exception: c = None  # a history of unexpected shape, judged below
            if c is not None and c['events'] != s['events']:
                c['neg'] = s['id']; c['id'] = s['id'] + 1000000; neg.append(c)
        allsc = traces + neg
        tt = time.time()
        stats = dict(states=0, generated=0, uninterpretable=[])
        n = max(1, min(8, (len(allsc) + 19) // 20))
        accepted = set()
        futs = []
        chunk_stats = []
        for k in range(n):
            st = dict(states=0, generated=0, uninterpretable=[]); chunk_stats.append(st)
            futs.append(ex.submit(validate, h.TRACE + '.tla', h.TRACE + '.cfg', allsc[k::n], tmp, st))
        for f in futs: accepted |= f.result()
        for st in chunk_stats:
            stats['states'] += st['states']; stats['generated'] += st['generated']; stats['uninterpretable'] += st['uninterpretable']
        timing['validate_s'] = round(time.time() - tt, 1)
    rejected = [s for s in traces if s['id'] not in accepted]
    known = known_findings(prop)
    found_known, new = {}, []
    for s in rejected:
        # a listed history counts as known only when it fails exactly as recorded
        dg = hashlib.sha256(json.dumps(s['events'], sort_keys=True).encode()).hexdigest()[:16]
        k = [d for key, g, d in known if s.get('key') == key and g == dg]
        if k: found_known[s['key']] = k[0]
        elif s.get('key'): print('history %s digest=%s' % (s['key'], dg)); new.append(s)
        else: new.append(s)
    usable = [c for c in neg if c['neg'] in accepted]
    neg_rej = [c for c in usable if c['id'] not in accepted]
    vacuity = getattr(h, 'vacuity', None)
    extra = {}
    if not replay and vacuity:
        try: extra = vacuity(traces)
        except Exception:
            # histories that violate the property may have any shape
            if not new: raise
    distinct = len(set(json.dumps(s['events'], sort_keys=True) for s in traces))
    sample = [min(traces, key=lambda s: abs(len(json.dumps(s)) - 900))]
    states = sum(m['states'] for m in models) + stats['states']
    trans = sum(m['transitions'] for m in models) + stats['generated']
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(new),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(traces), distinct_traces=distinct,
                            trace_events=sum(len(s['events']) for s in traces), model_generated_scenarios=len(msc),
                            models=[{k: m[k] for k in ('model', 'states', 'transitions')} for m in models],
                            trace_spec=h.TRACE, trace_states=stats['states'], negative_controls=len(usable), negative_controls_rejected=len(neg_rej),
                            samples=sample, timing=timing, **extra),
              assumptions=getattr(h, 'ASSUMPTIONS', []))
    if not replay:
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s seed=%d: models %s; %d traces (%d distinct, %d events) validated, %d rejected; negative controls %d/%d rejected; %s' % (
        prop, tier, seed, ', '.join('%s %d states' % (m['model'], m['states']) for m in models) or '-', len(traces), distinct, ev['coverage']['trace_events'],
        len(rejected), len(neg_rej), len(usable), timing))
    if os.environ.get('VERIF_SHOWNEG'):
        for c in usable:
            if c['id'] in accepted: print('ACCEPTED-NEG', json.dumps(c)[:3000], '\nORIG', json.dumps([s for s in traces if s['id']==c['neg']][0])[:3000])
    for k, d in sorted(found_known.items()): print('KNOWN-FINDING: property=%s %s' % (prop, d))
    if new:
        new.sort(key=lambda s: len(json.dumps(s)))
        path = os.path.join(ev_dir, 'replay', '%s.json' % prop)
        diag = []
        for s in new[:3]:
            fd, tp = tempfile.mkstemp(suffix='.ndjson'); os.write(fd, (json.dumps(dict(id=s['id'], events=s['events'])) + '\n').encode()); os.close(fd)
            mt = tempfile.mkdtemp(prefix='vdiag')
            try:
                r = tlc(h.TRACE + '.tla', h.TRACE + '.cfg', mt, env={'TRACE': tp, 'DIAG': '1'})
                at = max([int(x.split()[1]) for x in printed(r['out'], 'AT')] or [1])
                diag.append(dict(id=s['id'], event_index=at, event=s['events'][min(at, len(s['events'])) - 1], tlc='' if r['ok'] else r['out'][-1200:]))
            except CheckError as e: diag.append(dict(id=s['id'], tlc=str(e)))
            finally:
                os.unlink(tp); shutil.rmtree(mt, ignore_errors=True)
        with open(path, 'w') as f: json.dump(dict(property=prop, seed=seed, tier=tier, first_rejected_event=diag, scenarios=new[:20]), f, indent=1)
        for d in diag: print('rejected scenario %s at event %s: %s' % (d['id'], d.get('event_index'), json.dumps(d.get('event'))[:1500]))
        print('%d of %d recorded traces are not behaviours of the specification' % (len(new), len(traces)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if not replay:
        if usable and not neg_rej: raise CheckError('no negative control was rejected: trace specification is not binding')
        for k, v in extra.items():
            if v == 0: raise CheckError('coverage counter %s is zero: scenarios are vacuous' % k)
    return 0

if __name__ == '__main__':
    sys.exit(main())
