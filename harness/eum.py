"""Builds, updates and runs real catalogues from abstract scenarios; records what happened (C03-C06).

A scenario is a list of actions:
  ['files', {dir: [names]}]                      (directories below the scratch directory, "$")
  ['code', svn, rec]                             (svn: revision text or 'mixed')
  ['build', desc, mode, filter, pathdefault, allow, bad]
  ['crashbuild', desc, mode, filter, pathdefault, allow, bytes]
  ['count', q, size] ['suite', q, size] ['run', q, index, size, batch, allow, justlist, via] ['multi', q, size, batch, allow, justlist]
desc: {datasets: [{name, path, subsets: [patterns]}], operations: [{name, target, step, newdatasets, params}]}, patterns as token lists.
"""
import datetime, hashlib, io, json, os, re, resource, shutil, signal, stat, sys

BASE = datetime.datetime(1850, 1, 1)
CLS = 'python_class'

def t3(t):
    if t is None: return dict(d=-1, s=-1, u=-1)
    t = t + datetime.timedelta(microseconds=500000)
    td = t.replace(microsecond=0) - BASE
    return dict(d=td.days, s=td.seconds, u=0)

def unt3(t): return BASE + datetime.timedelta(days=t['d'], seconds=t['s'])

STEPS = dict(once='eumopps.catalogue.step.StepOnce', daily='eumopps.catalogue.step.StepDaily',
             annual='eustace.analysis.advanced_standard.examples.step.StepAnnual', monthly='eustace.analysis.advanced_standard.examples.step.StepMonthly')
EX = 'eustace.analysis.advanced_standard.examples.placeholder.'
PL = 'eumopps.catalogue.placeholder.'
KINDS = dict(inputfile=PL + 'InputFile', inputlist=PL + 'InputFileList', annualdays=EX + 'AnnualBatchDays', steptime=PL + 'StepTime', stepindex=PL + 'StepIndex',
             analysisindex=EX + 'AnalysisStepIndex', batchdayindices=EX + 'AnalysisAnnualBatchDayIndices', output=PL + 'OutputFile', outputdays=EX + 'AnnualBatchDaysOutput',
             timestamp='eumopps.catalogue.operationparameters.OperationTimeStamp', catalogueid='eumopps.catalogue.operationparameters.OperationCatalogueID')

def json_dataset(d, tmp):
    r = {CLS: 'eumopps.catalogue.dataset.CatalogueDataSet', 'name': d['name'],
         'subsets': [{CLS: 'eumopps.catalogue.dataset.CatalogueDataSubset', 'layout': {CLS: 'eumopps.catalogue.storage.DataStorageFiles', 'patterns': [''.join(p) for p in s]}} for s in d['subsets']]}
    if d['path']: r['path'] = d['path'].replace('$', tmp)
    return r

def json_param(p):
    if p['kind'] == 'const': return p['value']
    r = {CLS: KINDS[p['kind']]}
    if 'ds' in p and p['ds']:
        r['datasetname'] = p['ds']
        if p['sub'] != 0 or p.get('explicit'): r['subsetindex'] = p['sub']
        if p.get('policy') and (p['policy'] != 'not_allowed' or p.get('explicit')): r['missing_data'] = p['policy']
    return r

def json_operation(o, tmp):
    if o['target'].rsplit('.', 1)[1][0].isupper(): rm = {CLS: o['target']}
    else: rm = {'python_function': o['target']}
    for p in o['params']:
        cur = rm
        parts = p['key'].split('.')
        for k, part in enumerate(parts):                      # 'a.b' dictionary in dictionary, 'a.0.b' list of dictionaries
            last = k == len(parts) - 1
            if isinstance(cur, list):
                i = int(part)
                while len(cur) <= i: cur.append({})
                cur = cur[i]
            elif last: cur[part] = json_param(p)
            else: cur = cur.setdefault(part, [] if parts[k + 1].isdigit() else {})
    s = o['step']
    step = {CLS: STEPS[s['kind']]}
    if s['kind'] != 'once': step.update(start=unt3(s['start']).strftime('%Y%m%d%H%M%S'), end=unt3(s['end']).strftime('%Y%m%d%H%M%S'))
    r = {CLS: 'eumopps.catalogue.operation.Operation', 'runmodule': rm, 'step': step}
    if o['name']: r['name'] = o['name']
    if o['newdatasets']: r['newdatasets'] = [json_dataset(d, tmp) for d in o['newdatasets']]
    return r

def json_catalogue(desc, tmp):
    r = {CLS: 'eumopps.catalogue.catalogue.Catalogue'}
    if desc['datasets']: r['datasets'] = [json_dataset(d, tmp) for d in desc['datasets']]
    if desc['operations']: r['operations'] = [json_operation(o, tmp) for o in desc['operations']]
    return r

class World(object):
    def __init__(self, tmp, rec):
        self.tmp = os.path.realpath(tmp); self.rec = rec
        self.cat = os.path.join(self.tmp, 'catalogue.nc')
        self.ids = []; self.n = 0
        b = os.path.join(self.tmp, 'bin'); os.makedirs(b)
        self.svn = os.path.join(b, 'svnversion')
        os.environ['PATH'] = b + ':' + os.environ['PATH'].split(self.tmp + ':')[-1]
        self.set_svn('100')

    def set_svn(self, text):
        with open(self.svn, 'w') as f: f.write('#!/bin/sh\necho %s\n' % ('98:100M' if text == 'mixed' else text))
        os.chmod(self.svn, 0o755)

    def digest(self):
        return hashlib.sha1(open(self.cat, 'rb').read()).hexdigest() if os.path.exists(self.cat) else ''

    def ident(self):
        from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
        return CatalogueReaderNetCDF().load_identifier(self.cat)

    def short(self, text): return str(text).replace(self.tmp, '$')

    def snapshot(self):
        from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
        c = CatalogueReaderNetCDF().load(self.cat)
        ident = c.identifier
        if ident not in self.ids: self.ids.append(ident)
        def target(o):
            return o.runmodule['python_function'] if isinstance(o.runmodule, dict) else o.runmodule.__class__.__module__ + '.' + o.runmodule.__class__.__name__
        return dict(id=self.ids.index(ident) + 1,
                    ds=[dict(name=d.name, path=self.short(d.path), subsets=[[dict(name=m.name, time=t3(m.time)) for m in s.matches] for s in d.subsets]) for d in c.datasets],
                    ops=[dict(name=o.name or '', target=target(o), count=int(o.count)) for o in c.operations])

    def encode(self, v):
        if v is None: return ['<none>']
        if isinstance(v, (list, tuple)):
            r = []
            for x in v: r += self.encode(x)
            return r
        if isinstance(v, datetime.datetime):
            v = v + datetime.timedelta(microseconds=500000)
            return [v.strftime('%Y%m%d%H%M%S')]
        if isinstance(v, str):
            if v == self.ident(): return ['<id>']
            if v == 'TIMESTAMP' or ' eumopps.catalogue.' in v: return ['<ts>']
            return [self.short(v)]
        if hasattr(v, 'tolist'): return self.encode(v.tolist())
        return [str(v)]

    def args(self, kw):
        out = []
        def walk(prefix, v):
            if isinstance(v, dict):
                for k in v: walk(prefix + [k], v[k])
            elif isinstance(v, list) and v and isinstance(v[0], dict):
                for i, x in enumerate(v): walk(prefix + [str(i)], x)
            else: out.append(dict(key='.'.join(prefix), val=self.encode(v)))
        walk([], kw)
        return sorted(out, key=lambda x: x['key'])

    def do_build(self, desc, mode, filt, pathdefault, allow, bad, via='function'):
        from eumopps.catalogue import build
        from eumopps.version.svn import set_allow_unversioned_code
        self.n += 1
        path = os.path.join(self.tmp, 'desc%d.json' % self.n)
        if bad == 'missing': pass
        else:
            text = json.dumps(json_catalogue(desc, self.tmp))
            if bad == 'json': text = text[:-3]
            if bad == 'class': text = text.replace('storage.DataStorageFiles', 'storage.DataStorageFilez').replace('catalogue.operation.Operation', 'catalogue.operation.Operatione')
            with open(path, 'w') as f: f.write(text)
        set_allow_unversioned_code(False)
        pd = pathdefault.replace('$', self.tmp) or None
        if via == 'main':
            argv = (['--dataset_filter', filt] if filt else []) + (['--allow_unversioned_code'] if allow else []) + ({'update': ['--update'], 'overwrite': ['--overwrite'], 'new': []}[mode]) + (['--pathdefault', pd] if pd else []) + [path, self.cat]
            build.main(argv)
        else:
            build.build_from_json_file(path, self.cat, dataset_filter=filt or None, update=mode == 'update', overwrite=mode == 'overwrite', pathdefault=pd, allow_unversioned_code=allow, nochecksum=self.n % 2 == 0)

    def do(self, a):
        from vrec import rec as vr, toolchain as vt
        from eumopps.version.svn import set_allow_unversioned_code
        k = a[0]
        if k == 'files':
            for d in a[1]:
                p = os.path.join(self.tmp, d.replace('$/', ''))
                shutil.rmtree(p, ignore_errors=True); os.makedirs(p)
                for n in a[1][d]:
                    f = os.path.join(p, n); os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, 'w') as h: h.write(n)
            self.rec('files', **{'in': dict(dirs=[dict(path=d, names=list(a[1][d])) for d in sorted(a[1])])})
        elif k == 'code':
            self.set_svn(a[1]); vt.VERSION[0] = a[2]
            self.rec('code', **{'in': dict(svn=a[1], rec=a[2])})
        elif k in ('build', 'crashbuild'):
            desc, mode, filt, pd, allow, x = a[1:7]
            before = self.digest()
            inp = dict(desc=desc, mode=mode, filter=filt, pathdefault=pd, allow=allow, bad=bool(x) if k == 'build' else False)
            if k == 'build':
                try: self.do_build(desc, mode, filt, pd, allow, x, a[7] if len(a) > 7 else 'function'); ok = True
                except (Exception, SystemExit): ok = False
            else:
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.alarm(0)
                        if x[1] == 'kill': signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        resource.setrlimit(resource.RLIMIT_FSIZE, (x[0], resource.RLIM_INFINITY))
                        self.do_build(desc, mode, filt, pd, allow, False)
                        os._exit(0)
                    except BaseException: os._exit(1)
                self.n += 1
                _, status = os.waitpid(pid, 0)
                ok = True
            same = self.digest() == before
            if k == 'build': out = dict(ok=ok, same=same)
            else: out = dict(same=same, ok=not same)
            if out['ok']: out.update(self.snapshot())
            self.rec(k, **{'in': inp, 'out': out})
        elif k == 'count':
            from eumopps.catalogue import commandcount
            from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
            try:
                if a[2] > 1 or len(a[1]) % 2:
                    s = io.StringIO(); commandcount.main([self.cat, a[1], '--batchsize', str(a[2])], s); n = int(s.getvalue())
                else: n = CatalogueReaderNetCDF().operationcount(self.cat, a[1], a[2])
                out = dict(ok=True, n=int(n))
            except Exception: out = dict(ok=False, n=0)
            self.rec('count', **{'in': dict(q=a[1], size=a[2]), 'out': out})
        elif k == 'suite':
            from eumopps.catalogue.jinja import eumopps_cylc as ec, batches
            if not os.path.exists(self.cat): return
            spec = {a[1]: dict(catalogue=self.cat, batchsize=a[2])}
            b = batches.BatchSpecification(self.cat, a[1], a[2])
            task = ec.eumopps_cylc(spec, 'module_subtask', a[1])
            assert (' commandrun ' in task.replace('eumopps.catalogue.commandrun', 'commandrun')) and (self.cat + ' ' + a[1] + ' ' in task)
            self.rec('suite', **{'in': dict(q=a[1], size=a[2]), 'out': dict(
                ops=int(b.operation_count()), points=int(ec.eumopps_cylc(spec, 'cycle_points_required')), first=ec.eumopps_cylc(spec, 'initial_cycle_point'), all=int(ec.eumopps_cylc(spec, 'final_cycle_point')),
                last=int(re.match(r'R/P1/(-?\d+)$', ec.eumopps_cylc(spec, 'module_scheduling', a[1])).group(1)),
                max=int(re.search(r'= 0\.\.(-?\d+)', ec.eumopps_cylc(spec, 'parameters')).group(1)), size=int(re.search(r'--use_batch_size (\d+)', task).group(1)))})
        elif k == 'run':
            from eumopps.catalogue import commandrun
            q, index, size, batch, allow, justlist, via = a[1:8]
            del vr.CALLS[:]
            try:
                if via == 'main':
                    argv = [self.cat, q, str(index)] + (['--use_batch_size', str(size)] if size else []) + (['--batch', str(batch)] if batch >= 0 else []) + (['--allow_unversioned_code'] if allow else []) + (['--list'] if justlist else [])
                    if index < 0: argv = argv[:2] + ['--'] + argv[2:3]
                    commandrun.main(argv)
                else:
                    set_allow_unversioned_code(allow)
                    commandrun.commandrun('TIMESTAMP', self.cat, q, index, use_batch_size=size or None, batch=batch if batch >= 0 else None, justlist=justlist, allow_toolchain_mismatch=allow)
                ok = True
            except (Exception, SystemExit): ok = False
            self.rec('run', **{'in': dict(q=q, index=index, size=size, batch=batch, allow=allow, justlist=justlist), 'out': dict(ok=ok, calls=[dict(target=t, args=self.args(kw)) for t, kw in vr.CALLS])})
        elif k == 'multi':
            from eumopps.catalogue import multiplecommandsrun as mc
            q, size, batch, allow, justlist = a[1:6]
            del vr.CALLS[:]; del vr.OUTER[:]
            set_allow_unversioned_code(allow)
            try:
                mc.multiple_commands_run('TIMESTAMP', self.cat, 'vrec.rec.outer', q, size, batch, allow, justlist); ok = True
            except (Exception, SystemExit): ok = False
            self.rec('multi', **{'in': dict(q=q, size=size, batch=batch, allow=allow, justlist=justlist),
                                 'out': dict(ok=ok, calls=[dict(target=t, args=self.args(kw)) for t, kw in vr.CALLS], outer=[[self.args(kw) for kw in r] for r in vr.OUTER])})
        else: raise ValueError(k)

def execute(sc, rec, tmp):
    path = os.environ['PATH']
    try:
        w = World(tmp, rec)
        for a in sc['actions']: w.do(a)
    finally: os.environ['PATH'] = path

# ------------------------------------------------------------------ generation
def day(y, m, d, s=0):
    return dict(d=(datetime.datetime(y, m, d) - BASE).days, s=s, u=0)

def plus(t, n, s=None): return dict(d=t['d'] + n, s=t['s'] if s is None else s, u=0)

PATTERNS = dict(day=[[['in_', '%Y', '%m', '%d', '.nc']], [['%Y', '/'], ['x', '%Y', '%m', '%d', '.bin']], [['%d', '_', '%m', '_', '%Y']], [['%A', '_', '%Y', '%m', '%d']], [['%Y', '%m', '%d', '%H', '.nc']]],
                month=[[['m', '%Y', '%m', '.nc']], [['%Y', '/'], ['%m', '.nc']]], year=[[['y', '%Y', '.nc']], [['%Y', '/'], ['y', '%Y']]], fixed=[[['fixed.nc']], [['d/'], ['fix.nc']]])

def render(rng, patterns, t):
    x = unt3(t)
    tag = rng.choice(['p', 'q', 'rs'])
    hour = rng.choice(['00', '06', '23'])
    return ''.join({'%Y': x.strftime('%Y'), '%m': x.strftime('%m'), '%d': x.strftime('%d'), '%H': hour, '%A': tag}.get(k, k) for p in patterns for k in p)

class Gen(object):
    """Random scenarios around a period."""
    def __init__(self, rng):
        self.rng = rng
        self.pol = ['not_allowed', 'allowed', 'skip']
        y, m, d = rng.choice([(1999, 12, 30), (2000, 2, 27), (1900, 2, 27), (1850, 1, 1), (2001, 1, 1), (2004, 2, 28), (2015, 7, 30)])
        self.t0 = day(y, m, d)
        self.kind = rng.choice(['daily'] * 5 + ['annual', 'monthly', 'once'])
        n = rng.choice([1, 2, 3, 3, 4, 5]) if self.kind != 'annual' else rng.choice([1, 2, 20, 370])
        self.period = (self.t0, plus(self.t0, n - 1))
        if rng.random() < 0.2: self.period = (plus(self.t0, 0, rng.choice([0, 0, 43200])), plus(self.t0, n - 1, rng.choice([0, 43200, 86399])))
        if self.period[0]['d'] == self.period[1]['d'] and self.period[1]['s'] < self.period[0]['s']: self.period = (self.t0, self.period[1])
        self.dirs = {}
        self.dup = 0.08
        self.cyclic = False      # names of outputs that come round again
        self.known = {}          # data set name -> list of patterns
        self.nds = 0
        self.inside = rng.random() < 0.5   # no files outside the period
        self.clean = set()       # data sets with daily files, all inside the period

    def step(self, kind=None):
        kind = kind or self.kind
        a, b = self.period
        if kind == 'daily' and b['d'] - a['d'] > (34 if self.cyclic else 20): b = plus(a, 4)
        return dict(kind=kind, start=a, end=b, n=0)

    def times(self):
        rng = self.rng
        a, b = self.period
        span = list(range(a['d'] - 2, b['d'] + 3))
        if self.inside: span = list(range(a['d'], b['d'] + 1))
        if len(span) > 12: span = span[:4] + rng.sample(span, 5) + span[-4:]
        if self.kind in ('monthly', 'annual') and not self.inside: span += [a['d'] + 31, a['d'] + 62, a['d'] - 31, a['d'] + 366]
        return [dict(d=x, s=0, u=0) for x in span]

    def dataset(self, gran=None, density=None):
        rng = self.rng
        gran = gran or rng.choice(['day'] * 4 + ['month', 'year', 'fixed'])
        self.nds += 1
        name = 'in%d' % self.nds
        path = '$/%s' % name + ('/' if rng.random() < 0.2 else '')
        subs = [rng.choice(PATTERNS[gran])]
        if rng.random() < 0.2: subs.append(rng.choice(PATTERNS[rng.choice(['day', 'fixed'])]))
        self.dirs['$/%s' % name] = self.names(subs, density)
        self.known[name] = subs
        if self.inside and all(any('%d' in x for x in s) for s in subs): self.clean.add(name)
        return dict(name=name, path=path, subsets=subs)

    def names(self, subs, density=None):
        rng = self.rng
        density = density if density is not None else rng.choice([1.0, 1.0, 0.6, 0.3, 0.0])
        out = set()
        for t in self.times():
            if rng.random() < density:
                for p in subs:
                    out.add(render(rng, p, t))
                    if rng.random() < self.dup: out.add(render(rng, p, t))
        if rng.random() < 0.3: out.add('stray.txt')
        out = [x for x in out if not any(o != x and o.startswith(x + '/') for o in out)]
        rng.shuffle(out)
        return out

    def newdataset(self, gran):
        self.nds += 1
        name = 'out%d' % self.nds
        rng = self.rng
        subs = [[list(t) for t in rng.choice(PATTERNS[gran])]]
        # names produced have no tags
        subs = [[['o'] + [x for x in p if x not in ('%A',)] if i == len(s) - 1 else p for i, p in enumerate(s)] for s in subs]
        if rng.random() < 0.15: subs.append([['b', '%Y', '%m', '%d']])
        if self.cyclic: subs[0] = rng.choice([[['c_', '%d']], [['%m', '/'], ['c']], [['%m', '%d']], [['c_', '%m', '.nc']]])
        self.known[name] = subs
        return dict(name=name, path='' if rng.random() < 0.6 else '$/o/%s' % name, subsets=subs)

    def operation(self, name, inputs, outputs=1, target=None):
        rng = self.rng
        st = self.step()
        if rng.random() < 0.15: st = self.step(rng.choice(['once', 'daily', 'annual', 'monthly']))
        gran = dict(daily='day', once='fixed', annual='year', monthly='month')[st['kind']]
        params, nd = [], []
        k = 0
        def key():
            r = rng.random()
            return 'p%d' % k if r < 0.75 else ('nest.p%d' % k if r < 0.87 else 'list.%d.p%d' % (0, k))
        for ds in inputs:
            k += 1
            kind = rng.choice(['inputfile', 'inputfile', 'inputlist'])
            if st['kind'] == 'annual' and rng.random() < 0.6: kind = 'annualdays'
            sub = 0 if rng.random() < 0.93 else rng.choice([1, 2])
            pol = rng.choice(self.pol)
            if kind == 'annualdays' and ds not in self.clean:
                # known findings annual_outside_days and annual_fixed_part_day
                pol = 'allowed'
                if (st['start']['s'] or st['end']['s']) and not all(any(x in ('%Y', '%d') for c in s for x in c) for s in self.known.get(ds, [])): kind = 'inputlist'
            params.append(dict(key=key(), kind=kind, ds=ds, sub=sub, policy=pol, explicit=rng.random() < 0.5))
        for j in range(outputs):
            k += 1
            g = gran if rng.random() < 0.8 else rng.choice(['day', 'month', 'year', 'fixed'])
            kind = 'output'
            if st['kind'] == 'annual' and rng.random() < 0.5: kind = 'outputdays'; g = 'day'
            d = self.newdataset(g); nd.append(d)
            params.append(dict(key=key(), kind=kind, ds=d['name'], sub=0, policy='', explicit=False))
        for extra in rng.sample(['steptime', 'stepindex', 'analysisindex', 'batchdayindices', 'const', 'timestamp', 'catalogueid'], rng.randint(0, 3)):
            if extra in ('steptime',) and st['kind'] == 'once': continue
            if extra == 'analysisindex' and not (st['kind'] == 'daily' and st['start']['s'] == 0): continue
            if extra == 'batchdayindices' and st['kind'] != 'annual': continue
            k += 1
            params.append(dict(key=key(), kind=extra, ds='', sub=0, policy='', explicit=False, value='const%d' % k))
        rng.shuffle(params)
        for p in params: p.setdefault('value', '')
        return dict(name=name, target=target or rng.choice(['vrec.rec.run', 'vrec.rec.run2', 'vrec.rec.Module', 'vrec.rec.Module2']), step=st, newdatasets=nd, params=params)

def from_model(log, rng):
    """Actions for a history emitted by MC_Catalogue: after every build, count and run everything built so far."""
    acts = [['code', '100', '1']]; names = []
    for e in log:
        if e['a'] == 'files':
            acts.append(['files', {'$/raw': ['in_' + unt3(dict(d=55150 + k, s=0)).strftime('%Y%m%d') for k in sorted(e['days'])]}])
        elif e['a'] == 'build':
            acts.append(['build', e['desc'], e['mode'], '', '$/o', False, ''])
            names += [o['name'] for o in e['desc']['operations']]
            acts += exercise(sorted(set(names)), rng, 3)
    return acts

def exercise(names, rng, upto, allow=False):
    acts = []
    for n in names:
        size = rng.choice([1, 1, 2, 3, 4])
        acts.append(['count', n, size])
        if size == 1: acts += [['run', n, k, 0, -1, allow, False, 'function'] for k in range(upto + 1)]
        else: acts += [['run', n, k, size, b, allow, False, 'function'] for b in range(upto // size + 1) for k in range(size)]
    return acts

def model_scenarios(rng, model, n):
    for m in rng.sample(model, min(n, len(model))): yield dict(actions=from_model(m['log'], rng))

def cat_vacuity(traces):
    ev = lambda k: [e for t in traces for e in t['events'] if e['a'] == k]
    b, r, c, m = ev('build'), ev('run'), ev('crashbuild'), ev('multi')
    vals = [v for e in r for call in e['out']['calls'] for a in call['args'] for v in a['val']]
    d = dict(builds=sum(e['out']['ok'] for e in b), refused_builds=sum(not e['out']['ok'] for e in b), runs=sum(e['out']['ok'] for e in r), refused_runs=sum(not e['out']['ok'] for e in r),
             missing_values=vals.count('<none>'), updates=sum(e['out']['ok'] and e['in']['mode'] == 'update' for e in b))
    if c: d.update(crashes_before=sum(e['out']['same'] for e in c), crashes_complete=sum(not e['out']['same'] for e in c))
    if m: d.update(batches_run=sum(e['out']['ok'] for e in m), batches_refused=sum(not e['out']['ok'] for e in m))
    return d
MODELS = [dict(module='MC_Catalogue.tla', cfg='MC_Catalogue.cfg', tier='quick', workers=4), dict(module='MC_Catalogue.tla', cfg='MC_CatalogueT.cfg', tier='thorough', workers=6, heap='8g', timeout=700)]
ASSUMPTIONS = ['svnversion is stood in for by a script on PATH; operations are recording functions and classes', 'values that a run receives are compared as text, times to whole seconds',
               'when several files of one day exist for an annual batch, any one of them may be used']
