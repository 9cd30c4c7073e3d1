"""C18: merging the daily products of several sources."""
import json, os, hashlib, resource, signal
MODELS = [dict(module='MC_Merge.tla', cfg='MC_Merge.cfg', tier='quick', workers=2), dict(module='MC_Merge.tla', cfg='MC_MergeT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C18'
TIMEOUT = 120
NEG = 120
NA = -99999
ASSUMPTIONS = ['grids are reduced (GLOBAL_FIELD_SHAPE is set to a small grid)', 'values are compared as the integers of the packed variables; uncertainties up to 60 units, correlations between 0 and 1',
               'write failures are injected when several sources are merged (a single source is changed in place and renamed)']
LABELS = ['AATSR', 'ATSR2', 'MODIS', 'A', 'ATSR', '2002', 'x1']
SHAPE = (1, 2, 3)
PRIM = [('TAS', 'tas', 'mean', 'TASUNCERTAINTY', 'tasuncertainty'), ('TASMIN', 'tasmin', 'mean', 'TASMINUNCERTAINTY', 'tasminuncertainty')]
ANC = ['SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM', 'SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_LOCALLYCORRELATED', 'SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_SYSTEMATIC']

def field(rng, uncertain):
    p = rng.choice([0.0, 0.0, 0.3, 0.3, 0.7, 1.0])
    one = lambda: (rng.choice([0, 1, 2, rng.randint(0, 60)]) if uncertain else rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-30000, 30000)]))
    return [NA if rng.random() < p else one() for _ in range(SHAPE[1] * SHAPE[2])]

def day(rng, n, main, anc, number, date=None):
    labels = rng.sample(LABELS, n)
    dates = [number] * n
    if rng.random() < 0.08: dates[rng.randrange(n)] += 1
    adates = list(dates)
    if n > 1 and rng.random() < 0.08: adates[rng.randrange(n)] += rng.choice([-1, 1])
    return dict(src=[dict(label=labels[i], main=main[i], anc=anc[i], date=dates[i], adate=adates[i], none=rng.random() < 0.5) for i in range(n)], seed=rng.randint(0, 10 ** 9))

def scenarios(rng, tier, model):
    big = tier != 'quick'; k = 12 if big else 1
    nprim = lambda: rng.choice([1, 1, 2])
    base = lambda n: dict(nprim=nprim(), nanc=rng.choice([0, 1, 2, 3]), corr=[[rng.choice([0, 100, 50, 25, 10]) for _ in range(n * (n - 1) // 2)] for _ in range(3)], dir=rng.choice(['plain', 'plain', 'label']))
    seen = set()
    for s in sorted(model, key=lambda s: json.dumps(s, sort_keys=True)):
        n = s['n']; main = [i + 1 in s['main'] for i in range(n)]; anc = [i + 1 in s['anc'] for i in range(n)]
        fault = s['at'] if s['at'] not in ('refused', 'nothing', 'done') else None
        key = (tuple(main), tuple(anc), fault and fault.split('_')[0])
        if key in seen: continue
        seen.add(key)
        acts = [dict(fault=fault)] if fault else []
        yield dict(base(n), days=[day(rng, n, main, anc, 40000)], via='single', acts=acts + [dict(fault=None)] * rng.choice([1, 2]), again=True, seed=rng.randint(0, 10 ** 9))
    for i in range(250 * k):
        n = rng.choice([1, 2, 2, 3, 3, 4]); q = rng.choice([0.0, 0.0, 0.3, 0.6])
        main = [rng.random() >= q for _ in range(n)]
        anc = list(main)
        if rng.random() < 0.12: anc = [rng.random() < 0.5 for _ in range(n)]
        fault = rng.choice([None, None, 'open_main', 'close_main', 'open_anc', 'close_anc', 'remove_main', 'remove_anc'])
        acts = [dict(fault=fault)] if fault else []
        yield dict(base(n), days=[day(rng, n, main, anc, rng.randint(40000, 60000))], via='single', acts=acts + [dict(fault=None, wrongname=rng.random() < 0.1)], seed=rng.randint(0, 10 ** 9))
    for i in range(30 * k):
        n = rng.choice([1, 2, 3]); m = rng.choice([1, 2, 3]); via = rng.choice(['multiple', 'direct'])
        ds = []
        for j in range(m):
            main = [via == 'direct' or rng.random() < 0.8 for _ in range(n)]
            d = day(rng, n, main, main, 50000 + j)
            for s in d['src']: s['date'] = s['adate'] = 50000 + j
            ds.append(d)
        yield dict(base(n), days=ds, via=via, acts=[dict(fault=None)], seed=rng.randint(0, 10 ** 9))

# ---------------------------------------------------------------- files
def put(path, date, variables):
    from netCDF4 import Dataset
    import numpy
    nc = Dataset(path, 'w')
    nc.createDimension('time', None); nc.createDimension('latitude', SHAPE[1]); nc.createDimension('longitude', SHAPE[2])
    t = nc.createVariable('time', 'f4', ('time',)); t.units = 'days since 1850-01-01T00:00:00Z'; t[:] = [date]
    for name, (scale, offset), vals in variables:
        v = nc.createVariable(name, 'i2', ('time', 'latitude', 'longitude'), fill_value=-32768)
        v.scale_factor = scale; v.add_offset = offset; v.set_auto_maskandscale(False)
        v[:] = numpy.array([-32768 if x == NA else x for x in vals], numpy.int16).reshape(SHAPE)
    nc.comment = 'as produced'
    nc.close()

def get(path, names):
    """packed integers of a file, whether or not it can be read (in a process of its own: a broken file may stay open)"""
    if not os.path.exists(path): return dict(st='absent', date=0, v=[])
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try: os.write(w, json.dumps(read(path, names)).encode())
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else dict(st='broken', date=0, v=[])

def read(path, names):
    from netCDF4 import Dataset
    try:
        nc = Dataset(path, 'r'); r = []
        for n in names:
            if n not in nc.variables: continue
            v = nc.variables[n]; v.set_auto_maskandscale(False); fill = int(v._FillValue) if '_FillValue' in v.ncattrs() else None
            r.append(dict(name=n, v=[NA if int(x) == fill else int(x) for x in v[:].ravel()]))
        date = int(nc.variables['time'][:][0]); nc.close()
        return dict(st='ok', date=date, v=r)
    except Exception: return dict(st='broken', date=0, v=[])

def digest(p):
    return hashlib.md5(open(p, 'rb').read()).hexdigest() if os.path.exists(p) else None

def execute(sc, rec, tmp):
    import random, numpy
    from eustace.outputformats import definitions
    definitions.GLOBAL_FIELD_SHAPE = SHAPE
    from eustace.outputformats import merge_multiple_outputs as MM
    from eustace.outputformats.filesmerger import FilesMerger
    from eustace.surfaceairmodel.correlation_ranges import CorrelationRanges
    prim = PRIM[:sc['nprim']]; ancs = ANC[:sc['nanc']]
    ancnames = [getattr(definitions, a).name for a in ancs]
    pack = lambda var: (getattr(definitions, var).scale_factor, getattr(definitions, var).add_offset)
    days = []
    for k, d in enumerate(sc['days']):
        rng = random.Random(d['seed'])
        n = len(d['src'])
        out = os.path.join(tmp, 'out_%s' % d['src'][0]['label'] if sc['dir'] == 'label' else 'out', 'day%d' % k); os.makedirs(out)
        pv = [dict(name=p[1], kind='mean', r=[], v=[field(rng, False) for _ in range(n)]) for p in prim] + [dict(name=p[4], kind='total', r=[], v=[field(rng, True) for _ in range(n)]) for p in prim]
        av = [dict(name=a, kind='prop', r=sc['corr'][j], v=[field(rng, True) for _ in range(n)]) for j, a in enumerate(ancnames)]
        const = {p[1]: p[0] for p in prim}; const.update({p[4]: p[3] for p in prim}); const.update(dict(zip(ancnames, ancs)))
        paths = []; sums = []
        for i, s in enumerate(d['src']):
            pm = os.path.join(out, 'tas_ocean_eustace_0_%s_20030405.nc' % s['label']); pa = os.path.join(out, 'ancillary_ocean_eustace_0_%s_20030405.nc' % s['label'])
            if s['main']: put(pm, s['date'], [(v['name'], pack(const[v['name']]), v['v'][i]) for v in pv])
            if s['anc']: put(pa, s['adate'], [(v['name'], pack(const[v['name']]), v['v'][i]) for v in av])
            paths.append((pm, pa)); sums.append((digest(pm), digest(pa)))
        merged = (os.path.join(out, 'tas_ocean_eustace_0_20030405.nc'), os.path.join(out, 'ancillary_ocean_eustace_0_20030405.nc'))
        days.append(dict(d=d, paths=paths, sums=sums, merged=merged, pv=pv, av=av))
        rec('day', **{'in': dict(src=[dict(label=s['label'], main=s['main'], anc=s['anc'], date=s['date'], adate=s['adate']) for s in d['src']], cells=SHAPE[1] * SHAPE[2], prim=pv, anc=av)})
    def arguments(x, wrong):
        m = [None if (s['none'] and not s['main']) else p[0] for s, p in zip(x['d']['src'], x['paths'])]
        a = [None if (s['none'] and not s['anc']) else p[1] for s, p in zip(x['d']['src'], x['paths'])]
        corr = repr([[c / 100.0 for c in v['r']] for v in x['av']])
        names = [q + '.other' if wrong else q for q in x['merged']]
        return MM.return_daily_outputs('CAT', 'here', names[0] if not wrong else [names[0]], names[1] if not wrong else [names[1]], corr, 'from ', 'eustace.outputformats.definitions',
            [p[0] for p in prim], [p[3] for p in prim], ancs, CorrelationRanges(['unc_corr_tas', 'unc_corr2_tas'], ['km', 'day'], [100, 1000], [1, 3]), m, a)
    def call(act):
        if sc['via'] == 'single': MM.merge_single_day_outputs(**arguments(days[0], act.get('wrongname', False)))
        elif sc['via'] == 'multiple': MM.merge_multiple_days_outputs([arguments(x, False) for x in days])
        else:
            g = lambda v: getattr(definitions, v)
            f = FilesMerger([p[0] for x in days for p in x['paths']], [p[1] for x in days for p in x['paths']], numpy.array([len(x['paths']) for x in days], numpy.int64),
                [g(p[0]) for p in prim], [g(p[3]) for p in prim], [g(a) for a in ancs], [[c / 100.0 for c in r] for r in sc['corr'][:len(ancs)]])
            f.merge_outputs_from_multiple_daily_sources('here', 'here', 'CAT')
            f.check_produced_output([x['merged'][0] for x in days], [x['merged'][1] for x in days])
    rng = random.Random(sc['seed'])
    for act in sc['acts']:
        fault = act['fault']; status = 'ok'
        present = sum(1 for s in days[0]['d']['src'] if s['main'] and s['anc'])
        if fault and present == 1 and not fault.startswith('remove'): fault = 'rename'
        if fault:
            size = rng.choice([0, 500, 2000, 6000, 9000, 12000, 15000, 18000, 22000, 26000, 30000, 35000, 40000, 60000]); mode = rng.choice(['kill', 'error']); kth = rng.randint(0, 5)
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(0); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    if fault.split('_')[0] in ('open', 'close'):
                        if mode == 'kill': signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
                    else:
                        import shutil
                        left = [kth]
                        def wrap(f):
                            def g(*a, **k):
                                if left[0] == 0:
                                    if mode == 'kill': os._exit(3)
                                    raise OSError(5, 'failed')
                                left[0] -= 1; return f(*a, **k)
                            return g
                        os.remove = wrap(os.remove); os.unlink = wrap(os.unlink); os.rename = wrap(os.rename); os.replace = wrap(os.replace)
                    call(act); os._exit(0)
                except BaseException: os._exit(1)
            os.waitpid(pid, 0)
        else:
            try: call(act)
            except (ValueError, OSError, RuntimeError): status = 'error'
        for k, x in enumerate(days):
            labels = [s['label'] for s in x['d']['src']]
            names = [v['name'] for v in x['pv'] + x['av']]
            same = lambda i, j: (digest(x['paths'][i][j]) is not None) and digest(x['paths'][i][j]) == x['sums'][i][j]
            there = lambda i, j: os.path.exists(x['paths'][i][j])
            single = sum(1 for s in x['d']['src'] if s['main'] and s['anc']) == 1
            intact = there if single else same          # a single source may have its comment changed before it is renamed
            if single:
                def intact(i, j):
                    vs = (x['pv'], x['av'])[j]; g = get(x['paths'][i][j], [v['name'] for v in vs])
                    return g['st'] == 'ok' and g['v'] == [dict(name=v['name'], v=v['v'][i]) for v in vs]
            rec('merge', **{'in': dict(day=k + 1, fault=bool(fault), wrongname=bool(act.get('wrongname', False))),
                'out': dict(status=status, main=[intact(i, 0) if s['main'] else there(i, 0) for i, s in enumerate(x['d']['src'])], anc=[intact(i, 1) if s['anc'] else there(i, 1) for i, s in enumerate(x['d']['src'])],
                            mm=get(x['merged'][0], [v['name'] for v in x['pv']]), ma=get(x['merged'][1], [v['name'] for v in x['av']] + [q + '_' + l for q in names for l in labels]))})

def mutate(s, rng):
    """negative control: a merged value moved, a source file gone or a status changed"""
    c = json.loads(json.dumps(s))
    ev = [e for e in c['events'] if e['a'] == 'merge' and 'out' in e and not e['in']['fault']]
    if not ev: return None
    e = rng.choice(ev); o = e['out']
    w = rng.choice(['value', 'value', 'status', 'there'])
    vals = [v for f in ('mm', 'ma') for v in o[f]['v']]
    if w == 'value' and vals:
        v = rng.choice(vals); i = rng.randrange(len(v['v'])); v['v'][i] = 0 if v['v'][i] == NA else v['v'][i] + 2
    elif w == 'there': i = rng.randrange(len(o['main'])); o['main'][i] = not o['main'][i]
    else: o['status'] = 'error' if o['status'] == 'ok' else 'ok'
    return c

def vacuity(traces):
    ev = [e for t in traces for e in t['events'] if e['a'] == 'merge']
    n = lambda f: sum(1 for e in ev if f(e))
    return dict(merged=n(lambda e: e['out']['mm']['st'] == 'ok' and not e['in']['fault']), refused=n(lambda e: e['out']['status'] == 'error'), faults_sources_kept=n(lambda e: e['in']['fault'] and e['out']['mm']['st'] != 'ok'), faults_broken=n(lambda e: e['in']['fault'] and 'broken' in (e['out']['mm']['st'], e['out']['ma']['st'])),
                faults_after=n(lambda e: e['in']['fault'] and e['out']['mm']['st'] == 'ok' and not all(e['out']['main'])), nothing=n(lambda e: e['out']['status'] == 'ok' and e['out']['mm']['st'] == 'absent'))
