"""C14: statistics of points in grid boxes."""
import copy, json
MODELS = [dict(module='MC_Boxes.tla', cfg='MC_Boxes.cfg', tier='quick', workers=3), dict(module='MC_Boxes.tla', cfg='MC_BoxesT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C14'
BUILD = dict(ext=['diagnosticgrid_aggregate', 'sumcountmaxmin', 'count', 'sumsq', 'sumsqdev'])
TIMEOUT = 120
NEG = 150
ASSUMPTIONS = ['whole-number values and uncertainties out of 1, 2, 4, 5, 8, so that sums are exact', 'positions are multiples of 1/16 degree or keep away from box edges',
               'names of observables contain no underscore (field names join source, observable and statistic by underscores)', 'single precision input where the compiled operations demand it']
NAMES = ['count', 'observation_max', 'observation_min', 'observation_weightedsum', 'precision_sum', 'uncertainty_max', 'uncertainty_min']
SOURCES = ['land', 'land_Tmean', 'sea', 'Tmean']
OBSERVABLES = ['Tmean', 'Tmin', 'Tmax']
EPS = 1.0e-9

# ---------------------------------------------------------------- generator
def axis(rng, tenth):
    inc = rng.choice([4, 8, 16, 12]) if not tenth else rng.choice([4, 6, 10]); n = rng.choice([1, 2, 2, 3, 4, 5])
    return dict(start=rng.choice([0, -inc * n // 2, -inc * n, rng.randint(-40, 40), -5 * inc]), inc=inc, n=n, wrap=rng.random() < 0.5)

def position(rng, a, tenth, wild):
    k = rng.randrange(a['n'])
    if rng.random() < wild: k = rng.choice([-1, -1, a['n'], a['n'], a['n'], a['n'] + 1, -2, -a['n']])
    off = rng.choice([0, 1, a['inc'] - 1, a['inc'] // 2, rng.randrange(a['inc'])])
    if tenth: off = min(max(off, 1), a['inc'] - 1)
    return a['start'] + k * a['inc'] + off

def grid(rng, tenth): return dict(lat=axis(rng, tenth), lon=axis(rng, tenth))

def diag(rng):
    tenth = rng.random() < 0.3; g = grid(rng, tenth); wild = rng.choice([0, 0, 0, 0.05])
    for a in (g['lat'], g['lon']): a['n'] = max(2, a['n'])
    srcs = rng.sample(SOURCES, rng.choice([1, 2, 3])); obsv = rng.sample(OBSERVABLES, rng.choice([1, 2])); d0 = rng.choice([0, 1, 57000]); days = [d0, d0 + 1]
    if d0: days.append(d0 - 1)
    spread = rng.choice([0, 3, 40]); off = rng.choice([0, 0, 280])
    sources = []
    for s in srcs:
        locs = [dict(lat=position(rng, g['lat'], tenth, wild), lon=position(rng, g['lon'], tenth, wild)) for _ in range(rng.choice([1, 2, 4, 7]))]
        data = {o: [dict(loc=rng.randrange(len(locs)), day=rng.choice(days), frac=rng.choice([0, 0, 1, 8, 15]), masked=rng.random() < 0.25, v=off + rng.randint(-spread, spread), u=rng.choice([1, 2, 4, 5, 8])) for _ in range(rng.choice([0, 1, 3, 6, 12]))] for o in obsv}
        sources.append(dict(name=s, locs=locs, data=data))
    ops = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        if ops and rng.random() < 0.3: k = rng.choice([o for o in ops if o['op'] == 'add']); ops.append(dict(op='mean', source=k['source'], observable=k['observable']))
        else: ops.append(dict(op='add', source=rng.randrange(len(srcs)), observable=rng.choice(obsv), day=rng.choice(days + days[:1])))
    return dict(via='diag', grid=g, tenth=tenth, sources=sources, ops=ops, three=rng.random() < 0.5, dtype=rng.choice(['f8', 'f8', 'f4']), ldtype=rng.choice(['i4', 'i8', 'u8']), junk=rng.random() < 0.5, uscale=rng.choice([1.0, 1.0, 2.0 ** -14, 2.0 ** 30]))

def bins(rng):
    tenth = rng.random() < 0.3; g = grid(rng, tenth); wild = rng.choice([0, 0, 0, 0.05])
    for a in (g['lat'], g['lon']): a['n'] = max(2, a['n'])
    spread = rng.choice([0, 5, 60]); off = rng.choice([0, 0, 280])
    batches = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        n = rng.choice([1, 2, 4, 6, 9]); how = rng.choice(['own', 'own', 'none', 'plain', 'alternative', 'alternative'])
        pts = [dict(lat=position(rng, g['lat'], tenth, wild), lon=position(rng, g['lon'], tenth, wild), v=off + rng.randint(-spread, spread), masked=how in ('own', 'alternative') and rng.random() < 0.3, own=rng.random() < 0.3) for _ in range(n)]
        batches.append(dict(pts=pts, how=how, c=rng.randint(0, 9), two=n % 2 == 0 and rng.random() < 0.6, rename=rng.random() < 0.3))
    return dict(via='bins', grid=g, tenth=tenth, batches=batches, three=rng.random() < 0.5, means=[off + rng.randint(-spread, spread) for _ in range(g['lat']['n'] * g['lon']['n'])], mode=rng.choice(['mask', 'mask', 'plain']))

def scenarios(rng, tier, model):
    big = tier != 'quick'; k = 12 if big else 1
    ms = sorted({json.dumps(s, sort_keys=True) for s in model}); rng.shuffle(ms)
    g = dict(lat=dict(start=0, inc=8, n=2, wrap=False), lon=dict(start=0, inc=8, n=2, wrap=False))
    for s in ms[:200 * k]:
        s = json.loads(s); ops = []; sources = []
        for i, e in enumerate(s['log']):
            sources.append(dict(name=e['k'], locs=[dict(lat=1, lon=1), dict(lat=9, lon=0)], data=dict(Tmean=[dict(p, frac=0) for p in e['pts']])))
            ops.append(dict(op='add', source=i, observable='Tmean', day=1))
        ops.append(dict(op='mean', source=0, observable='Tmean'))
        yield dict(via='diag', grid=g, tenth=False, sources=sources, ops=ops, three=False, dtype='f8', ldtype='i8', junk=True)
    for i in range(500 * k): yield diag(rng)
    for i in range(400 * k): yield bins(rng)

# ---------------------------------------------------------------- execution
def axes(sc):
    from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis
    f = 10.0 if sc['tenth'] else 16.0; r = []
    if sc['three']: r.append(GridFieldAxis(zeroth=57000.0, step=1, count=1, var_name='time', circular=False, units='days since 1850-01-01 00:00:00', standard_name='time'))
    for n, name in (('lat', 'latitude'), ('lon', 'longitude')):
        a = sc['grid'][n]
        r.append(GridFieldAxis(zeroth=(a['start'] - a['inc'] / 2.0) / f, step=a['inc'] / f, count=a['n'], var_name=name, circular=a['wrap'], units='degrees', standard_name=name))
    return r

def whole(x, k=1):
    x = float(x) * k
    return int(max(-10 ** 9, min(10 ** 9, round(x)))) if x == x and abs(x) < 1e9 else 10 ** 9

def execute(sc, rec, tmp): (diag_run if sc['via'] == 'diag' else bins_run)(sc, rec)

def diag_run(sc, rec):
    import numpy as np
    from eustace.analysis.diagnosticgrid import DiagnosticGridBins, DiagnosticGridObservationConnector
    from eustace.analysis.observationsource import ObservationSource, Observations
    f = 10.0 if sc['tenth'] else 16.0; us = sc.get('uscale', 1.0)
    class Fake(ObservationSource):
        def __init__(self, s): self.s = s
        def observables(self): return list(self.s['data'])
        def number_of_observations(self): return max(len(x) for x in self.s['data'].values())
        def observation_location_lookup(self): return np.array([[l['lat'] / f for l in self.s['locs']], [l['lon'] / f for l in self.s['locs']]], np.float64).reshape(2, -1)
        def observations(self, o):
            p = self.s['data'][o]; m = np.array([x['masked'] for x in p], bool)
            v = np.array([x['v'] for x in p], sc['dtype']); u = np.array([x['u'] * us for x in p], sc['dtype'])
            if sc['junk']: v[m] = np.nan; u[m] = 0
            return Observations(m, np.array([x['day'] + x['frac'] / 16.0 for x in p], np.float64 if sc['junk'] else np.float32), np.array([x['loc'] for x in p], sc['ldtype']), v, u, [])
        def local_correlation_length_scale(self, o): return []
    g = DiagnosticGridBins(axes(sc)); connectors = {}
    def contents():
        out = []
        for s, o in sorted(set((sc['sources'][x['source']]['name'], x['observable']) for x in sc['ops'])):
            fs = {n: g.get_field(s + '_' + o + '_' + n) for n in NAMES + ['observation_weightedmean']}
            if all(x is None for x in fs.values()): continue
            if any(fs[n] is None for n in NAMES): out.append(dict(source=s, observable=o, cells=[dict(cell=-1, count=-1, wsum=0, psum=0, min=0, max=0, umin=0, umax=0)], hasmean=False, mean=[])); continue
            cells = []; mk = {n: np.ma.getmaskarray(fs[n].data).ravel() for n in NAMES}; d = {n: np.ma.getdata(fs[n].data).ravel() for n in NAMES}
            for k in range(mk['count'].size):
                has = set(bool(mk[n][k]) for n in NAMES)
                if has == {True}: continue
                if len(has) > 1: cells.append(dict(cell=k, count=-1, wsum=0, psum=0, min=0, max=0, umin=0, umax=0)); continue
                cells.append(dict(cell=k, count=int(d['count'][k]), wsum=whole(d['observation_weightedsum'][k], 40 * us), psum=whole(d['precision_sum'][k], 40 * us), min=whole(d['observation_min'][k]), max=whole(d['observation_max'][k]), umin=whole(d['uncertainty_min'][k], 1 / us), umax=whole(d['uncertainty_max'][k], 1 / us)))
            mean = []
            if fs['observation_weightedmean'] is not None:
                m = fs['observation_weightedmean'].data
                mean = [dict(cell=k, mean=whole(np.ma.getdata(m).ravel()[k], 1000)) for k in range(m.size) if not np.ma.getmaskarray(m).ravel()[k]]
            out.append(dict(source=s, observable=o, cells=cells, hasmean=fs['observation_weightedmean'] is not None, mean=mean))
        return dict(pairs=out, nfields=len(g), nnames=len(set(c.var_name for c in g)), shapes=len(set(c.shape for c in g)) <= 1)
    for op in sc['ops']:
        s = sc['sources'][op['source']]
        e = dict(op, grid=sc['grid'], name=s['name'], locs=s['locs'], pts=[dict(x) for x in s['data'][op['observable']]]); e.pop('source')
        refused = False
        if op['op'] == 'add':
            if op['source'] not in connectors:
                try: connectors[op['source']] = DiagnosticGridObservationConnector(axes(sc), Fake(s))
                except ValueError: refused = True
            if not refused: g.create_fields_from_sparse_observations(s['name'], connectors[op['source']].get_day(op['observable'], op['day']))
        else:
            if g.get_field(s['name'] + '_' + op['observable'] + '_count') is None: continue
            g.compute_weighted_mean(s['name'], op['observable'])
        rec(op['op'], **{'in': e, 'out': dict(contents(), refused=refused)})

def bins_run(sc, rec):
    import numpy as np, iris
    from iris.cube import Cube
    from iris.coords import AuxCoord
    from eustace.satgrid_iris.gridbin.gridbin import GridBins
    from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldDescriptor as D
    from eustace.satgrid_iris.gridbin.operation.count import GridBinOperationCount as C
    from eustace.satgrid_iris.gridbin.operation.sumcountmaxmin import GridBinOperationSumCountMaxMin as S
    from eustace.satgrid_iris.gridbin.operation.sumsq import GridBinOperationSumSq as Q, GridBinOperationSumConstSq as K
    from eustace.satgrid_iris.gridbin.operation.sumsqdev import GridBinOperationSumSqDev as V
    f = 10.0 if sc['tenth'] else 16.0; plain = sc['mode'] == 'plain'; big = 10 ** 6
    ax = axes(sc); grid = GridBins(ax); shape = tuple(a.count for a in ax)
    desc = lambda n, t: D(n, dtype=t, usemask=not plain)
    f4, i4 = np.float32, np.int32
    ops = [S().set_input_descriptor(S.INPUT, D('v')).set_output_descriptor(S.OUTPUTTOTAL, desc('total', f4)).set_output_descriptor(S.OUTPUTCOUNT, desc('count', i4)).set_output_descriptor(S.OUTPUTMAX, desc('max', f4), -big).set_output_descriptor(S.OUTPUTMIN, desc('min', f4), big),
           C().set_input_descriptor(C.INPUT, D('v')).set_output_descriptor(C.OUTPUT, desc('cnt', i4)),
           Q().set_input_descriptor(Q.INPUT, D('v')).set_output_descriptor(Q.OUTPUT, desc('sq', f4)),
           K().set_input_descriptor(K.INPUT, D('const')).set_output_descriptor(K.OUTPUT, desc('csq', f4)),
           V().set_input_descriptor(V.INPUTVALUE, D('v')).set_output_descriptor(V.OUTPUT, desc('dev', f4)).set_output_descriptor(V.EXISTINGMEAN, desc('themean', f4))]
    mean = np.array(sc['means'], f4).reshape(shape)
    grid.create_field(D('themean', dtype=f4), mean if plain else np.ma.masked_array(mean, mask=np.ones(shape, bool)))
    names = ['total', 'count', 'max', 'min', 'cnt', 'sq', 'csq', 'dev']
    for b in sc['batches']:
        pts = b['pts']; n = len(pts); sh = (2, n // 2) if b['two'] else (1, n) if sc['three'] else (n,)
        a = lambda x: np.array(x, f4).reshape(sh)
        m = np.array([p['masked'] for p in pts], bool).reshape(sh); v = a([p['v'] for p in pts])
        data = np.ma.masked_array(v, mask=m) if b['how'] == 'own' else np.ma.masked_array(v) if b['how'] == 'none' else v if b['how'] == 'plain' else np.ma.masked_array(v, mask=np.array([p['own'] for p in pts], bool).reshape(sh))
        cube = Cube(data, var_name='v'); dims = tuple(range(len(sh)))
        ren = b['rename']
        cube.add_aux_coord(AuxCoord(a([p['lat'] / f for p in pts]), var_name='plat' if ren else 'latitude', long_name='plat' if ren else 'latitude'), dims)
        cube.add_aux_coord(AuxCoord(a([p['lon'] / f for p in pts]), var_name='plon' if ren else 'longitude', long_name='plon' if ren else 'longitude'), dims)
        if sc['three']: cube.add_aux_coord(AuxCoord(np.full(sh, 57001.0), var_name='time', long_name='time'), dims)
        cube.add_aux_coord(AuxCoord(np.array([b['c']], f4), var_name='const', long_name='const'))
        kw = {}
        if b['how'] == 'alternative': kw['alternative_mask'] = m
        if ren: kw['input_coordinate_names'] = (['time'] if sc['three'] else []) + ['plat', 'plon']
        refused = False
        try: binmap = grid.compute_input_map(cube, **kw)
        except ValueError: refused = True
        if not refused:
            for o in ops: o.run(binmap)
        fields = {x: grid.get_field(x) for x in names}; cells = []
        if fields['count'] is not None:
            mk = {x: np.ma.getmaskarray(fields[x].data).ravel() for x in names}; d = {x: np.ma.getdata(fields[x].data).ravel() for x in names}
            for k in range(d['count'].size):
                has = set(bool(mk[x][k]) for x in names)
                if has == {True}: continue
                if plain and all(d[x][k] == 0 for x in ('count', 'cnt', 'total', 'sq', 'csq', 'dev')) and d['max'][k] == -big and d['min'][k] == big: continue
                cells.append(dict([(x, whole(d[x][k])) for x in names], cell=k, whole=len(has) == 1))
        rec('bin', **{'in': dict(grid=sc['grid'], pts=[dict(lat=p['lat'], lon=p['lon'], v=p['v'], masked=p['masked']) for p in pts], c=b['c'], means=sc['means']), 'out': dict(refused=refused, cells=cells)})

# ---------------------------------------------------------------- checks of the check
def mutate(s, rng):
    m = copy.deepcopy(s); evs = [e for e in m['events'] if 'out' in e and not e['out'].get('refused')]
    if not evs: return None
    e = rng.choice(evs); o = e['out']
    if e['a'] == 'bin':
        if not o['cells']: return None
        c = rng.choice(o['cells']); k = rng.choice(['total', 'count', 'max', 'min', 'cnt', 'sq', 'csq', 'dev', 'drop'])
        if k == 'drop': o['cells'].remove(c)
        else: c[k] += 1
        return m
    ps = [p for p in o['pairs'] if p['cells']]
    if not ps: o['nfields'] += 1; return m
    p = rng.choice(ps); c = rng.choice(p['cells']); k = rng.choice(['count', 'wsum', 'psum', 'min', 'max', 'umin', 'umax', 'drop', 'fields'])
    if k == 'drop': p['cells'].remove(c)
    elif k == 'fields': o['nfields'] += 1
    else: c[k] += 1
    return m

def vacuity(traces):
    ev = [e for t in traces for e in t['events'] if 'out' in e]
    add = [e for e in ev if e['a'] == 'add']
    return dict(added=len(add), turned_away=sum(1 for e in ev if e['out']['refused']), means=sum(1 for e in ev if e['a'] == 'mean'), binned=sum(1 for e in ev if e['a'] == 'bin'),
                two_pairs=sum(1 for e in add if len(e['out']['pairs']) > 1), shared_box=sum(1 for e in add for p in e['out']['pairs'] for c in p['cells'] if c['count'] > 1), masked_points=sum(1 for e in add for p in e['in']['pts'] if p['masked']),
                other_days=sum(1 for e in add for p in e['in']['pts'] if p['day'] != e['in']['day']), wrapped=sum(1 for e in ev if e['a'] == 'bin' and not e['out']['refused'] for p in e['in']['pts'] if p['lon'] >= e['in']['grid']['lon']['start'] + e['in']['grid']['lon']['inc'] * e['in']['grid']['lon']['n']))
