"""C16: break points: filtering, station views and assignment of station biases (Python and C++)."""
import math, os, subprocess
MODELS = [dict(module='MC_BreakPoints.tla', cfg='MC_BreakPoints.cfg', tier='quick', workers=3), dict(module='MC_BreakPoints.tla', cfg='MC_BreakPointsT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C16'
TIMEOUT = 60
NEG = 120
BUILD = dict(cpp=[('cpp_breaks.cpp', ['eustace/analysis/break_points/break_points.cpp', 'eustace/analysis/break_points/insitu_land_break_points.cpp'], 'breaks', ['-lnetcdf'])])
ASSUMPTIONS = ['likelihoods are in their valid range (1 to 127; 0 is tried as well) or missing', 'kernel thresholds lie half-way between the kernels of two neighbouring likelihoods',
               'break records are laid out by station and time, observations of a day by station, each station once, when biases are assigned (the layout of the input files)']

def recs_of(rng, n=None, laid_out=True):
    n = n if n is not None else rng.choice([0, 1, 2, 3, 5, 8, 13])
    ns = rng.choice([1, 2, 3, 6])
    base = rng.choice([1, 100, 50000])
    r = [dict(t=base + rng.randint(0, 9), s=rng.randint(1, ns) * rng.choice([1, 1, 1, 7]), k=rng.choice([0, 1, 2, 63, 64, 126, 127, rng.randint(1, 127)])) for _ in range(n)]
    if laid_out:
        seen = {}
        for x in r: seen[(x['s'], x['t'])] = x
        r = [seen[k] for k in sorted(seen)]
    return r

def policy(rng):
    if rng.random() < 0.07: return dict(code='neither', thr10=0, dist2=0, decay=1)
    if rng.random() < 0.5: return dict(code='hard', thr10=rng.choice([0, 10, 5, 635, 640, 1260, 1265, 1270, 1275, -10, rng.randint(0, 130) * 10]), dist2=0, decay=1)
    return dict(code='kernel', thr10=0, dist2=rng.choice([-1, 1, 3, 2 * rng.randint(0, 127) + 1, 127, 125, 255]), decay=rng.choice([1, 5, 10, 40]))

def effects(rng, recs, k):
    st = sorted({r['s'] for r in recs} | {1, 2, 3})
    tt = sorted({r['t'] for r in recs} | {5})
    out = []
    for _ in range(k):
        stations = sorted({x - 1 for x in rng.sample(st, rng.randint(0, len(st)))} | ({rng.randint(0, 30)} if rng.random() < 0.3 else set()))
        g = rng.choice(['insitu_land'] * 6 + ['insitu_ocean', 'surfaceairmodel_land_global', 'surfaceairmodel_ocean_global', 'surfaceairmodel_ice_global', 'surfaceairmodel_ice_global', 'bob'])
        own = g.replace('_global', '')
        src = [own if rng.random() < 0.9 else rng.choice(['insitu_land', 'insitu_ocean', 'surfaceairmodel_ice', 'insitu_landmark']) for _ in range(rng.choice([1, 1, 2]))]
        out.append(dict(group=g, sources=src, stations=stations, t=rng.choice(tt) + rng.choice([-1, 0, 0, 1]), lats=[rng.choice([-90, -1, 0, 1, 45, 90, rng.randint(-90, 90)]) for _ in stations], extra=rng.randint(0, 3), array=rng.random() < 0.5))
    return out

def scenarios(rng, tier, model):
    big = tier != 'quick'
    sample = model if big and len(model) < 6000 else rng.sample(model, min(len(model), 4000 if big else 350))
    for i, m in enumerate(sample):
        yield dict(kind='filter', lang=['py', 'cpp'][i % 2], src='hold', recs=m['recs'], hist=[dict(p, decay=rng.choice([1, 10])) for p in m['hist']], effects=effects(rng, m['recs'], 2))
    for i in range(1500 if big else 250):
        laid = rng.random() < 0.7
        r = recs_of(rng, laid_out=laid)
        yield dict(kind='filter', lang=['py', 'cpp'][i % 2], src='hold', recs=r, hist=[policy(rng) for _ in range(rng.randint(0, 4))], effects=effects(rng, r, 3) if laid else [], dtype=rng.choice(['i1', 'i4', 'i8']))
    for i in range(400 if big else 70):
        r = recs_of(rng, laid_out=rng.random() < 0.6)
        gaps = rng.choice([0.0, 0.0, 0.2])
        for x in r:
            if rng.random() < gaps: x['k'] = -128
        yield dict(kind='filter', lang=['py', 'cpp'][i % 2], src='read', recs=r, station=-1 if i % 2 or rng.random() < 0.6 else rng.choice([x['s'] for x in r] or [1]), hist=[policy(rng) for _ in range(rng.randint(0, 2))], effects=[], fill=rng.random() < 0.7 or gaps > 0)
    for i in range(400 if big else 60):
        r = recs_of(rng)
        for x in r:
            if rng.random() < 0.1: x['k'] = -128
        e = [dict(x, group='insitu_land', sources=[s if s.startswith('insitu') else 'insitu_land' for s in x['sources']]) for x in effects(rng, r, 2)]
        yield dict(kind='element', recs=r, thr10=rng.choice([0, 10, 630, 640, 1270]), effects=e)

FILL = -128
def put(path, recs, fill=True, nstations=40):
    import numpy
    from netCDF4 import Dataset
    nc = Dataset(path, 'w', format='NETCDF4')
    nc.createDimension('merged_break', len(recs)); nc.createDimension('station', nstations)
    for name, typ, key in [('merged_break_time', 'i4', 't'), ('merged_break_station', 'i4', 's'), ('merged_break_likelihood', 'i1', 'k')]:
        v = nc.createVariable(name, typ, ('merged_break',), fill_value=FILL if key == 'k' and fill else None)
        if key == 'k' and fill: v.valid_range = numpy.array([0, 127], 'i1')
        v.set_auto_mask(False)
        if recs: v[:] = numpy.array([r[key] for r in recs], typ)
    v = nc.createVariable('detection_feasibility', 'i1', ('station',)); v[:] = numpy.arange(nstations).astype('i1')
    for n in ('latitude', 'longitude'): nc.createVariable(n, 'f4', ('station',))[:] = numpy.arange(nstations)
    nc.close()

def native(b):
    return [dict(t=int(t), s=int(s), k=int(k)) for t, s, k in zip(b.break_time, b.break_station, b.break_likelihood)] if len(b.break_time) == len(b.break_station) == len(b.break_likelihood) else 'misaligned'

def describe(b, sel):
    return dict(recs=native(b), n=int(b.number_of_observations()), nst=int(b.total_number_of_stations()), stations=[int(x) for x in b.stations_collection()], counts=[int(x) for x in b.stations_count()],
                sel=[dict(s=s, times=[int(x) for x in b.filtered_break_points(s)]) for s in sel])

def thresholds(p):
    """threshold and decay constant as the code takes them"""
    if p['code'] != 'kernel': return p['thr10'] / 10.0, 0.0
    d = p['decay'] / 100.0
    return (1.5 if p['dist2'] < 0 else math.exp(-d * p['dist2'] / 2.0)), d

class Source(object):
    def __init__(self, e, nstations=60):
        import numpy
        from eustace.analysis.observationsource import Observations
        from eustace.analysis.fileio.observationsource_rawbinary import ObservableFileSpec
        # masked observations of other stations surround the valid ones
        loc = sorted(set(e['stations']) | {int(x) for x in range(e['extra'])})
        mask = numpy.array([x not in e['stations'] for x in loc], bool)
        lats = {s: l for s, l in zip(e['stations'], e['lats'])}
        self.lookup = numpy.zeros((2, nstations)); self.lookup[0, :] = 1.0
        for s in lats: self.lookup[0, s] = lats[s]
        time = numpy.array([e['t']] * len(loc), 'i4') if e['array'] and loc else e['t']
        self.o = Observations(mask, time, numpy.array(loc, 'u8').astype('i8'), numpy.arange(len(loc)).astype('f4'), numpy.ones(len(loc), 'f4'), [])
        self.filespecs = {str(i): ObservableFileSpec('/some/%s_T%d_20010203.bin' % (s, i), None) for i, s in enumerate(e['sources'])}
    def observation_location_lookup(self): return self.lookup
    def observations(self, observable): return self.o

def execute(sc, rec, tmp):
    import numpy
    from datetime import datetime, timedelta
    from eustace.analysis.advanced_standard.fileio.observation_structure_source_connector import ObservationStructureSourceConnector
    from eustace.analysis.observationsource import ObservationsBreakPoints
    path = os.path.join(tmp, 'breaks.nc')
    def connect(e): return ObservationStructureSourceConnector(Source(e), 'Tmean', datetime(1850, 1, 1) + timedelta(days=e['t']))
    ein = lambda e: {k: e[k] for k in ('group', 'sources', 'stations', 't', 'lats')}
    if sc['kind'] == 'element':
        from eustace.analysis.advanced_standard.elements.bias_insitu_land import InsituLandBiasElement
        put(path, sc['recs'])
        for e in sc['effects']:
            el = InsituLandBiasElement(path, apply_policy=True, cut_value=sc['thr10'] / 10.0) if sc['thr10'] else InsituLandBiasElement(path)
            design = el.element_design(connect(e))
            a = design.design_matrix()
            state = [100 + i for i in range(el.number_of_biases)]
            y = design.design_function(numpy.array(state, float).reshape(-1, 1))
            c = a.tocoo()
            rec('element', **{'in': dict(recs=sc['recs'], thr10=sc['thr10'], sources=e['sources'], stations=e['stations'], t=e['t'], state=state),
                              'out': dict(nbias=int(design.design_number_of_state_parameters()), shape=[int(x) for x in a.shape], entries=sorted([int(i), int(j), int(v)] for i, j, v in zip(c.row, c.col, c.data)), predicted=[int(round(float(x))) for x in numpy.ravel(y)])})
        return
    sel = sorted({r['s'] for r in sc['recs']})[:4] + [0, 9999]
    if sc['src'] == 'read': put(path, sc['recs'], sc.get('fill', True))
    first = dict(recs=sc['recs']) if sc['src'] == 'hold' else dict(recs=sc['recs'], station=sc['station'])
    if sc['lang'] == 'py':
        if sc['src'] == 'hold':
            b = ObservationsBreakPoints(*[numpy.array([r[k] for r in sc['recs']], d) for k, d in (('t', 'i4'), ('s', 'i4'), ('k', sc.get('dtype', 'i1')))])
        else:
            from eustace.preprocess.fileio.insitu_land_breakpoints import ObservationBreakPointSourceInsituLand
            s = ObservationBreakPointSourceInsituLand(path, *([] if sc['station'] < 0 else [sc['station']]))
            b = s.observations(); s.dataset.close()
        rec(sc['src'], **{'in': first, 'out': describe(b, sel)})
        for p in sc['hist']:
            thr, decay = thresholds(p)
            try: b.apply_policy({'hard': 'HARD_CUTOFF', 'kernel': 'LAPLACE_KERNEL'}.get(p['code'], 'HARD_CUT'), threshold=thr, decay_constant=decay); ok = True
            except ValueError: ok = False
            rec('policy', **{'in': dict(code=p['code'], thr10=p['thr10'], dist2=p['dist2']), 'out': dict(describe(b, sel), ok=ok)})
        for e in sc['effects']:
            try:
                x = connect(e).covariate_effect(e['group'], breakpoints=b) if e['group'] == 'insitu_land' else connect(e).covariate_effect(e['group'])
                out = dict(ok=True, pairs=[[int(u) for u in r] for r in x] if x is not None else [])
            except ValueError: out = dict(ok=False, pairs=[])
            rec('effect', **{'in': ein(e), 'out': out})
    else:
        s = ' %d %s\n' % (len(sel), ' '.join(map(str, sel)))
        text = ('hold %d %s' % (len(sc['recs']), ' '.join('%d %d %d' % (r['t'], r['s'], r['k']) for r in sc['recs'])) if sc['src'] == 'hold' else 'read ' + path) + s
        for p in sc['hist']:
            thr, decay = thresholds(p)
            text += 'policy %d %s %s' % ({'hard': 0, 'kernel': 1}.get(p['code'], 2), repr(thr), repr(decay)) + s
        q = subprocess.run([os.path.join(os.environ['VERIF_TREE'], 'breaks')], input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env={'PATH': '/usr/bin:/bin'})
        lines = [l.split() for l in q.stdout.split('\n') if l.startswith('@ ')]
        if q.returncode or len(lines) != 1 + len(sc['hist']): raise RuntimeError('driver ended with %d: %s' % (q.returncode, q.stdout[-300:]))
        def parse(w):
            ok, n, nst = (int(x) for x in w[1:4]); f, i = [], 4
            while i < len(w):
                k = int(w[i + 1]); f.append((w[i], [int(x) for x in w[i + 2:i + 2 + k]])); i += 2 + k
            g = dict(f[:5])
            aligned = len(g['t']) == len(g['s']) == len(g['k'])
            return dict(ok=bool(ok), n=n, nst=nst, stations=g['st'], counts=g['ct'], recs=[dict(t=a, s=b, k=c) for a, b, c in zip(g['t'], g['s'], g['k'])] if aligned else 'misaligned',
                        sel=[dict(s=x, times=y[1]) for x, y in zip(sel, f[5:])])
        rec(sc['src'], **{'in': first, 'out': parse(lines[0])})
        for p, l in zip(sc['hist'], lines[1:]): rec('policy', **{'in': dict(code=p['code'], thr10=p['thr10'], dist2=p['dist2']), 'out': parse(l)})

def vacuity(traces):
    ev = lambda k: [e for t in traces for e in t['events'] if e['a'] == k]
    return dict(policies=sum(e['out']['ok'] for e in ev('policy')), refused=sum(not e['out']['ok'] for e in ev('policy')), dropping=sum(1 for e in ev('policy') if 0 < e['out']['n']), reads=len(ev('read')),
                biases=sum(len(e['out']['pairs']) for e in ev('effect')), elements=sum(len(e['out']['entries']) for e in ev('element')))
