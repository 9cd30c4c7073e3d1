"""C21: fields on the output grid."""
import json, math, os, random
MODELS = [dict(module='MC_Regrid.tla', cfg='MC_Regrid.cfg', tier='quick', workers=2), dict(module='MC_Regrid.tla', cfg='MC_RegridT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C21'
TIMEOUT = 120
BUILD = dict(ext=['qinv'])
ASSUMPTIONS = ['regular grids (two latitudes and longitudes or more), up to 5 by 4 cells and 3 by 3 places per cell; components are linear with integer design rows and states of four numbers',
               'weights are compared to a thousandth; the prior standard deviation of the climatology fraction is an estimate from 1000 samples and is compared to within a quarter']
UNITS = [8, 1, 2]                       # units per degree

def component(rng, times, kind=None, m=0):
    kind = kind or rng.choice(['st', 'sp', 'sp', 'dl'])
    state = lambda k: [rng.randint(-k, k) for _ in range(4)]
    at = []
    for t in ([0] if kind == 'st' else times):
        if rng.random() < 0.12: continue
        mm = m if rng.random() < 0.85 else 0
        at.append(dict(t=t, x=state(9), s=[] if rng.random() < 0.1 else [rng.randint(0, 2) for _ in range(4)], smp=[state(3) for _ in range(mm)], psmp=[state(3) for _ in range(mm)]))
    return dict(kind=kind, at=at, ps=[rng.choice([1, 2]) for _ in range(4)])

def grid(rng):
    unit = rng.choice(UNITS); n, m = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    dlat = 12 * rng.choice([1, 1, 2] if unit == 1 else [1, 2, 5]); dlon = 12 * rng.choice([1, 1, 2])
    most = (90 * unit) * 2 // dlat
    nlat = rng.choice([2, 2, 3, 4, 5, 7, 8]); nlat = max(2, min(nlat, most)); nlon = rng.choice([2, 2, 3, 4])
    lo = -90 * unit + dlat // 2; hi = 90 * unit - dlat // 2 - (nlat - 1) * dlat
    start = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
    lat = [start + i * dlat for i in range(nlat)]
    s2 = rng.randint(-180 * unit, 180 * unit - nlon * dlon) if nlon * dlon < 360 * unit else -180 * unit
    lon = [s2 + i * dlon for i in range(nlon)]
    if rng.random() < 0.25: lat.reverse()
    if rng.random() < 0.15: lon.reverse()
    return dict(unit=unit, lat=lat, lon=lon, dlat=dlat, dlon=dlon, n=n, m=m)

def scenarios(rng, tier, model):
    k = 12 if tier != 'quick' else 1
    times = [1, 2, 57000]
    ms = sorted(model, key=lambda s: json.dumps(s, sort_keys=True)); rng.shuffle(ms)
    outs = lambda: [dict(what='value', prior=False, all=True, ix=[]), dict(what=rng.choice(['std', 'dev']), prior=rng.random() < 0.4, all=True, ix=[]),
                    dict(what='samples', prior=False, all=rng.random() < 0.4, ix=[rng.randrange(2) for _ in range(rng.choice([1, 2, 3]))])]
    for s in ms[:200 * k]:
        m = rng.choice([0, 2, 3, 4]); t = rng.choice([1, 2])
        comps = [component(rng, [1, 2], rng.choice(['st', 'sp', 'sp']), m) for _ in range(2)]
        ops = [dict(e) for e in s['log']]
        if rng.random() < 0.5:                     # outputs at every step
            ops = [x for e in ops for x in ([e] + ([dict(a='out', o=rng.choice(outs()))] if rng.random() < 0.5 else []))]
        yield dict(via='proj', grid=grid(rng), comps=comps, t=t, blocks=rng.choice([1, 1, 2, 3, 7, 40]), ops=ops + [dict(a='out', o=o) for o in outs()], store=rng.choice(['mem', 'indexed']), m=m)
    for i in range(12 * k):                        # a projection that was saved, put to use again
        comps = [component(rng, [1, 2], rng.choice(['st', 'sp']), 3) for _ in range(2)]; c = rng.choice([1, 2]); S = lambda keep: dict(a='set', c=rng.choice([1, 2]), t=0, keep=keep)
        yield dict(via='proj', grid=grid(rng), comps=comps, t=1, blocks=1, ops=[S(False), dict(a='eval', c=0, t=0, keep=False), dict(a='load', c=0, t=0, keep=False), S(True)] + [dict(a='out', o=o) for o in outs()], store='mem', m=3)
    for b in (1, 2, 3, 4, 6):
        for n in (1, 2, 3):
            g = grid(rng); g['n'] = n
            yield dict(via='grid', grid=g, comps=[component(rng, times) for _ in range(rng.choice([1, 2, 3]))], asks=[dict(field='MAP', flag='GRID_CELL_AREA_AVERAGE', blocking=b, t=1), dict(field='post_STD', flag='GRID_CELL_AREA_AVERAGE', blocking=b, t=1)])
    for i in range(160 * k):
        ask = lambda: dict(field=rng.choice(['MAP', 'MAP', 'MAP', 'post_STD', 'post_STD', 'post_STD', 'prior_STD', 'map', 'STD']), flag=rng.choice(['POINTWISE', 'GRID_CELL_AREA_AVERAGE', 'GRID_CELL_AREA_AVERAGE', 'GRID_CELL_AREA_AVERAGE', 'AVERAGE']), blocking=rng.choice([1, 2, 3, 4, 5, 100]), t=rng.choice(times))
        yield dict(via='grid', grid=grid(rng), comps=[component(rng, times) for _ in range(rng.choice([1, 1, 2, 3]))], asks=[ask() for _ in range(rng.choice([1, 2, 3]))])
    for i in range(60 * k):
        yield dict(via='fraction', grid=grid(rng), comps=[component(rng, times, rng.choice(['sp', 'sp', 'st', 'dl'])) for _ in range(rng.choice([1, 2, 3]))], asks=[dict(blocking=rng.choice([1, 2, 3, 100]), t=rng.choice(times))])

def row(c, lat, lon, t): return [1, lat % 4, (lon + c * t) % 5, ((lat * 3 + lon) % 7) - 3]

def weights(g):
    l = set()
    for c in g['lat']:
        for n in (1, g['n']):
            for k in range(1, n + 1): l.add(c - g['dlat'] // 2 + (2 * k - 1) * (g['dlat'] // (2 * n)))
    return [dict(lat=x, w=int(round(1000 * math.cos(math.radians(x / float(g['unit'])))))) for x in sorted(l)]

def ints(a, k=100):
    import numpy
    return [int(max(-10 ** 8, min(10 ** 8, round(float(x) * k)))) if x == x else 10 ** 8 for x in numpy.asarray(a, float).ravel()]

def build(sc, tmp):
    import numpy, scipy.sparse
    from eustace.analysis.advanced_standard.elements import element as E
    from eustace.analysis.advanced_standard.components import spacetime, spatial, spatialdelayed, storage_inmemory as M, storage_files_batch as B
    unit = sc['grid']['unit']
    class Design(E.ElementLinearDesign):
        def __init__(self, c, o):
            p = numpy.rint(numpy.asarray(o.location_polar_coordinates()) * unit).astype(int); t = o.time_index()
            if abs(numpy.asarray(o.location_polar_coordinates()) * unit - p).max() > 1e-6: raise RuntimeError('off the lattice')
            self.rows = [row(c, int(a), int(b), t) for a, b in p]
        def design_number_of_state_parameters(self): return 4
        def design_matrix(self): return scipy.sparse.csr_matrix(numpy.array(self.rows, float).reshape(-1, 4))
        def design_function(self, x, rectified=False):
            A = self.design_matrix()
            return (abs(A) if rectified else A).dot(x)
    class Prior(E.ElementPrior):
        def __init__(self, ps): self.ps = ps
        def prior_number_of_state_parameters(self): return 4
        def prior_precision(self): return scipy.sparse.diags([[4.0 / (p * p) for p in self.ps]], [0], format='csr')
    class Toy(E.ElementLinear):
        def __init__(self, c, comp): self.c, self.comp = c, comp
        def element_design(self, o): return Design(self.c, o)
        def element_prior(self, h): return Prior(self.comp['ps'])
    C = dict(st=spacetime.SpaceTimeComponent, sp=spatial.SpatialComponent, dl=spatialdelayed.DelayedSpatialComponent)
    comps = []
    col = lambda v: numpy.array(v, float)
    smp = lambda v: numpy.array(v, float).T
    for i, comp in enumerate(sc['comps']):
        k = comp['kind']; st = k == 'st'
        if k == 'sp' and sc.get('store') == 'indexed' and comp['at']:
            ts = [a['t'] for a in comp['at']]
            l = {q: [os.path.join(tmp, '%d_%s_%d.pickle' % (i, q, t)) for t in [1, 2]] for q in ('x', 's', 'm', 'p')}
            s = B.SpatialComponentSolutionStorageIndexed_Files(time_list=[1, 2], statefilelist_read=l['x'], statefilelist_write=l['x'], marginal_std_filelist_read=l['s'], marginal_std_filelist_write=l['s'],
                sample_filelist_read=l['m'], sample_filelist_write=l['m'], prior_sample_filelist_read=l['p'], prior_sample_filelist_write=l['p'])
            for t in [1, 2]:
                for f in (s.partial_state_write, s.partial_state_marginal_std_write, s.partial_state_sample_write, s.partial_state_prior_sample_write): f(None, t)
        else: s = M.SpaceTimeComponentSolutionStorage_InMemory() if st else M.SpatialComponentSolutionStorage_InMemory()
        for a in comp['at']:
            put = lambda name, v: getattr(s, name)(v) if st else getattr(s, 'partial_' + name)(v, a['t'])
            put('state_write', col(a['x']).reshape(-1, 1) if sc['via'] == 'proj' else col(a['x']))
            if a['s']: put('state_marginal_std_write', col(a['s']))
            if a['smp']: put('state_sample_write', smp(a['smp'])); put('state_prior_sample_write', smp(a['psmp']))
        comps.append(C[k](M.ComponentStorage_InMemory(Toy(i + 1, comp), None), s))
    return comps

def execute(sc, rec, tmp):
    import numpy
    from datetime import datetime, timedelta
    from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
    from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import OutputRectilinearGridStructure
    from eustace.analysis.advanced_standard.fileio.output_projector import Projector
    g = sc['grid']; u = float(g['unit'])
    comps = build(sc, tmp)
    rec('system', **{'in': dict(g=dict(lat=g['lat'], lon=g['lon'], dlat=g['dlat'], dlon=g['dlon'], n=g['n'], m=g['m'], w=weights(g)), comps=sc['comps'])})
    lat = numpy.array(g['lat']) / u; lon = numpy.array(g['lon']) / u
    if sc['via'] != 'proj':
        system = AnalysisSystem(comps, 'Tmean', log=open(os.devnull, 'w'))
        for a in sc['asks']:
            o = OutputRectilinearGridStructure(a['t'], datetime(1850, 1, 1) + timedelta(days=a['t']), lat, lon)
            try:
                if sc['via'] == 'grid': v = system.evaluate_expected_value(a['field'], o, a['flag'], [g['n'], g['m']], a['blocking'])
                else: v = system.evaluate_climatology_fraction(o, [g['n'], g['m']], a['blocking'])
                out = dict(status='ok', v=ints(v))
                if sc['via'] == 'fraction' and all(float(x) == -32768 for x in v): out['v'] = [-32768] * len(v)
            except Exception as x:
                if type(x).__name__ == 'Timeout': raise
                out = dict(status='error', v=[])
            rec(sc['via'], **{'in': {k: x for k, x in a.items()}, 'out': out})
        return
    p = Projector(lat, lon, [g['dlat'] / u, g['dlon'] / u], sc['t'], [g['n'], g['m']], sc['blocks'])
    rec('pnew', **{'in': dict(t=sc['t'])})
    for e in sc['ops']:
        out = dict(status='ok')
        if e['a'] == 'out':
            a = e['o']; out.update(v=[], m=[])
            if a['what'] == 'samples' and not a['all'] and sc['m'] == 0: a = dict(a, all=True)
            try:
                if a['what'] == 'value': v = p.project_expected_value()
                elif a['what'] == 'samples': v = p.project_sample_values() if a['all'] else p.project_sample_values(sample_indices=a['ix'])
                elif a['what'] == 'std': v = p.project_sample_std(prior=a['prior'])
                else: v = p.project_sample_deviation(prior=a['prior'])
                if v is None: out['status'] = 'none'
                elif a['what'] == 'samples': out['m'] = [ints(r) for r in numpy.asarray(v)]
                else: out['v'] = ints(v)
            except Exception as x:
                if type(x).__name__ == 'Timeout': raise
                out['status'] = 'error'
            rec('out', **{'in': dict(a), 'out': out}); continue
        try:
            if e['a'] == 'set': p.set_component(comps[e['c'] - 1], keep_design=e['keep']) if e['keep'] else p.set_component(comps[e['c'] - 1])
            elif e['a'] == 'time': p.update_time_index(e['t'], keep_design=e['keep'])
            elif e['a'] == 'eval': p.evaluate_design_matrix()
            else:
                f = os.path.join(tmp, 'projection.pickle'); c = p.component; p.component = None
                # (the toy component cannot be pickled: it is put back afterwards)
                try: p.save_projection(f)
                finally: p.component = c
                p = Projector.load_projection(f); p.component = c
        except Exception as x:
            if type(x).__name__ == 'Timeout': raise
            out['status'] = 'error'
        rec(e['a'], **{'in': {k: e[k] for k in ('c', 't', 'keep')}, 'out': out})

def mutate(s, rng):
    s = json.loads(json.dumps(s)); ev = s['events']; es = [e for e in ev if e['a'] in ('grid', 'fraction', 'out') and e['out']['status'] == 'ok' and (e['out'].get('v') or e['out'].get('m'))]
    if not es: return None
    e = rng.choice(es); v = e['out'].get('v') or rng.choice([r for r in e['out']['m']] )
    if not v: return None
    if rng.random() < 0.3 and e['out'].get('v'): e['out']['v'] = v[:-1]; return s
    i = rng.randrange(len(v)); v[i] += rng.choice([-1, 1]) * (900 + 2 * abs(v[i])); return s

def vacuity(traces):
    ev = [e for t in traces for e in t['events']]
    n = lambda f: sum(1 for e in ev if f(e))
    g = lambda e: e['a'] == 'grid' and e['out']['status'] == 'ok'
    return dict(means=n(lambda e: g(e) and e['in']['field'] == 'MAP'), spreads=n(lambda e: g(e) and e['in']['field'] == 'post_STD'), points=n(lambda e: g(e) and e['in']['flag'] == 'POINTWISE'), refused=n(lambda e: e['a'] == 'grid' and e['out']['status'] == 'error'),
                fractions=n(lambda e: e['a'] == 'fraction' and e['out']['v'][0] != -32768), nofraction=n(lambda e: e['a'] == 'fraction' and e['out']['v'][0] == -32768),
                projected=n(lambda e: e['a'] == 'out' and e['out']['status'] == 'ok'), absent=n(lambda e: e['a'] == 'out' and e['out']['status'] == 'none'), loads=n(lambda e: e['a'] == 'load'), kept=n(lambda e: e['a'] in ('set', 'time') and e['in']['keep']))
