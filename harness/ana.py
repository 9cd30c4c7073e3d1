"""Building and observing analysis systems (C09, C11): toy and real elements, every kind of storage."""
import os
S = 10000
KINDS = ['st', 'sp', 'dl']

# ---------------------------------------------------------------- generators
def prior(rng, n, element):
    if element in ('grand', 'bias'):
        q = rng.choice([1, 4]); return [[q if i == j else 0 for j in range(n)] for i in range(n)]
    m = [[0] * n for _ in range(n)]
    for i in range(n): m[i][i] = rng.choice([2, 3, 4]) if n > 1 else rng.choice([1, 2, 4])
    for i in range(n - 1):
        m[i][i + 1] = m[i + 1][i] = rng.choice([-1, 0, 1])
    return m

def component(rng, kind, plain=False, samples=0):
    element = rng.choice(['toy', 'toy', 'toy', 'grand', 'bias']) if not plain else 'toy'
    n = 1 if element == 'grand' else rng.choice([1, 2, 2, 3])
    nl = element == 'toy' and kind in ('st', 'dl') and rng.random() < 0.25 and not samples
    store = rng.choice({'st': ['mem', 'files'], 'sp': ['mem', 'files', 'indexed'], 'dl': ['mem', 'files', 'flex', 'indexed']}[kind])
    # samples are kept by every storage of delayed components except those without a place for them
    return dict(kind=kind, element=element, n=n, prior=prior(rng, n, element), nl=nl, init=[rng.randint(-2, 2) for _ in range(n)], unc=rng.random() < 0.5, smp=samples, store=store)

def row(rng, c):
    if c['element'] == 'grand': return [1]
    if c['element'] == 'bias':
        k = rng.randint(-1, c['n'] - 1); return [1 if i == k else 0 for i in range(c['n'])]
    return [rng.randint(-2, 2) for _ in range(c['n'])]

def observation(rng, comps): return dict(y=rng.randint(-20, 20), p=rng.choice([1, 1, 2]), h=[row(rng, c) for c in comps])
def sources(rng, comps, k=None):
    return [[observation(rng, comps) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(k or rng.choice([1, 2, 3]))]

# ---------------------------------------------------------------- elements and observations
def classes():
    import numpy, scipy.sparse
    from eustace.analysis.advanced_standard.elements import element as E
    class Obs(E.ObservationStructure):
        def __init__(self, comps, t, obs): self.comps, self.t, self.obs = comps, t, obs
        def time_index(self): return self.t
        def time_datetime(self):
            from datetime import datetime, timedelta
            return datetime(1850, 1, 1) + timedelta(days=self.t)
        def number_of_observations(self): return len(self.obs)
        def location_polar_coordinates(self): return numpy.array([[10.0 * i, 5.0] for i in range(len(self.obs))]).reshape(len(self.obs), 2)
        def observation_vector(self): return numpy.array([o['y'] for o in self.obs], numpy.float64)
        def observation_precision(self): return scipy.sparse.diags([[float(o['p']) for o in self.obs]], [0], format='csc', shape=(len(self.obs), len(self.obs)))
        def covariate_effect(self, group):
            c = int(group)
            e = [(i, k) for i, o in enumerate(self.obs) for k, h in enumerate(o['h'][c]) if h]
            return numpy.array(e, numpy.int64).reshape(-1, 2) if e else None
    def matrix(rows, n): return scipy.sparse.csr_matrix(numpy.array(rows, numpy.float64).reshape(len(rows), n))
    class LinearDesign(E.ElementLinearDesign):
        def __init__(self, rows, n): self.rows, self.n = rows, n
        def design_number_of_state_parameters(self): return self.n
        def design_matrix(self): return matrix(self.rows, self.n)
    class Linear(E.ElementLinear):
        def __init__(self, c, comp): self.c, self.comp = c, comp
        def element_design(self, o): return LinearDesign([x['h'][self.c] for x in o.obs], self.comp['n'])
        def element_prior(self, h): return Prior(self.comp)
    class Prior(E.ElementPrior):
        def __init__(self, comp): self.comp = comp
        def prior_number_of_state_parameters(self): return self.comp['n']
        def prior_precision(self): return scipy.sparse.csr_matrix(numpy.array(self.comp['prior'], numpy.float64))
    def slope(x): return numpy.where(numpy.rint(numpy.asarray(x, float) * S) < 0, 2.0, 1.0)
    class NonlinearDesign(E.ElementNonlinearDesign):
        def __init__(self, rows, comp): self.rows, self.comp = rows, comp
        def design_number_of_state_parameters(self): return self.comp['n']
        def design_initial_state(self): return numpy.array(self.comp['init'], float).reshape(-1, 1) if False else numpy.array(self.comp['init'], float)
        def design_function(self, x, rectified=False):
            x = numpy.asarray(x, float).ravel()
            if rectified: return abs(matrix(self.rows, self.comp['n'])).dot(x)
            return matrix(self.rows, self.comp['n']).dot(slope(x) * x)
        def design_jacobian(self, x):
            x = numpy.asarray(x, float).ravel()
            return scipy.sparse.csr_matrix(matrix(self.rows, self.comp['n']).multiply(slope(x)))
    class Nonlinear(E.ElementNonlinear):
        def __init__(self, c, comp): self.c, self.comp = c, comp
        def element_design(self, o): return NonlinearDesign([x['h'][self.c] for x in o.obs], self.comp)
        def element_prior(self, h): return Prior(self.comp)
    return Obs, Linear, Nonlinear

class System(object):
    """components with their places on disk; built anew for every operation as the command line does"""
    def __init__(self, comps, root, fresh):
        self.comps, self.root, self.fresh = comps, root, fresh
        os.makedirs(root)
        self.Obs, self.Linear, self.Nonlinear = classes()
        self.mem = {}
        self.slots = {c: [] for c in range(len(comps))}
        self.built = None
    def path(self, *a): return os.path.join(self.root, '_'.join(str(x) for x in a) + '.pickle')
    def element(self, c):
        comp = self.comps[c]
        if comp['element'] == 'toy': return (self.Nonlinear if comp['nl'] else self.Linear)(c, comp), None
        import numpy
        from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
        h = CovariateHyperparameters(numpy.log(comp['prior'][0][0] ** -0.5))
        if comp['element'] == 'grand':
            from eustace.analysis.advanced_standard.elements.grandmean import GrandMeanElement
            return GrandMeanElement(), h
        from eustace.analysis.advanced_standard.elements.bias import BiasElement
        return BiasElement(str(c), comp['n']), h
    def storage(self, c, times, slot=None):
        from eustace.analysis.advanced_standard.components import storage_inmemory as M, storage_files as F, storage_files_batch as B
        comp = self.comps[c]; k, st = comp['kind'], comp['store']
        if st == 'mem':
            if c not in self.mem: self.mem[c] = M.SpaceTimeComponentSolutionStorage_InMemory() if k == 'st' else M.SpatialComponentSolutionStorage_InMemory()
            return self.mem[c]
        there = lambda p: p if os.path.exists(p) else None
        if k == 'st':
            n = {q: self.path('st', c, q) for q in ('state', 'std', 'sample')}
            meas = [self.path('st', c, 'm', s) for s in self.slots[c]]
            return F.SpaceTimeComponentSolutionStorage_Files(
                statefilename_read=there(n['state']), statefilename_write=n['state'], marginal_std_filename_read=there(n['std']), marginal_std_filename_write=n['std'],
                sample_filename_read=there(n['sample']), sample_filename_write=n['sample'],
                measurementfilelist_read=meas, measurement_time_index_write=slot, measurementfilename_write=self.path('st', c, 'm', slot) if slot is not None else None)
        n = {q: {t: self.path(k, c, q, t) for t in times} for q in ('state', 'std', 'sample', 'meas')}
        if k == 'sp' and st == 'files' and len(times) == 1:
            t = times[0]
            return F.SpatialComponentSolutionStorage_Files(time_index=t, statefilename_read=there(n['state'][t]), statefilename_write=n['state'][t], marginal_std_filename_read=there(n['std'][t]),
                marginal_std_filename_write=n['std'][t], sample_filename_read=there(n['sample'][t]), sample_filename_write=n['sample'][t])
        if k == 'sp' or st == 'indexed':
            lists = {q: [n[q][t] for t in times] for q in n}
            if not times: lists = {q: None for q in n}
            nothing = self.path('nothing')           # a file holding None stands for what has not been computed yet
            if not os.path.exists(nothing): F.writepickle(None, nothing)
            r = {q: l and [there(p) or nothing for p in l] for q, l in lists.items()}
            return B.SpatialComponentSolutionStorageIndexed_Files(time_list=list(times), statefilelist_read=r['state'], statefilelist_write=lists['state'], marginal_std_filelist_read=r['std'], marginal_std_filelist_write=lists['std'],
                sample_filelist_read=r['sample'], sample_filelist_write=lists['sample'], measurementfilelist_read=lists['meas'], measurementfilelist_write=lists['meas'])
        if st == 'files':
            ex = {q: {t: p for t, p in n[q].items() if os.path.exists(p)} for q in n}
            return F.DelayedSpatialComponentSolutionStorage_Files(statefiledictionary_read=ex['state'], statefiledictionary_write=n['state'], marginal_std_filedictionary_read=ex['std'], marginal_std_filedictionary_write=n['std'],
                sample_filedictionary_read=ex['sample'], sample_filedictionary_write=n['sample'], measurementfiledictionary_read={t: n['meas'][t] for t in times}, measurementfiledictionary_write=n['meas'])
        pat = {q: [self.root, 'dl_%d_%s_%%Y%%m%%d.pickle' % (c, q)] for q in n}
        s = F.DelayedSpatialComponentSolutionStorageFlexible_Files(state_read_pattern=pat['state'], state_write_pattern=pat['state'], marginal_std_read_pattern=pat['std'], marginal_std_write_pattern=pat['std'],
            sample_read_pattern=pat['sample'], sample_write_pattern=pat['sample'], measurement_read_pattern=pat['meas'], measurement_write_pattern=pat['meas'])
        s.timeindices_read = lambda: list(times)      # this storage has no list of times
        return s
    def system(self, times, slot=None, who=None):
        from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
        from eustace.analysis.advanced_standard.components import spacetime, spatial, spatialdelayed, storage_inmemory as M
        C = dict(st=spacetime.SpaceTimeComponent, sp=spatial.SpatialComponent, dl=spatialdelayed.DelayedSpatialComponent)
        l = []
        for c, comp in enumerate(self.comps):
            e, h = self.element(c)
            kw = dict(compute_uncertainties=comp['unc'], method='EXACT')
            if comp['smp']: kw.update(compute_sample=True, sample_size=comp['smp'])
            ts = times if who is None or who != c or comp['kind'] != 'dl' else [t for t in self.slots[c]]
            l.append(C[comp['kind']](M.ComponentStorage_InMemory(e, h), self.storage(c, ts, slot if c == who else None), **kw))
        return AnalysisSystem(l, 'Tmean', log=open(os.devnull, 'w'))

    # ------------------------------------------------------------ what can be seen afterwards
    def look(self, times):
        sols, vrs, smp = [], [], []
        for c, comp in enumerate(self.comps):
            if comp['kind'] == 'st':
                s = self.storage(c, [])
                sols.append(vec(s.state_read())); vrs.append(unc(s.state_marginal_std_read())); smp.append(mat(s.state_sample_read()))
            else:
                S1, V1, Z1 = [], [], []
                for t in times:
                    s = self.storage(c, [t])
                    x, v = vec(s.partial_state_read(t)), unc(s.partial_state_marginal_std_read(t))
                    z = mat((getattr(s, 'partial_state_sample_read', None) or s.state_sample_read)(t))
                    if x != []: S1.append(dict(t=t, x=x))
                    if v != []: V1.append(dict(t=t, x=v))
                    if z != []: Z1.append(dict(t=t, x=z))
                sols.append(S1); vrs.append(V1); smp.append(Z1)
        return dict(sols=sols, vrs=vrs, smp=smp)

def ints(a, k=S):
    import numpy
    a = numpy.asarray(a, float)
    if not numpy.all(numpy.isfinite(a)) or numpy.any(numpy.abs(a) * k > 4e8): return 'wild'
    return [int(x) for x in numpy.rint(a * k).ravel()]
def vec(x): return [] if x is None else ints(x)
def unc(x):
    import numpy
    return [] if x is None else dict(v=ints(numpy.asarray(x, float) ** 2), s=ints(x, 1000))
def mat(x):
    import numpy
    if x is None: return []
    x = numpy.asarray(x, float)
    if x.ndim != 2: return 'shape %s' % (x.shape,)
    return [ints(r) for r in x]

class Loader(object):
    def __init__(self, sys, comps, parts, j, shift=0): self.sys, self.comps, self.parts, self.j, self.shift = sys, comps, parts, j, shift
    def datetime_at_time_index(self, t):
        from datetime import datetime, timedelta
        return datetime(1850, 1, 1) + timedelta(days=t)
    def load_observation_structure(self, observable, time_index, log=None):
        if observable != 'Tmean': raise ValueError('observable %s' % observable)
        s = self.parts[time_index]
        return self.sys.Obs(self.comps, time_index + (self.shift if self.j else 0), s[self.j] if self.j < len(s) else [])

def execute(sc, rec, tmp):
    import numpy
    numpy.random.seed(sc.get('seed', 1))
    if sc['kind'] == 'linsys': return linsys(sc, rec)
    comps = sc['comps']; T = sc['times']
    sy = System(comps, os.path.join(tmp, 'an'), sc.get('fresh', True))
    rec('config', **{'in': dict(comps=[{k: c[k] for k in ('kind', 'n', 'prior', 'nl', 'init', 'unc', 'smp')} for c in comps])})
    def after(ok=True): return dict(ok=ok, **sy.look(T))
    def loaders(parts, k, shift=0): return [Loader(sy, comps, parts, j, shift) for j in range(k)]
    for x in sc['acts']:
        a = x['a']
        if a in ('time', 'times', 'component', 'sweep', 'mixed'):
            parts = {p['t']: p['sources'] for p in x['parts']}; ts = [p['t'] for p in x['parts']]
            k = max(len(p['sources']) for p in x['parts'])
        if a == 'mixed':
            c = x['c']; an = sy.system(ts, ts[-1], c)
            try: an.update_component_time(loaders(parts, k, 1), c, ts[0]); ok = True
            except ValueError: ok = False
            rec('refused', **{'in': dict(c=c + 1), 'out': after(ok)})
        elif a == 'time' or a == 'times':
            c = x['c']; st = comps[c]['kind'] == 'st'
            an = sy.system(ts, ts[-1], c) if comps[c]['kind'] != 'dl' else sy.system(ts, None)
            if a == 'time': an.update_component_time(loaders(parts, k), c, ts[0])
            else: an.update_component_times([loaders(parts, k) for _ in ts], c, ts)
            if comps[c]['kind'] != 'sp':
                for t in ([ts[-1]] if st else ts):
                    if t not in sy.slots[c]: sy.slots[c].append(t)
            rec('take', **{'in': dict(c=c + 1, together=a == 'times', parts=x['parts']), 'out': after()})
        elif a == 'solve':
            c = x['c']
            if not sy.slots[c] and comps[c]['store'] != 'mem' and comps[c]['kind'] != 'sp': continue
            an = sy.system(sy.slots[c] if comps[c]['kind'] == 'dl' else T, None, c)
            an.update_component_solution(c)
            rec('solve', **{'in': dict(c=c + 1), 'out': after()})
        elif a == 'component':
            an = sy.system(ts, None); an.update_component(loaders(parts, k), x['c'], ts)
            rec('component', **{'in': dict(c=x['c'] + 1, parts=x['parts']), 'out': after()})
            for t in ts:
                if t not in sy.slots[x['c']] and comps[x['c']]['kind'] != 'sp': sy.slots[x['c']].append(t)
        elif a == 'sweep':
            an = sy.system(ts, None); an.update(loaders(parts, k), ts)
            rec('sweep', **{'in': dict(parts=x['parts']), 'out': after()})
            for c, comp in enumerate(comps):
                for t in ts:
                    if t not in sy.slots[c] and comp['kind'] != 'sp': sy.slots[c].append(t)
        elif a == 'merge':
            c = x['c']
            if not sy.slots[c]: continue
            an = sy.system(sy.slots[c] if comps[c]['kind'] == 'dl' else T, None, c)
            m = an.components[c].component_solution().merge_updates()
            rec('merge', **{'in': dict(c=c + 1), 'out': measurement(m)})
        elif a == 'eval':
            an = sy.system([x['t']], None)
            o = sy.Obs(comps, x['t'], [dict(y=0, p=1, h=r) for r in x['rows']])
            from eustace.outputformats.definitions import GLOBAL_FIELD_OUTPUT_FLAGS as G
            v = an.evaluate_expected_value(G[0], o, 'POINTWISE'); u = an.evaluate_expected_value(G[1], o, 'POINTWISE')
            z = mat(an.evaluate_projected_sample(o)) if x['samples'] else []
            rec('eval', **{'in': dict(t=x['t'], rows=x['rows'], samples=x['samples']), 'out': dict(v=ints(v), u=ints(u, 1000), z=z)})

def measurement(m):
    import numpy
    if m is None: return dict(none=True, A=[], b=[])
    A = numpy.asarray(m.information_precision.todense() if hasattr(m.information_precision, 'todense') else m.information_precision)
    b = m.information_vector; b = numpy.asarray(b.todense() if hasattr(b, 'todense') else b)
    return dict(none=False, A=[ints(r, 1) for r in A], b=ints(b))

def linsys(sc, rec):
    """one system assembled from pieces in a given order and grouping"""
    import numpy, scipy.sparse
    from eustace.analysis.advanced_standard.linalg import linearsystem as L
    Obs, Linear, _ = classes()
    n = sc['n']
    el = Linear(0, dict(n=n, prior=sc['prior']))
    def update(obs):
        o = Obs([dict(n=n)], 0, [dict(y=q['y'], p=q['p'], h=[q['h']]) for q in obs])
        return L.MeasurementUpdate.create_from_system_observations(el.element_design(o).design_jacobian(None), o.observation_precision(), o.observation_vector())
    def build(tree):
        if 'obs' in tree: return update(tree['obs'])
        m = L.MeasurementUpdate.create_blank(n) if tree['blank'] else None
        for s in tree['sub']:
            if m is None: m = build(s)
            else: m.append_measurement_update(build(s))
        return m
    system = L.LinearSystem(el.element_prior(None))
    for t in sc['trees']: system.append_measurement_update(build(t))
    obs = []
    def leaves(t):
        if 'obs' in t: obs.extend(t['obs'])
        else: [leaves(s) for s in t['sub']]
    for t in sc['trees']: leaves(t)
    m = system.measurement
    d = lambda a: numpy.asarray(a.todense() if hasattr(a, 'todense') else a)
    sol = L.LinearSystemSolution_Cholesky(system)
    x = ints(d(sol.maximum_a_posteriori()))
    again = ints(d(L.LinearSystemSolution_Cholesky(system).maximum_a_posteriori()))
    v = ints(numpy.asarray(sol.marginal_std()) ** 2)
    A, b = [ints(r, 1) for r in d(m.information_precision)], ints(d(m.information_vector), 1)
    rec('system', **{'in': dict(n=n, prior=sc['prior'], obs=obs), 'out': dict(A=A, b=b, x=x, xcg=again, v=v)})

def mutate(s, rng):
    """negative control: one observed number moved beyond rounding"""
    import json
    c = json.loads(json.dumps(s))
    def walk(x, p=()):
        if isinstance(x, dict):
            for k, v in x.items():
                if k != 'smp': yield from walk(v, p + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x): yield from walk(v, p + (i,))
        elif isinstance(x, int): yield p
    cand = [('events', i, 'out') + p for i, e in enumerate(c['events']) if 'out' in e for p in walk(e['out'])]
    if not cand: return None
    p = rng.choice(cand); o = c
    for k in p[:-1]: o = o[k]
    v = o[p[-1]]
    o[p[-1]] = (not v) if isinstance(v, bool) else v + rng.choice([9000, 20000])
    return c
