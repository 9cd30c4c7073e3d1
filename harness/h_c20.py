"""C20: combinations of model elements."""
import math, os, json
MODELS = [dict(module='MC_Combination.tla', cfg='MC_Combination.cfg', tier='quick', workers=3), dict(module='MC_Combination.tla', cfg='MC_CombinationT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C20'
BUILD = dict(ext=['locator_search_planes'])
TIMEOUT = 120
NEG = 120
ASSUMPTIONS = ['matrices, predictions and precisions are compared as fixed point numbers (1/10000)', 'parameters are multiples of log(2)/2, so that precisions of covariates are powers of two',
               'elements on the sphere use the coarsest triangulation; what such an element gives alone is taken from the code and compared with what it contributes to a combination']
S = 10000
UNIT = math.log(2) / 2
LAT = [-90, -45, 0, 45, 90]

# ---------------------------------------------------------------- generator
def leaf(rng, kind, n=None, k=None, obs=None):
    if kind == 'toy':
        n = rng.choice([0, 1, 1, 2, 3]) if n is None else n
        k = rng.choice([0, 1, 1, 2, 3]) if k is None else k
        nl = rng.random() < 0.3
        mats = [[[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)] for _ in range(k)]
        return dict(kind='toy', n=n, k=k, nl=nl, init=[rng.randint(-3, 3) for _ in range(n)], mats=mats, rows=[[rng.randint(-3, 3) for _ in range(n)] for _ in obs], hyper=rng.choice(['plain', 'general']))
    if kind == 'grand': return dict(kind=kind, n=1, k=1, nl=False)
    if kind == 'harm': return dict(kind=kind, n=4, k=4, nl=False, lat=[o[0] for o in obs])
    if kind == 'bias':
        n = rng.choice([0, 1, 2, 3]) if n is None else n
        eff = [[i, j] for i in range(len(obs)) if n and rng.random() < 0.6 for j in rng.sample(range(n), rng.choice([1, 1, 1, min(n, 2)]))]
        return dict(kind=kind, n=n, k=1, nl=False, effect=eff)
    if kind in ('local', 'spatialbias'): return dict(kind=kind, n=12, k=2, nl=False)
    if kind == 'expanded': return dict(kind=kind, n=12, k=24, nl=False)
    if kind == 'seasonal':
        h, m = rng.choice([(0, True), (1, False), (1, True), (2, False), (2, True)])
        return dict(kind=kind, n=12 * (2 * h + m), k=2 * (h + m), nl=False, harmonics=h, mean=m)
    if kind == 'kron': return dict(kind=kind, n=24, k=3, nl=False)
    if kind == 'factor': return dict(kind=kind, n=14, k=3, nl=True, init=[0] * 12 + [1] * 2)

def tree(rng, m, depth=0):
    """all leaves 1..m in order"""
    c = [0]
    def build(m, depth):
        if m == 1 and rng.random() < 0.8:
            c[0] += 1; return dict(leaf=c[0])
        if m == 1 or depth > 2: return dict(sub=[build(1, 9) if depth > 2 else build(1, depth + 1) for _ in range(m)])
        parts = []
        while m:
            k = rng.randint(1, m); parts.append(k); m -= k
        return dict(sub=[build(k, depth + 1) for k in parts])
    parts = []
    while m:
        k = rng.randint(1, m) if rng.random() < 0.4 else 1; parts.append(k); m -= k
    return dict(sub=[build(k, 1) for k in parts])

def acts(rng, leaves, sets=None):
    n, k = sum(l['n'] for l in leaves), sum(l['k'] for l in leaves)
    x = lambda: [rng.choice([-3, -2, -1, 0, 1, 2, 3, 4]) for _ in range(n)]
    v = lambda: [rng.randint(-4, 0) for _ in range(k)]
    a = []
    if sets:
        for s in sets: a.append(dict(a='set', values=[-q for q in s]))
    for _ in range(rng.randint(2, 5)):
        w = rng.choice(['set', 'set', 'predict', 'jacobian', 'prior', 'derivative', 'one', 'stored', 'wrong'])
        if w == 'set': a.append(dict(a='set', values=v()))
        elif w == 'one' and k: a.append(dict(a='one', p=rng.randrange(k), value=rng.randint(-4, 0)))
        elif w == 'wrong': a.append(dict(a='set', values=(v() + [-1]) if rng.random() < 0.5 or not k else v()[:-1]))
        elif w == 'stored': a.append(dict(a='stored'))
        elif w == 'predict': a.append(dict(a='predict', x=x(), rect=rng.random() < 0.5, column=rng.random() < 0.3))
        elif w == 'jacobian': a.append(dict(a='jacobian', x=x()))
        elif w == 'prior': a.append(dict(a='prior'))
        elif w == 'derivative' and k: a.append(dict(a='derivative', k=rng.randint(1, k)))
    return a + [dict(a='predict', x=x(), rect=False, column=False), dict(a='prior')] + ([dict(a='derivative', k=rng.randint(1, k))] if k else [])

def observations(rng): return [[rng.choice(LAT), rng.choice([-150, -60, 0, 30, 90, 180])] for _ in range(rng.choice([0, 1, 2, 3, 3]))]

def scenarios(rng, tier, model):
    big = tier != 'quick'
    model = sorted(model, key=lambda s: json.dumps(s, sort_keys=True)); rng.shuffle(model)
    for s in model[:120 if not big else 2000]:
        obs = observations(rng)
        ls = [leaf(rng, 'toy', n=n, k=k, obs=obs) for n, k in zip(s['ns'], s['ks'])]
        yield dict(kind='combine', tree=s['tree'], leaves=ls, obs=obs, quarter=rng.randrange(4), params=[0] * sum(s['ks']), acts=acts(rng, ls, s['sets']), via='direct')
    for i in range(160 if not big else 2500):
        obs = observations(rng); m = rng.choice([1, 2, 3, 3, 4, 5])
        heavy = rng.random() < 0.45
        ls = [leaf(rng, rng.choice(['toy', 'toy', 'grand', 'bias', 'harm'] + (['local', 'seasonal', 'factor', 'spatialbias'] if heavy else [])), obs=obs) for _ in range(m)]
        if heavy and rng.random() < 0.15: ls.insert(rng.randint(0, len(ls)), leaf(rng, rng.choice(['kron', 'expanded']), obs=obs))
        # one time for all seasonal elements, one effect for all elements of spatial bias
        yield dict(kind='combine', tree=tree(rng, len(ls)), leaves=ls, obs=obs, quarter=rng.randrange(4), params=[rng.randint(-3, 0) for _ in range(sum(l['k'] for l in ls))], acts=acts(rng, ls), via='direct')
    for i in range(30 if not big else 400):
        obs = observations(rng)
        kinds = rng.sample(['grand', 'bias', 'harm'], rng.randint(1, 3)); names = rng.sample(['latitude_harmonics', 'altitude', 'coastal_influence'], len(kinds))
        ls = [leaf(rng, k, obs=obs) for k in kinds]
        yield dict(kind='combine', tree=dict(sub=[dict(leaf=j + 1) for j in range(len(ls))]), leaves=ls, obs=obs, quarter=0, params=[rng.randint(-3, 0) for _ in range(sum(l['k'] for l in ls))], acts=acts(rng, ls), via='descriptor', names=names)
    for i in range(15 if not big else 150):
        yield dict(kind='general', parts={n: [rng.randint(-4, 0) for _ in range(rng.randint(1, 3))] for n in rng.sample(['log_sigma', 'log_rho', 'a', 'z'], rng.randint(1, 3))})
    for i in range(20 if not big else 200):
        yield dict(kind='keys', keys=rng.sample(['latitude_harmonics', 'altitude', 'coastal_influence', 'Altitude', 'latitude', 'slope'], rng.randint(0, 4)))
    for i in range(20 if not big else 300):
        yield dict(kind='bilinear', obs=observations(rng), x=[rng.randint(-3, 3) for _ in range(14)], time=rng.choice([0, 3, 5, 10]))

# ---------------------------------------------------------------- the real elements
class Kit(object):
    def __init__(self, sc):
        import numpy, scipy.sparse
        from datetime import datetime, timedelta
        from eustace.analysis.advanced_standard.elements import element as E
        self.np, self.E, self.sc = numpy, E, sc
        kit = self
        when = datetime(2001, 1, 1) + timedelta(hours=2190 * sc.get('quarter', 0))
        class Obs(E.ObservationStructure):
            def time_index(self): return sc.get('time', 5)
            def time_datetime(self): return when
            def number_of_observations(self): return len(sc['obs'])
            def location_polar_coordinates(self): return numpy.array(sc['obs'], float).reshape(-1, 2)
            def covariate_effect(self, group, **kw):
                if group == 'all': return numpy.array([[i, 0] for i in range(len(sc['obs']))]).reshape(-1, 2)
                e = sc['leaves'][int(group)]['effect']
                return numpy.array(e, numpy.int64).reshape(-1, 2) if e else None
        self.Obs = Obs
        mat = lambda rows, n: scipy.sparse.csr_matrix(numpy.array(rows, float).reshape(len(rows), n))
        class H(E.Hyperparameters):
            def __init__(self, v): self.v = [float(q) for q in v]
            def get_array(self): return numpy.array(self.v)
            def set_array(self, values):
                if len(values) != len(self.v): raise ValueError('wrong number of values')
                self.v = [float(q) for q in values]
        self.H = H
        class Design(E.ElementLinearDesign):
            def __init__(self, l): self.l = l
            def design_number_of_state_parameters(self): return self.l['n']
            def design_matrix(self): return mat(self.l['rows'], self.l['n'])
        class NDesign(E.ElementNonlinearDesign):
            def __init__(self, l): self.l = l
            def design_number_of_state_parameters(self): return self.l['n']
            def design_initial_state(self): return numpy.array(self.l['init'], float)
            def slope(self, x): return numpy.where(numpy.asarray(x, float) < 0, 2.0, 1.0)
            def design_function(self, x, rectified=False):
                x = numpy.asarray(x, float)
                return abs(mat(self.l['rows'], self.l['n'])).dot(x) if rectified else mat(self.l['rows'], self.l['n']).dot(self.slope(x) * x)
            def design_jacobian(self, x): return scipy.sparse.csr_matrix(mat(self.l['rows'], self.l['n']).multiply(self.slope(x).ravel()))
        class Prior(E.ElementPrior):
            def __init__(self, l, h): self.l, self.h = l, h
            def prior_number_of_state_parameters(self): return self.l['n']
            def prior_precision(self): return scipy.sparse.csr_matrix(sum((math.exp(-2 * v) * numpy.array(m, float).reshape(self.l['n'], self.l['n']) for v, m in zip(self.h.get_array().ravel(), self.l['mats'])), numpy.zeros((self.l['n'], self.l['n']))))
            def prior_precision_derivative(self, i):
                if not 0 <= i < self.l['k']: raise ValueError('parameter index out of range')
                return scipy.sparse.csr_matrix(-2 * math.exp(-2 * self.h.get_array().ravel()[i]) * numpy.array(self.l['mats'][i], float).reshape(self.l['n'], self.l['n']))
        class Toy(E.ElementLinear):
            def __init__(self, l): self.l = l
            def isnonlinear(self): return self.l['nl']
            def element_design(self, o): return (NDesign if self.l['nl'] else Design)(self.l)
            def element_prior(self, h): return Prior(self.l, h)
        self.Toy = Toy
    def element(self, i):
        l = self.sc['leaves'][i]; k = l['kind']
        from eustace.analysis.advanced_standard import elements as X
        import importlib
        m = lambda n: importlib.import_module('eustace.analysis.advanced_standard.elements.' + n)
        if k == 'toy': return self.Toy(l)
        if k == 'grand': return m('grandmean').GrandMeanElement()
        if k == 'harm': return m('latitudeharmonics').LatitudeHarmonicsElement()
        if k == 'bias': return m('bias').BiasElement(str(i), l['n'])
        if k == 'local': return m('local').LocalElement(0)
        if k == 'spatialbias': return m('spatial_bias').SpatialBiasElement('all', 0)
        if k == 'expanded': return m('local_view').NonStationaryLocal(0)
        if k == 'seasonal': return m('seasonal').SeasonalElement(0, l['harmonics'], l['mean'])
        if k in ('kron', 'factor'):
            c = m('kronecker').SpaceTimeKroneckerElement if k == 'kron' else m('factor').SpaceTimeFactorElement
            return c(0, 2, 0, 10, 2, 2.5, 1.0)
    def hyper(self, i, p):
        """parameter object of leaf i with values p"""
        l = self.sc['leaves'][i]; k = l['kind']; v = [q * UNIT for q in p]; np = self.np
        import importlib
        m = lambda n: importlib.import_module('eustace.analysis.advanced_standard.elements.' + n)
        cov = m('covariate').CovariateHyperparameters
        if k == 'toy':
            if l['hyper'] == 'plain': return self.H(v)
            c = (len(v) + 1) // 2
            g = {}
            if v[:c]: g['alpha'] = np.array(v[:c])
            if v[c:]: g['beta'] = np.array(v[c:])
            return m('local_view').GeneralHyperparameters(**g)
        if k == 'harm': return m('combination').CombinationHyperparameters([cov(q) for q in v])
        if k in ('grand', 'bias'): return cov(v[0])
        if k in ('local', 'spatialbias'): return m('local').LocalHyperparameters(v[0], v[1])
        if k == 'expanded': return m('local_view').ExpandedLocalHyperparameters(np.array(v[:12]), np.array(v[12:]))
        if k == 'seasonal':
            h = m('seasonal').SeasonalHyperparameters(l['k'] // 2, v[0], v[1]); h.set_array(np.array(v)); return h
        return m('spacetimespde').SpaceTimeSPDEHyperparameters(*v)

def ints(v): return [int(round(float(q) / UNIT)) for q in v]
def fix(v): return [int(round(float(q) * S)) for q in v]
def entries(m):
    m = m.tocoo(); d = {}
    for r, c, v in zip(m.row, m.col, m.data): d[(int(r) + 1, int(c) + 1)] = d.get((int(r) + 1, int(c) + 1), 0) + float(v)
    return [[r, c, int(round(v * S))] for (r, c), v in sorted(d.items()) if int(round(v * S))]

def execute(sc, rec, tmp):
    if sc['kind'] == 'keys': return keys(sc, rec, tmp)
    import numpy as np
    if sc['kind'] == 'general':
        from eustace.analysis.advanced_standard.elements.local_view import GeneralHyperparameters
        h = GeneralHyperparameters(**{k: np.array(v) * UNIT for k, v in sc['parts'].items()})
        p = os.path.join(tmp, 'general.npy'); h.values_to_npy_savefile(p); g = GeneralHyperparameters.init_from_npy_savefile(p)
        rec('general', **{'in': dict(parts=[dict(name=k, v=sc['parts'][k]) for k in sorted(sc['parts'])]), 'out': dict(params=ints(h.get_array()), loaded=ints(g.get_array()), parts=[dict(name=k, v=ints(v)) for k, v in sorted(g.get_dictionary().items())])})
        return
    if sc['kind'] == 'bilinear':
        sc = dict(sc, leaves=[dict(kind='factor', n=14, k=3, nl=True)])
        kit = Kit(sc); d = kit.element(0).element_design(kit.Obs()); x = np.array(sc['x'], float)
        rec('combine', **{'in': dict(tree=dict(sub=[]), leaves=[], nobs=len(sc['obs']), params=[]), 'out': dict(nstate=0, nprior=0, nonlinear=False, enonlinear=False, params=[], ranges=[], init=[])})
        step = []
        for j in range(14):
            y = x.copy(); y[j] += 1; step.append(fix(d.design_function(y)))
        rec('bilinear', **{'in': dict(x=sc['x']), 'out': dict(f=fix(d.design_function(x)), step=step, j=entries(d.design_jacobian(x)))})
        return
    from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
    from eustace.analysis.advanced_standard.elements.local_view import ExtendedCombinationHyperparameters
    kit = Kit(sc); leaves = sc['leaves']; off = [0]
    for l in leaves: off.append(off[-1] + l['k'])
    noff = [0]
    for l in leaves: noff.append(noff[-1] + l['n'])
    part = lambda v, i: v[off[i]:off[i + 1]]
    own_h = {}
    def build(node, top=False):
        if 'leaf' in node:
            i = node['leaf'] - 1; own_h[i] = kit.hyper(i, part(sc['params'], i)); return kit.element(i), own_h[i]
        pairs = [build(s) for s in node['sub']]
        return CombinationElement([a for a, b in pairs]), (ExtendedCombinationHyperparameters if top else CombinationHyperparameters)([b for a, b in pairs])
    if sc['via'] == 'direct': element, hyper = build(sc['tree'], True)
    else:
        from eustace.analysis.advanced_standard.elements.covariate import LoadCovariateElement
        base = 'eustace.analysis.advanced_standard.elements.'
        d = {}
        for i, (name, l) in enumerate(zip(sc['names'], leaves)):
            e = dict(python_class=base + {'grand': 'grandmean.GrandMeanElement', 'harm': 'latitudeharmonics.LatitudeHarmonicsElement', 'bias': 'bias.BiasElement'}[l['kind']])
            if l['kind'] == 'bias': e['parameters'] = dict(groupname=str(i), number_of_biases=l['n'])
            d[name] = dict(element=e, hyperparameters={'p%d' % j: math.exp(v * UNIT) for j, v in enumerate(part(sc['params'], i))})
        p = os.path.join(tmp, 'covariates.json'); open(p, 'w').write(json.dumps(d))
        es, hs = LoadCovariateElement(p).load_covariates_and_hyperparameters()
        element, hyper = CombinationElement(es), ExtendedCombinationHyperparameters(hs)
        own_h = dict(enumerate(hs))
    obs = kit.Obs(); design = element.element_design(obs); prior = element.element_prior(hyper)
    for l in leaves:
        if l['kind'] == 'seasonal': l['quarter'] = sc['quarter']
    lv = [{k: v for k, v in l.items() if k not in ('hyper',)} for l in leaves]
    init = design.design_initial_state()
    rec('combine', **{'in': dict(tree=sc['tree'], leaves=lv, nobs=len(sc['obs']), params=sc['params']),
        'out': dict(nstate=int(design.design_number_of_state_parameters()), nprior=int(prior.prior_number_of_state_parameters()), nonlinear=bool(design.isnonlinear()), enonlinear=bool(element.isnonlinear()),
                    params=ints(hyper.get_array()), ranges=[[int(min(r)), len(r)] if len(r) else [0, 0] for r in hyper.get_element_ranges()], init=[] if init is None else [int(round(q)) for q in init])})
    cur = list(sc['params'])
    alone = {}
    def solo(i):
        """leaf i alone: a fresh element and parameter object"""
        if i not in alone: alone[i] = kit.element(i).element_design(obs)
        return alone[i]
    def local_of(i):
        from eustace.analysis.advanced_standard.elements.local import LocalElement
        return LocalElement(0)
    modelled = ('toy', 'grand', 'bias', 'harm')
    def own_state(x, rect, jac):
        r = []
        for i, l in enumerate(leaves):
            if l['kind'] in modelled: r.append(dict(none=0)); continue
            b = x[noff[i]:noff[i + 1]]; v = np.array(b, float)
            if l['kind'] == 'seasonal':
                d = local_of(i).element_design(obs); m = d.design_matrix(); m = abs(m) if rect else m
                r.append(dict(x=b, j=entries(m)) if jac else dict(x=b, f=[fix(m.dot(q)) for q in v.reshape(-1, 12)]))
            elif jac: r.append(dict(x=b, j=entries(solo(i).design_jacobian(v))))
            else: r.append(dict(x=b, f=fix(solo(i).design_function(v, rectified=True) if rect else solo(i).design_function(v))))
        return r
    def own_prior(i, p, k=None):
        l = leaves[i]
        if l['kind'] in modelled: return dict(none=0)
        if l['kind'] == 'seasonal':
            from eustace.analysis.advanced_standard.elements.local import LocalHyperparameters
            pr = lambda h: local_of(i).element_prior(LocalHyperparameters(p[2 * h] * UNIT, p[2 * h + 1] * UNIT))
            if k is None: return dict(p=p, q=[entries(pr(h).prior_precision()) for h in range(l['k'] // 2)])
            return dict(p=p, d=entries(pr(k // 2).prior_precision_derivative(k % 2)))
        pr = kit.element(i).element_prior(kit.hyper(i, p))
        return dict(p=p, q=entries(pr.prior_precision())) if k is None else dict(p=p, d=entries(pr.prior_precision_derivative(k)))
    nonlinear = any(l['nl'] for l in leaves)
    real_factor = any(l['kind'] == 'factor' for l in leaves)
    for n, a in enumerate(sc['acts']):
        w = a['a']
        if w in ('set', 'one'):
            v = a['values'] if w == 'set' else cur[:a['p']] + [a['value']] + cur[a['p'] + 1:]
            ok = True
            try: hyper.set_array(np.array([q * UNIT for q in v], float))
            except ValueError: ok = False
            if len(v) == len(cur): cur = list(v)
            rec('set', **{'in': dict(values=v), 'out': dict(ok=ok, params=ints(hyper.get_array()), own=[ints(np.asarray(own_h[i].get_array()).ravel()) for i in range(len(leaves))])})
        elif w == 'stored':
            p = os.path.join(tmp, 'h%d.npy' % n); hyper.values_to_npy_savefile(p)
            _, other = build_other(kit, sc, part, CombinationHyperparameters, ExtendedCombinationHyperparameters)
            other.values_from_npy_savefile(p)
            rec('stored', **{'in': {}, 'out': dict(params=ints(other.get_array()))})
        elif w == 'predict':
            x = a['x']; rect = a['rect'] and not nonlinear; v = np.array(x, float)
            if a['column'] and not nonlinear: v = v.reshape(-1, 1)
            f = design.design_function(v, rectified=True) if rect else design.design_function(v)
            parts = [[int(q) for q in np.asarray(s).ravel()] for s in design.element_states(v)]
            pparts = [[int(q) for q in np.asarray(s).ravel()] for s in prior.element_states(v)]
            rec('predict', **{'in': dict(x=x, rect=rect, own=own_state(x, rect, False)), 'out': dict(f=fix(np.asarray(f).ravel()), parts=parts, pparts=pparts)})
        elif w == 'jacobian':
            x = a['x']; v = np.array(x, float)
            j = design.design_jacobian(v)
            m = [] if nonlinear else entries(design.design_matrix())
            rec('jacobian', **{'in': dict(x=x, own=own_state(x, False, True)), 'out': dict(shape=list(j.shape), j=entries(j), m=m)})
        elif w == 'prior':
            q = prior.prior_precision()
            rec('prior', **{'in': dict(own=[own_prior(i, part(cur, i)) for i in range(len(leaves))]), 'out': dict(shape=list(q.shape), q=entries(q))})
        elif w == 'derivative':
            i = next(i for i in range(len(leaves)) if off[i] < a['k'] <= off[i + 1])
            d = prior.prior_precision_derivative(a['k'] - 1)
            rec('derivative', **{'in': dict(k=a['k'], own=own_prior(i, part(cur, i), a['k'] - 1 - off[i])), 'out': dict(shape=list(d.shape), d=entries(d))})

def build_other(kit, sc, part, Plain, Extended):
    """another parameter object of the same structure with other values"""
    def go(node, top=False):
        if 'leaf' in node:
            i = node['leaf'] - 1; return kit.hyper(i, [-1] * sc['leaves'][i]['k'])
        return (Extended if top else Plain)([go(s) for s in node['sub']])
    return None, go(sc['tree'], True)

def keys(sc, rec, tmp):
    from eustace.analysis.advanced_standard.elements.covariate import LoadCovariateElement
    p = os.path.join(tmp, 'covariates.json'); open(p, 'w').write(json.dumps({k: {} for k in sc['keys']}))
    ok = True
    try: LoadCovariateElement(p).check_keys()
    except ValueError: ok = False
    rec('keys', **{'in': dict(keys=sc['keys']), 'out': dict(ok=ok)})

def mutate(s, rng):
    """negative control: a recorded observation moved beyond rounding"""
    t = json.loads(json.dumps(s))
    return t if damage(t, rng) else None

def damage(t, rng):
    ev = [e for e in t['events'] if e['a'] != 'keys' and 'out' in e]
    rng.shuffle(ev)
    for e in ev:
        o = e['out']
        if e['a'] == 'keys': o['ok'] = not o['ok']; return True
        if e['a'] == 'set':
            if o['params']: o['params'][rng.randrange(len(o['params']))] += 1; return True
        elif e['a'] == 'predict':
            if o['f']: o['f'][rng.randrange(len(o['f']))] += S; return True
        elif e['a'] in ('prior', 'derivative', 'jacobian', 'bilinear'):
            m = o[{'prior': 'q', 'derivative': 'd', 'jacobian': 'j', 'bilinear': 'j'}[e['a']]]
            if m: m[rng.randrange(len(m))][2] += S; return True
            if e['a'] == 'prior' and o['shape'][0]: m.append([1, o['shape'][0], S]); return True
        elif e['a'] == 'combine': o['nstate'] += 1; return True
    for e in t['events']:
        if e['a'] == 'keys' and 'out' in e: e['out']['ok'] = not e['out']['ok']; return True
    return False

def vacuity(traces):
    ev = [e for t in traces for e in t['events']]
    n = lambda f: sum(1 for e in ev if f(e))
    c = [e['in'] for e in ev if e['a'] == 'combine']
    return dict(nested=sum(1 for x in c if any('sub' in s for s in x['tree']['sub'])), empty_blocks=sum(1 for x in c if any(l['n'] == 0 for l in x['leaves'])), no_parameters_last=sum(1 for x in c if x['leaves'] and x['leaves'][-1]['k'] == 0),
                nonlinear=sum(1 for x in c if any(l['nl'] for l in x['leaves'])), seasonal=sum(1 for x in c if any(l['kind'] == 'seasonal' for l in x['leaves'])), factor=sum(1 for x in c if any(l['kind'] == 'factor' for l in x['leaves'])),
                refused=n(lambda e: e['a'] == 'set' and not e['out']['ok']), stored=n(lambda e: e['a'] == 'stored'), derivatives=n(lambda e: e['a'] == 'derivative'), rectified=n(lambda e: e['a'] == 'predict' and e['in']['rect']), unknown_keys=n(lambda e: e['a'] == 'keys' and not e['out']['ok']))
