"""C22: regions of the mesh and parameters joined over regions."""
import copy, json
from h_c19 import directions, ident, table, query, WEIGHTS
MODELS = [dict(module='MC_Views.tla', cfg='MC_Views.cfg', tier='quick', workers=4), dict(module='MC_Views.tla', cfg='MC_ViewsT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C22'
BUILD = dict(ext=['locator_search_planes', 'qinv'])
TIMEOUT = 120
NEG = 80
ASSUMPTIONS = ['parameters of regions are multiples of log(2), so that their exponentials are powers of two', 'areas and products of sides of single triangles are computed by the harness from the points of the mesh (which C19 verifies)', 'joined means are compared where at least one region has the point']

# ---------------------------------------------------------------- generator
def view(rng, L, kinds=('super', 'local', 'super', 'local', 'global')):
    k = rng.choice(kinds); a = rng.randint(0, L) if k != 'global' else 0
    return dict(kind=k, at=a, index=rng.randrange(20 * 4 ** a) if k != 'global' else 0)

def cover(rng, L):
    a = rng.randint(0, min(L, 1)); k = rng.choice(['super', 'local', 'local']); n = 20 * 4 ** a
    if n > 20: k = 'super'
    r = [dict(kind=k, at=a, index=i) for i in range(n)]; rng.shuffle(r)
    return r

def par(rng, n): return [[rng.randint(0, 4), rng.randint(0, 4)] for _ in range(n)]

def near(rng, L, v):
    """a place that is in or close to the region"""
    q = query(rng, L)
    if v['kind'] != 'global' and rng.random() < 0.6:
        d = [(v['index'] >> (2 * (v['at'] - i))) & 3 for i in range(1, v['at'] + 1)]; q['t'] = v['index'] >> (2 * v['at']); q['path'] = (d + q['path'])[:L]
    q['scale'] = 1
    return q

def scenarios(rng, tier, model):
    k = 5 if tier != 'quick' else 1
    ms = sorted({json.dumps(s, sort_keys=True) for s in model}); rng.shuffle(ms)
    for m in ms[:150 * k]:
        s = json.loads(m); v = s['views'][-1]
        yield dict(via='view', level=s['level'], views=s['views'], how=rng.choice(['direct', 'exp', 'steps']), par=par(rng, len(s['views'])), queries=[near(rng, s['level'], v) for _ in range(4)], element=rng.random() < 0.5, fmt='csr')
    for _ in range(60 * k):
        L = rng.choice([0, 1, 2, 2, 2, 3]); n = rng.choice([1, 1, 2, 3]); vs = [view(rng, L) for _ in range(n)]
        yield dict(via='view', level=L, views=vs, how=rng.choice(['', 'direct', 'exp', 'steps']) if L < 3 else '', par=par(rng, n), queries=[near(rng, L, vs[-1]) for _ in range(rng.choice([0, 1, 5, 9]))], element=rng.random() < 0.5, fmt=rng.choice(['csr', 'csc']))
    for _ in range(20 * k):
        L = rng.choice([0, 1, 1, 2]); vs = cover(rng, L)
        yield dict(via='merge', level=L, views=vs, how=rng.choice(['direct', 'exp', 'steps', 'steps']), par=par(rng, len(vs)))
    yield dict(via='merge', level=0, views=cover(rng, 0)[:2], how='wrong', par=par(rng, 2))
    for _ in range(60 * k):
        c = rng.choice(['expanded', 'general', 'combination', 'expanded'])
        if c == 'expanded': n = rng.randint(1, 6); mem = [['log_sigma', [rng.randint(-9, 9) for _ in range(n)]], ['log_rho', [rng.randint(-9, 9) for _ in range(n)]]]
        elif c == 'general': mem = [[x, [rng.randint(-9, 9) for _ in range(rng.randint(1, 4))]] for x in rng.sample(['log_sigma', 'log_rho', 'alpha', 'Zeta', 'q_parameters', 'a1'], rng.randint(1, 4))]
        else: mem = [[rng.choice(['local', 'expanded', 'covariate']), [rng.randint(-9, 9) for _ in range(rng.randint(1, 3))]] for _ in range(rng.randint(1, 4))]
        yield dict(via='keep', cls=c, members=mem)

# ---------------------------------------------------------------- execution
def fx(x, k): return int(max(-10 ** 9, min(10 ** 9, round(float(x) * k)))) if x == x else 10 ** 9
def rows(A, k):
    C = A.tocoo(); r = [[] for _ in range(A.shape[0])]
    for i, j, x in zip(C.row, C.col, C.data):
        if x: r[int(i)].append([int(j), fx(x, k)])
    return r

def mesh_event(m, rec):
    import numpy as np
    from eustace.analysis.mesh.mesh import MeshIcosahedronSubdivision as M
    L = int(m.level); tri = [dict(ident(r[0], L), c=[int(x) for x in r[1:]]) for r in m.triangles]; see = [[1, 1] for _ in m.points]; area = []; dots = []
    for i, t in enumerate(tri):
        for j, c in enumerate(t['c']): see[c] = [i + 1, j + 1]
        p = [m.points[c] for c in t['c']]; s = [p[2] - p[1], p[0] - p[2], p[1] - p[0]]; a, b, c = [float(np.sqrt((x * x).sum())) for x in s]; h = (a + b + c) / 2; A = float(np.sqrt(h * (h - a) * (h - b) * (h - c)))
        area.append(fx(A, 10 ** 6)); dots.append([[fx(float((x * y).sum()) / (4 * A), 10 ** 6) for y in s] for x in s])
    rec('mesh', **{'in': dict(level=L, base=table(M.build(0)), area=area, dots=dots), 'out': dict(tri=tri, see=see)})

class Obs(object):
    def __init__(self, polar): self.polar = polar
    def location_polar_coordinates(self): return self.polar
    def number_of_observations(self): return len(self.polar)

def build(sc, v):
    from eustace.analysis.advanced_standard.stats.spde import spherical_view as V
    from eustace.analysis.advanced_standard.elements import local_view as E
    L = sc['level']; f = sc.get('fmt', 'csr')
    if sc.get('element'):
        e = E.NonStationaryLocal(L) if v['kind'] == 'global' else (E.LocalSuperTriangle if v['kind'] == 'super' else E.LocalSubRegion)(L, v['at'], v['index'])
        return e.spde, e
    s = V.SphereMeshViewGlobal(L, sparse_format=f) if v['kind'] == 'global' else (V.SphereMeshViewSuperTriangle if v['kind'] == 'super' else V.SphereMeshViewLocal)(L, v['at'], v['index'], sparse_format=f)
    return s, None

def execute(sc, rec, tmp):
    import numpy as np, os
    if sc['via'] == 'keep': return keep(sc, rec, tmp)
    from eustace.analysis.mesh.mesh import MeshIcosahedronSubdivision as M
    from eustace.analysis.mesh.geometry import cartesian_to_polar2d
    from eustace.analysis.advanced_standard.elements.local import LocalHyperparameters
    L = sc['level']; base = M.build(0); mesh_event(M.build(L), rec); built = []
    for v in sc['views']:
        s, e = build(sc, v); built.append(s)
        if sc['via'] != 'view': continue
        mats = L <= 1 or (L == 2 and len(s.active_vertex_indices) <= 70)
        o = dict(tri=[int(x) for x in s.active_triangle_indices], vert=[int(x) for x in s.active_vertex_indices], n=int(s.n_latent_variables()), state=int(s.n_latent_variables()), total=int(s.n_triangles_at_level(v['at'])), mats=mats, mass=[], stiff=[])
        if e is not None: o['state'] = int(e.element_prior(LocalHyperparameters(0.0, 0.0)).prior_number_of_state_parameters())
        for name, mat in (('vm', s.get_vertex_mappings()), ('tm', s.get_triangulation_mappings())):
            r = rows(mat, 1); o[name] = [x[0] if len(x) == 1 else [-1, len(x)] for x in r]; o[name + 'shape'] = [int(x) for x in mat.shape]
        if mats:
            C = s.build_Q_C_tilde(); d = C - __import__('scipy.sparse').sparse.diags(C.diagonal()); o['mass'] = [fx(x, 10 ** 6) if abs(d).sum() == 0 else -1 for x in C.diagonal()]
            G = s.build_Q_G().tocoo(); G.sum_duplicates(); o['stiff'] = [[int(i), int(j), fx(x, 10 ** 6)] for i, j, x in zip(G.row, G.col, G.data)]
        rec('view', **{'in': v, 'out': o})
    if sc.get('queries'):
        polar = cartesian_to_polar2d(directions(base, sc['queries'])); s, e = build(sc, sc['views'][-1])
        if e is None: A = s.build_A(polar)
        else:
            d = e.element_design(Obs(polar)); A = d.design_matrix()
            if d.design_number_of_state_parameters() != A.shape[1]: A = A[:, :0]
        rec('design', **{'in': dict(view=sc['views'][-1], queries=sc['queries']), 'out': dict(rows=rows(A, 10 ** 6), cols=int(A.shape[1]), inside=[bool(x) for x in s.in_domain(polar)])})
    if not sc['how']: return
    from eustace.analysis.advanced_standard.stats.spde.spherical_view import SphereMeshViewGlobal as G
    th = [np.array([a * np.log(2), b * np.log(2)]) for a, b in sc['par']]; inp = dict(views=sc['views'], par=sc['par'], how=sc['how']); g = G(L); n = g.n_latent_variables()
    old = [t.copy() for t in th]
    with np.errstate(all='ignore'):
        if sc['how'] == 'steps':
            acc = (None, None, None); st = []
            for s, t in zip(built, th):
                acc = G.accumulate_local_parameterisations(acc[0], acc[1], acc[2], s, t); st.append(dict(sigma=[fx(x, 1000) for x in acc[0]], rho=[fx(x, 1000) for x in acc[1]], count=[int(x) for x in acc[2]]))
            a, b = G.finalise_local_parameterisation_sigma_rho(*acc); q, ds, dr = G.finalise_local_parameterisation_q(*acc)
            ends = [dict(sigma=exps(a), rho=exps(b), own=True), dict(sigma=exps(q[:n]), rho=exps(q[n:]), own=own(ds, dr, n) and len(q) == 2 * n)]
            out = dict(steps=st, ends=ends)
        else:
            try: vals, S, R = g.merge_local_parameterisations(built, th, merge_method={'direct': 'direct_average', 'exp': 'exp_average', 'wrong': 'other'}[sc['how']]); out = None
            except ValueError: out = dict(refused=True)
            if sc['how'] == 'wrong': out = out or dict(refused=False)
            elif out is None and sc['how'] == 'direct': out = dict(values=[fx(x / np.log(2), 1000) for x in vals], sigma=rows(S, 10 ** 6), rho=rows(R, 10 ** 6), cols=[int(S.shape[1]), int(R.shape[1])])
            elif out is None: out = dict(sigma=exps(vals[:n]), rho=exps(vals[n:]), own=own(S, R, n) and len(vals) == 2 * n)
    if not all((a == b).all() for a, b in zip(old, th)): out = dict(changed=True)
    rec('merge', **{'in': inp, 'out': out})

def exps(a):
    import numpy as np
    return [fx(x, 1000) for x in np.exp(np.asarray(a, float))]
def own(S, R, n):
    """each parameter belongs to its own point"""
    return rows(S, 1) == [[[i, 1]] for i in range(n)] and rows(R, 1) == [[[i + n, 1]] for i in range(n)]

def keep(sc, rec, tmp):
    import numpy as np, os
    from eustace.analysis.advanced_standard.elements import local_view as E
    from eustace.analysis.advanced_standard.elements.local import LocalHyperparameters
    from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
    f = os.path.join(tmp, 'p.npy'); il = lambda a: [fx(x, 1) for x in np.ravel(a)]; arr = lambda v: np.array(v, float)
    m = sc['members']
    if sc['cls'] == 'expanded':
        h = E.ExpandedLocalHyperparameters(arr(m[0][1]), arr(m[1][1])); h.values_to_npy_savefile(f)
        k = E.ExpandedLocalHyperparameters(None, None); k.values_from_npy_savefile(f); want = m[0][1] + m[1][1]; mem = [il(k.log_sigma), il(k.log_rho)]; wmem = [m[0][1], m[1][1]]
    elif sc['cls'] == 'general':
        h = E.GeneralHyperparameters(**{a: arr(b) for a, b in m}); h.values_to_npy_savefile(f); k = E.GeneralHyperparameters.init_from_npy_savefile(f)
        s = sorted(m); want = [x for a, b in s for x in b]; mem = [il(getattr(k, a, [])) for a, b in s]; wmem = [b for a, b in s]
        z = E.GeneralHyperparameters(**{a: arr(b) * 0 for a, b in m}); z.set_array(h.get_array()); mem = mem if [il(getattr(z, a)) for a, b in s] == wmem else ['not set']
    else:
        def make(zero):
            r = []
            for a, b in m:
                b = arr(b) * (0 if zero else 1)
                r.append(LocalHyperparameters(b[0], b[-1]) if a == 'local' else E.ExpandedLocalHyperparameters(b, b + (0 if zero else 1)) if a == 'expanded' else CovariateHyperparameters(b[0]))
            return r
        want = [x for a, b in m for x in ([b[0], b[-1]] if a == 'local' else b + [y + 1 for y in b] if a == 'expanded' else [b[0]])]
        h = E.ExtendedCombinationHyperparameters(make(False)); h.values_to_npy_savefile(f); k = E.ExtendedCombinationHyperparameters(make(True)); k.values_from_npy_savefile(f)
        mem = [il(x.get_array()) for x in k.elementparameters]; wmem = [il(x.get_array()) for x in make(False)]
    rec('keep', **{'in': dict(want=want, members=wmem), 'out': dict(array=il(h.get_array()), loaded=il(k.get_array()), members=mem)})

# ---------------------------------------------------------------- checks of the check
def mutate(s, rng):
    m = copy.deepcopy(s); evs = [e for e in m['events'] if 'out' in e and e['a'] != 'mesh']
    if not evs: return None
    e = rng.choice(evs); o = e['out']
    if e['a'] == 'view':
        k = rng.choice(['tri', 'vert', 'vm', 'tm', 'mass', 'stiff'])
        if not o[k] or (k == 'tri' and len(o[k]) < 2): return None
        if k == 'tri': o[k].pop()
        elif k == 'vert': o[k].reverse()
        elif k in ('vm', 'tm'): rng.choice(o[k])[0] += 1
        elif k == 'mass': i = rng.randrange(len(o[k])); o[k][i] += 500
        else: rng.choice(o[k])[2] += 500
    elif e['a'] == 'design':
        r = [x for x in o['rows'] if x]
        if not r: return None
        rng.choice(rng.choice(r))[1] += 1000
    elif e['a'] == 'merge':
        if 'steps' in o: x = rng.choice(o['steps']); i = rng.randrange(len(x['count'])); rng.choice([x['sigma'], x['rho'], x['count']])[i] += 7
        elif e['in']['how'] == 'direct':
            r = [x for x in rng.choice([o['sigma'], o['rho']]) if x]
            rng.choice(rng.choice(r))[1] += 1000
        elif 'sigma' in o:
            i = [j for j, x in enumerate(o['sigma']) if 0 < x < 10 ** 9]; o['sigma'][rng.choice(i)] += 20
        else: return None
    else:
        i = rng.randrange(len(o['loaded'])); o['loaded'][i] += 1
    return m

def vacuity(traces):
    ev = [e for t in traces for e in t['events'] if 'out' in e]; vs = [e for e in ev if e['a'] == 'view']; ds = [e for e in ev if e['a'] == 'design']
    return dict(super=sum(1 for e in vs if e['in']['kind'] == 'super'), local=sum(1 for e in vs if e['in']['kind'] == 'local'), whole=sum(1 for e in vs if e['in']['kind'] == 'global'), matrices=sum(1 for e in vs if e['out']['mats']),
                inside=sum(sum(1 for x in e['out']['inside'] if x) for e in ds), outside=sum(sum(1 for x in e['out']['inside'] if not x) for e in ds), joined=sum(1 for e in ev if e['a'] == 'merge'), kept=sum(1 for e in ev if e['a'] == 'keep'))
