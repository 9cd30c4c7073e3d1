"""C23: prior precisions, their slopes, and the layout of states in space and time."""
import copy, json, math
MODELS = [dict(module='MC_Precision.tla', cfg='MC_Precision.cfg', tier='quick', workers=6), dict(module='MC_Precision.tla', cfg='MC_PrecisionT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C23'
BUILD = dict(ext=['locator_search_planes', 'qinv'])
TIMEOUT = 120
NEG = 80
ASSUMPTIONS = ['logarithms of scale and range are multiples of log(2), spacings and scales chosen so that precisions are whole numbers in a known unit', 'on divided spheres the powers of the neighbour matrix that enter a precision are taken from the precision with kappa zero; on the undivided sphere they are computed by the specification', 'weights of places on the sphere are those of the mesh (C19)', 'cycles have more nodes than a basis function reaches (with fewer, this version of scipy cannot assign the repeated zeros)', 'weights of the compact basis are compared to 0.15 percent']

# ---------------------------------------------------------------- generator
def duals(rng, n, lo, hi, both=True): return [[rng.randint(lo, hi), rng.choice([0, 0, 1, -1, 2]) if both else 0] for _ in range(n)]
def grid(rng, d2=None):
    if d2 if d2 is not None else rng.random() < 0.5: n = rng.choice([2, 3, 3, 4]); sizes = [n, n]
    else: sizes = [rng.randint(2, 9)]
    return sizes, [bool(s > 2 and rng.random() < 0.5) for s in sizes]
def fits(n, span): return n >= 2 * int(span / 4.0 + 0.5) + 1   # no node of a cycle is met twice
def prod(s):
    r = 1
    for x in s: r *= x
    return r

def regress(rng):
    d2 = rng.random() < 0.4; sizes, wrap = grid(rng, d2); sizes = [min(s, 6) for s in sizes]; n = prod(sizes); alpha = 2 if d2 else rng.choice([1, 2]); p = rng.choice([2, 2, 3])
    one = (not d2) and alpha == 2; even = 1 if d2 else 2; st = rng.random() < 0.4
    if st: p = 2; sd = [[1, 0]] * n; rd = [[0, 1]] * n; th = [rng.randint(-1, 1), even * rng.randint(-1, 1)]
    else:
        while True:
            th = [rng.choice([-1, 1]) for _ in range(p)]
            sd = [[rng.choice([0, 0, 1, -1]) for _ in range(p)] for _ in range(n)]; rd = [[even * rng.choice([0, 0, 1, -1]) for _ in range(p)] for _ in range(n)]
            for i in range(n):
                for m, lim in ((sd, 1), (rd, even)):
                    while abs(sum(x * y for x, y in zip(m[i], th))) > lim: m[i] = [0] * p
            break
    return dict(via='regress', sizes=sizes, wrap=wrap, kind=rng.choice(['list', 'array', 'none']) if not any(wrap) else rng.choice(['list', 'array']), h=[1 if one else rng.choice([1, 2]) for _ in sizes], ds=[rng.choice([1, 2]) if one else rng.choice([1, 2, 4]) for _ in sizes], alpha=alpha, theta=th, sd=sd, rd=rd, index=rng.randrange(p), direct=st and rng.random() < 0.7, fmt=rng.choice(['csc', 'csr']))

def element(rng, kind):
    mean = rng.random() < 0.5; nh = rng.choice([1, 2, 2, 3]); alpha = rng.choice([2, 2, 2, 3]) if kind == 'kron' else 2
    nhyp = dict(kron=3, factor=3, local=2).get(kind) or 2 * (nh + int(mean))
    cyc = rng.random() < 0.5; nt = rng.choice([3, 4, 5]) if cyc else rng.choice([2, 3, 4]); annual = kind == 'kron' and rng.random() < 0.5
    if annual: cyc = rng.random() < 0.6; nt = rng.choice([4, 8]) if cyc else rng.choice([2, 3, 4])
    span = rng.choice([z for z in (4, 6, 7, 9, 10, 11) if not cyc or fits(nt, z)]); ns = 12; n = dict(kron=ns * nt, factor=ns + nt, local=ns).get(kind) or ns * (2 * nh + int(mean))
    x = (rng.randrange(0, 64) if cyc else rng.randint(-6, 8 * nt + 4)) if annual else (rng.randint(-20, 8 * nt + 30) if cyc else rng.randint(-6, 8 * nt + 4))
    if kind == 'season': x = rng.randrange(0, 40)
    return dict(via='element', kind=kind, mean=mean, harmonics=nh, alpha=alpha, hyp=[rng.randint(-6, 6) for _ in range(nhyp)], common=rng.random() < 0.3, cycle=cyc, nt=nt, annual=annual, span=span, H=rng.choice([1, 2, 4]), x=x, seed=rng.randrange(10 ** 6),
                state=[rng.randint(-2, 2) for _ in range(n)], places=[[rng.choice([-90, 90, rng.uniform(-90, 90)]), rng.uniform(-180, 180)] for _ in range(rng.choice([1, 3, 4]))])

def scenarios(rng, tier, model):
    k = 6 if tier != 'quick' else 1
    ms = sorted({json.dumps(s, sort_keys=True) for s in model}); rng.shuffle(ms)
    def pack(s): return dict(via='lattice', h=[rng.choice([1, 1, 2]) for _ in s['sizes']], kind=rng.choice(['list', 'array']) if any(s['wrap']) else rng.choice(['list', 'array', 'none']), H=rng.choice(['each', 'one', 'none']), fmt=rng.choice(['csc', 'csr']), scalar=rng.random() < 0.3, **s)
    for m in ms[:120 * k]: yield pack(json.loads(m))
    for _ in range(50 * k):
        sizes, wrap = grid(rng); n = prod(sizes)
        yield pack(dict(sizes=sizes, wrap=wrap, ds=[rng.choice([1, 2, 4]) for _ in sizes], kap=duals(rng, n, 0, 4), tau=duals(rng, n, 1, 3), alpha=rng.choice([1, 2, 2, 2, 3])))
    for _ in range(70 * k): yield regress(rng)
    for _ in range(25 * k): yield dict(via='sphere', m=duals(rng, 12, 1, 3), tau=duals(rng, 12, 1, 2), alpha=rng.choice([1, 2, 3, 3, 4, 5]), fmt=rng.choice(['csc', 'csr']))
    for _ in range(30 * k): yield dict(via='param', level=rng.choice([0, 0, 1, 2]), view=rng.choice(['', '', 'super', 'local', 'global']), at=rng.choice([0, 1]), index=rng.randrange(20), alpha=rng.choice([2, 2, 3, 4]), a=rng.randint(-1, 1), b=rng.randint(-1, 1), seed=rng.randrange(10 ** 6), fmt=rng.choice(['csc', 'csr']))
    for _ in range(30 * k):
        yield dict(via='expanded', level=rng.choice([0, 0, 1, 2]), view=rng.choice(['', 'super', 'local', 'global']), at=rng.choice([0, 1]), index=rng.randrange(20), which=rng.choice(['sigma', 'rho']), seed=rng.randrange(10 ** 6), fmt=rng.choice(['csc', 'csr']))
    for _ in range(40 * k):
        b = rng.choice(['linear', 'linear', 'wendland', 'cone']); sizes, wrap = grid(rng, None if b == 'linear' else False)
        span = rng.choice([z for z in (4, 4, 4, 6, 7, 8, 10, 11, 13) if all(fits(n, z) for n, w in zip(sizes, wrap) if w)])
        yield dict(via='weights', basis=b, sizes=sizes, wrap=wrap, kind=rng.choice(['list', 'array']), h=[rng.choice([1, 2, 3]) for _ in sizes], origin=[rng.randint(-5, 20) for _ in sizes], span=span, spde=rng.random() < 0.5, flat=len(sizes) == 1 and rng.random() < 0.5,
                   places=[[rng.randint(-30, 8 * s + 40) if w else rng.randint(-16, 8 * s + 8) for s, w in zip(sizes, wrap)] for _ in range(rng.choice([1, 4, 8]))])
    for _ in range(12 * k):
        for kind in ('kron', 'factor', 'season', 'local'): yield element(rng, kind)

# ---------------------------------------------------------------- execution
def I(x): return int(max(-2 * 10 ** 9, min(2 * 10 ** 9, round(float(x))))) if x == x else 2 * 10 ** 9
def whole(M, u): return [[I(x * u) for x in r] for r in M.toarray().tolist()]
def pts(M, at, u):
    M = M.tocsr(); return [I(M[i, j] * u) for i, j in at]

def lattice(sc, spans=None, origin=None):
    import numpy as np
    from eustace.analysis.advanced_standard.stats.spde import lattice as L
    o = origin or [0] * len(sc['sizes'])
    spec = [(float(a), float(a + h * (n - (0 if w else 1))), n) for a, h, n, w in zip(o, sc['h'], sc['sizes'], sc['wrap'])]
    basis = dict(linear=L.PiecewiseLinearBasis, wendland=L.WendlandC4Basis, cone=L.BasisFunction)[sc.get('basis', 'linear')]()
    w = None if sc['kind'] == 'none' else list(sc['wrap']) if sc['kind'] == 'list' else np.array(sc['wrap'])
    return L.LatticeSPDE.construct(dimension_specification=spec, basis_function=basis, overlap_factor=(spans or 4) / 4.0, wrap_dimensions=w)

def sphere(sc):
    from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
    from eustace.analysis.advanced_standard.stats.spde import spherical_view as V
    L = sc['level']; f = sc['fmt']; v = sc.get('view'); at = min(sc.get('at', 0), L)
    if not v: return SphereMeshSPDE(level=L, sparse_format=f)
    if v == 'global': return V.SphereMeshViewGlobal(L, sparse_format=f)
    return (V.SphereMeshViewSuperTriangle if v == 'super' else V.SphereMeshViewLocal)(L, at, sc['index'], sparse_format=f)

def diag(v, f):
    import numpy as np, scipy.sparse
    return scipy.sparse.diags(np.array(v, float), format=f)

def pairs(rng, M, n):
    """places in a matrix: on the diagonal, neighbours, others"""
    C = M.tocoo(); nz = [(int(i), int(j)) for i, j in zip(C.row, C.col)]; N = M.shape[0]
    return [rng.choice(nz) for _ in range(n)] + [(i, i) for i in (rng.randrange(N) for _ in range(n // 3))] + [(rng.randrange(N), rng.randrange(N)) for _ in range(n // 3)]

def execute(sc, rec, tmp):
    import numpy as np, random, warnings, contextlib, io
    warnings.simplefilter('ignore'); v = sc['via']
    if v == 'lattice':
        m = lattice(sc); n = prod(sc['sizes']); ds = sc['ds']; kap, tau = sc['kap'], sc['tau']
        how = sc['H']; ks = 1
        if how == 'none': ks = prod({h * h for h in sc['h']}); ds = [ks // (h * h) for h in sc['h']]      # no scale: one over the spacing squared
        H = [float(x * h * h) / ks for x, h in zip(ds, sc['h'])]; u = float(ks) ** sc['alpha']
        if how == 'none': Hv = None
        elif how != 'each' and len(set(H)) == 1: Hv = H[0]
        else: Hv = np.array(H)
        f = sc['fmt']; K = diag([x[0] for x in kap], f); T = diag([x[0] for x in tau], f)
        if sc['scalar'] and len({x[0] for x in kap}) == 1 and len({x[0] for x in tau}) == 1: K, T = float(kap[0][0]), float(tau[0][0])
        out = dict(refused=False, q=[], dq=[])
        try: out['q'] = whole(m.build_Q_native(kappa=K, tau=T, alpha=sc['alpha'], H=Hv, sparse_format=f), u)
        except NotImplementedError: out['refused'] = True
        try: out['dq'] = whole(m.build_dQdp_native(kappa=diag([x[0] for x in kap], f), tau=diag([x[0] for x in tau], f), alpha=sc['alpha'], dkappa=diag([x[1] for x in kap], f), dtau=diag([x[1] for x in tau], f), H=Hv, sparse_format=f), u)
        except NotImplementedError: out['refused'] = out['refused'] and True
        return rec('lattice', **{'in': dict({k: sc[k] for k in ('sizes', 'wrap', 'h', 'kap', 'tau', 'alpha')}, ds=ds, ks=ks), 'out': out})
    if v == 'regress':
        m = lattice(sc); d = len(sc['sizes']); H = np.array([float(x * h * h) for x, h in zip(sc['ds'], sc['h'])]); l2 = np.log(2.0); th = np.array(sc['theta'], float) * l2; f = sc['fmt']; sd = np.array(sc['sd'], float); rd = np.array(sc['rd'], float)
        u = 32 * math.pi * 256 if d == 2 else 4 * 16 * 16 if sc['alpha'] == 1 else 4 * 12 ** 1.5 * 16 * 256
        if sc['direct']: q = m.build_Q_stationary(th[0], th[1], sc['alpha'], H, f); dq = m.build_dQdp_stationary(th[0], th[1], sc['alpha'], H, sc['index'], f)
        else:
            q = m.build_Q(th.reshape(-1, 1), sd, rd, sc['alpha'], H, f); dq = m.build_dQdp(th.reshape(-1, 1), sd, rd, sc['alpha'], H, sc['index'], f)
        return rec('regress', **{'in': {k: sc[k] for k in ('sizes', 'wrap', 'h', 'ds', 'alpha', 'theta', 'sd', 'rd', 'index')}, 'out': dict(q=whole(q, u), dq=whole(dq, u))})
    if v == 'sphere':
        m = sphere(dict(sc, level=0)); c = float(m.build_Q_C_tilde().diagonal()[0]); r3 = math.sqrt(3.0); f = sc['fmt']; a = sc['alpha']; u = r3 ** a * c ** (a - 1)
        k = [math.sqrt(x[0] / (c * r3)) for x in sc['m']]; dk = [x[1] / (2 * y * c * r3) for x, y in zip(sc['m'], k)]; T = diag([x[0] for x in sc['tau']], f)
        out = dict(q=whole(m.build_Q_native(diag(k, f), T, a), u), dq=whole(m.build_dQdp_native(kappa=diag(k, f), tau=T, alpha=a, dkappa=diag(dk, f), dtau=diag([x[1] for x in sc['tau']], f)), u))
        return rec('sphere', **{'in': dict(tri=[[int(x) for x in t[1:]] for t in m.triangulation.triangles], m=sc['m'], tau=sc['tau'], alpha=a), 'out': out})
    if v == 'param':
        rng = random.Random(sc['seed']); m = sphere(sc); a = sc['alpha']; nu = a - 1.0; n = m.n_latent_variables(); f = sc['fmt']; Z = diag([0.0] * n, f); O = diag([1.0] * n, f); l2 = math.log(2.0); s, r = sc['a'] * l2, sc['b'] * l2
        M = [m.build_Q_C_tilde(), m.build_Q_G()] + [m.build_Q_native(Z, O, j) for j in range(2, a + 1)]
        u = 10 ** 5; tau2 = math.gamma(nu) / (math.gamma(a) * 4 * math.pi) * (8 * nu) ** -nu; w = u / (tau2 * (8 * nu) ** a)
        at = pairs(rng, M[2], 12); ms = [pts(x, at, u / (8 * nu) ** j) for j, x in enumerate(M)]
        q = m.build_Q_stationary(s, r, a); d = [m.build_dQdp_stationary(s, r, a, i) for i in (0, 1)]; flat = m.build_Q_expanded(np.full(n, s), np.full(n, r), a)
        return rec('param', **{'in': dict(alpha=a, a=sc['a'], b=sc['b'], m=[list(x) for x in zip(*ms)]), 'out': dict(q=pts(q, at, w), d0=pts(d[0], at, w), d1=pts(d[1], at, w), flat=pts(flat, at, w))})
    if v == 'expanded':
        rng = random.Random(sc['seed']); m = sphere(sc); n = m.n_latent_variables(); f = sc['fmt']; Z = diag([0.0] * n, f); O = diag([1.0] * n, f); l2 = math.log(2.0); a = [rng.randint(-1, 1) for _ in range(n)]; b = [rng.randint(-1, 1) for _ in range(n)]
        M2 = m.build_Q_native(Z, O, 2); at = pairs(rng, M2, 12); p = rng.choice([x for y in at[:3] for x in y]); u = 1000
        A, B = np.array(a, float) * l2, np.array(b, float) * l2; w = 32 * math.pi * 16 * u
        q = m.build_Q_expanded(A, B, 2); dq = m.build_dQdp_expanded(A, B, 2, p + (n if sc['which'] == 'rho' else 0)); c, g, mm = [pts(x, at, u) for x in (m.build_Q_C_tilde(), m.build_Q_G(), M2)]
        return rec('expanded', **{'in': dict(a=a, b=b, which=sc['which'], point=int(p), at=[dict(i=i, j=j, c=x, g=y, m=z) for (i, j), x, y, z in zip(at, c, g, mm)]), 'out': dict(q=pts(q, at, w), dq=pts(dq, at, w))})
    if v == 'weights':
        m = lattice(sc, sc['span'], sc['origin']); loc = np.array([[o + h * x / 8.0 for o, h, x in zip(sc['origin'], sc['h'], p)] for p in sc['places']]); loc = loc[:, 0] if sc['flat'] else loc
        A = (m if sc['spde'] else m.lattice).build_A(loc); nodes = m.lattice.nodes
        return rec('weights', **{'in': {k: sc[k] for k in ('basis', 'sizes', 'wrap', 'span', 'places')}, 'out': dict(nodes=int(A.shape[1]), rows=whole(A, 10000), first=[[I((x - o) / h) for x, o, h in zip(p, sc['origin'], sc['h'])] for p in nodes.tolist()])})
    with contextlib.redirect_stdout(io.StringIO()): return run_element(sc, rec)

class Obs(object):
    def __init__(self, polar, index, when): self.polar, self.index, self.when = polar, index, when
    def location_polar_coordinates(self): return self.polar
    def number_of_observations(self): return len(self.polar)
    def time_index(self): return self.index
    def time_datetime(self): return self.when

def run_element(sc, rec):
    import numpy as np, random, datetime
    from eustace.analysis.advanced_standard.elements import kronecker as KR, kronecker_annual as KA, factor as FA, seasonal as SE, local as LO, spacetimespde as ST
    rng = random.Random(sc['seed']); kind = sc['kind']; hyp = list(sc['hyp']); nt = sc['nt']; polar = np.array(sc['places'], float); t = 0.1; alpha = sc['alpha']
    if kind == 'season' and sc['common']: hyp = hyp[:2] * (len(hyp) // 2)
    if kind == 'local': e = LO.LocalElement(0); hp = LO.LocalHyperparameters(9.0, 9.0); spatial = e.spde; when = None; index = 0
    elif kind == 'season':
        e = SE.SeasonalElement(0, sc['harmonics'], sc['mean']); hp = SE.SeasonalHyperparameters(len(hyp) // 2, hyp[0] * t, hyp[1] * t) if sc['common'] else SE.SeasonalHyperparameters(len(hyp) // 2, 9.0, 9.0); spatial = e.spde
    else:
        h = (1.0 / nt if sc['cycle'] else 1.0) if sc['annual'] else 2.0; s0 = (0.0 if sc['cycle'] else 1999.0) if sc['annual'] else 5.0
        cls = KA.AnnualKroneckerElement if sc['annual'] else KR.SpaceTimeKroneckerElement if kind == 'kron' else FA.SpaceTimeFactorElement
        e = cls(0, alpha, s0, s0 + h * (nt - (0 if sc['cycle'] else 1)), nt, sc['span'] / 4.0, float(sc['H']), wrap_dimensions=[True] if sc['cycle'] else None)
        hp = ST.SpaceTimeSPDEHyperparameters(9.0, 9.0, 9.0); spatial = e.spatial_model
    if not (kind == 'season' and sc['common']): hp.set_array(np.array([x * t for x in hyp]))
    # times: eighths of the spacing, or eighths of a year
    when = None; index = 5.0 + 2.0 * sc['x'] / 8; x = sc['x']
    if kind == 'season' or sc['annual']:
        y = 1999 + x // 8; a = datetime.datetime(y, 1, 1); when = a + (datetime.datetime(y + 1, 1, 1) - a) / 8 * (x % 8)
        if sc['annual'] and sc['cycle']: x = nt * x          # eighths of a year in eighths of the spacing
    # parts
    def cut(M, u): return whole(M, u)
    pars = sorted({(hyp[0], hyp[1])} if kind != 'season' else {(hyp[2 * i], hyp[2 * i + 1]) for i in range(len(hyp) // 2)})
    space = []; al = alpha if kind in ('kron', 'factor') else 2; mats = [(p, spatial.build_Q_stationary(p[0] * t, p[1] * t, al), [spatial.build_dQdp_stationary(p[0] * t, p[1] * t, al, i) for i in (0, 1)]) for p in pars]
    us = 1000.0 / max(abs(m[1]).max() for m in mats); ut = 1.0; time = []
    for p, q, d in mats: space.append(dict(p=list(p), q=cut(q, us), d0=cut(d[0], us), d1=cut(d[1], us)))
    if kind in ('kron', 'factor'):
        tm = e.temporal_model; tq = {a: (tm.build_Q_stationary(0.0, hyp[2] * t, a, float(sc['H']), 'csc'), tm.build_dQdp_stationary(0.0, hyp[2] * t, a, float(sc['H']), 1, 'csc')) for a in (1, 2)}
        ut = 1000.0 / max(abs(m[0]).max() for m in tq.values())
        time = [dict(alpha=a, q=cut(q, ut), d=cut(d, ut)) for a, (q, d) in sorted(tq.items())]
    base = dict(kind=kind, mean=sc['mean'], harmonics=sc['harmonics'], nt=nt, alpha=alpha)
    if alpha <= 2 or kind == 'kron':
        pr = e.element_prior(hp); n = int(pr.prior_number_of_state_parameters()); out = []
        for k in range(-1, len(hyp)):
            M = pr.prior_precision() if k < 0 else pr.prior_precision_derivative(k); C = M.tocoo(); R = M.tocsr(); N = M.shape[0]
            nz = [(int(i), int(j)) for i, j, w in zip(C.row, C.col, C.data) if w]; at = [rng.choice(nz) for _ in range(40) if nz] + [(rng.randrange(N), rng.randrange(N)) for _ in range(60)] + [(i, i) for i in (rng.randrange(N) for _ in range(20))]
            un = lambda i, j: us * ut if kind == 'kron' else ut if kind == 'factor' and i >= 12 and j >= 12 else us
            out.append(dict(k=k, shape=[int(z) for z in M.shape], v=[[i, j, I(R[i, j] * un(i, j))] for i, j in at]))
        rec('prior', **{'in': dict(base, hyp=hyp, space=space, time=time), 'out': dict(n=n, hyp=[I(z / t) for z in hp.get_array()], mats=out)})
    # design
    As = spatial.build_A(polar); d = e.element_design(Obs(polar, index, when)); st = np.array(sc['state'][:int(d.design_number_of_state_parameters())], float)
    if kind == 'factor':
        st = np.array(sc['state'], float)
    keep = st.copy(); J = d.design_jacobian(st); R = J.tocsr(); f = np.asarray(d.design_function(st)).ravel(); g = np.asarray(d.design_function(st, rectified=True)).ravel()
    init = d.design_initial_state() if kind in ('kron', 'factor') else st
    jac = []
    for r in range(J.shape[0]):
        row = R[r].tocoo(); cs = sorted({int(c) for c in row.col} | {rng.randrange(J.shape[1]) for _ in range(10)}); jac.append([[c, I(R[r, c] * 10000)] for c in cs])
    if not (keep == st).all(): f = f * 0 - 77
    rec('design', **{'in': dict(base, cycle=sc['cycle'], span=sc['span'], x=x, As=whole(As, 10000), state=[int(z) for z in sc['state']]), 'out': dict(n=int(d.design_number_of_state_parameters()), start=int(len(init)), shape=[int(z) for z in J.shape], value=[I(z * 10000) for z in f], rectified=[I(z * 10000) for z in g], jac=jac)})

# ---------------------------------------------------------------- controls
def mutate(s, rng):
    s = copy.deepcopy(s); evs = [e for e in s['events']]; rng.shuffle(evs)
    for e in evs:
        o = e['out']; a = e['a']
        if a in ('lattice', 'regress', 'sphere') and o['q']:
            m = o[rng.choice(['q', 'dq'])]; i = rng.randrange(len(m)); j = rng.randrange(len(m)); m[i][j] += rng.choice([-1, 1]) * max(1, abs(m[i][j]) // 2); return s
        if a == 'param':
            k = rng.choice(['q', 'd0', 'd1', 'flat']); i = max(range(len(o[k])), key=lambda x: abs(o[k][x])); o[k][i] += abs(o[k][i]) // 3 + 2000; return s
        if a == 'expanded':
            i = max(range(len(o['q'])), key=lambda x: abs(o['q'][x])); o['q'][i] += abs(o['q'][i]) + 10 ** 6; return s
        if a == 'weights': r = rng.choice(o['rows']); i = rng.randrange(len(r)); r[i] += 300; return s
        if a == 'prior':
            if rng.random() < 0.2: o['hyp'][0] += 1; return s
            m = rng.choice(o['mats']); x = rng.choice(m['v']); x[2] = x[2] * 2 + 30000; return s
        if a == 'design':
            k = rng.choice(['value', 'rectified', 'jac', 'n'])
            if k == 'n': o['n'] += 1
            elif k == 'jac': r = rng.choice(o['jac']); rng.choice(r)[1] += 900
            else: o[k][rng.randrange(len(o[k]))] += 900
            return s
    return None

def vacuity(traces):
    c = {}
    for t in traces:
        for e in t['events']:
            k = e['a'] + (':' + e['in']['kind'] if 'kind' in e['in'] else ''); c[k] = c.get(k, 0) + 1
            if e['a'] == 'lattice' and any(e['in']['wrap']): c['wrapped'] = c.get('wrapped', 0) + 1
            if e['a'] == 'sphere' and e['in']['alpha'] > 2: c['high_order'] = c.get('high_order', 0) + 1
    return {k: c.get(k, 0) for k in ('lattice', 'regress', 'sphere', 'param', 'expanded', 'weights', 'prior:kron', 'prior:factor', 'prior:season', 'prior:local', 'design:kron', 'design:factor', 'design:season', 'design:local', 'wrapped', 'high_order')}
