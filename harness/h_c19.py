"""C19: subdivided mesh and location of directions."""
import copy, json
MODELS = [dict(module='MC_Mesh.tla', cfg='MC_Mesh.cfg', tier='quick', workers=4), dict(module='MC_Mesh.tla', cfg='MC_MeshT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C19'
BUILD = dict(ext=['locator_search_planes'])
TIMEOUT = 120
NEG = 80
ASSUMPTIONS = ['coordinates are compared as whole numbers of 1/10000, weights as 1/1000000', 'directions are given as small whole multiples of the corners of a triangle, so that they are inside it, on a side or at a corner by construction', 'weights in spherical geometry are checked for sign, sum and zeros only']

# ---------------------------------------------------------------- generator
WEIGHTS = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 0, 1], [3, 1, 0], [1, 0, 4], [0, 5, 2], [1, 1, 1], [3, 2, 1], [1, 7, 1], [9, 1, 1], [1, 1, 30], [50, 1, 20]]
def query(rng, n, lo=0):
    k = rng.random(); path = [rng.randrange(4) for _ in range(n)]
    if k < 0.25: path = [rng.choice([0, 0, 1, 2]) if rng.random() < 0.5 else rng.randrange(4)] * n
    elif k < 0.5: a = rng.sample([0, 1, 2], 2); path = [rng.choice(a) for _ in range(n)]
    return dict(t=rng.randrange(20), path=path, w=rng.choice(WEIGHTS), scale=rng.choice([1, 1, 2, 7]))

def scenarios(rng, tier, model):
    big = tier != 'quick'; k = 8 if big else 1
    for L in range(4 if big else 3):
        for rot in (False, True):
            for project in (True, False): yield dict(via='build', level=L, rot=rot, project=project, step=rng.random() < 0.5)
    yield dict(via='build', level=3, rot=rng.random() < 0.5, project=True, step=False)
    yield dict(via='build', level=5 if not big else 6, rot=rng.random() < 0.5, project=True, step=False)
    ms = sorted({json.dumps(s, sort_keys=True) for s in model}); rng.shuffle(ms)
    for i in range(0, len(ms), 8):
        qs = [dict(json.loads(m), w=rng.choice(WEIGHTS), scale=1) for m in ms[i:i + 8]]
        yield dict(via='locate', rot=rng.random() < 0.5, level=rng.choice([0, 1, 2, 2]), method=rng.choice(['planar', 'spherical', 'exhaustive', 'default']), queries=qs)
    for i in range(600 * k):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 26, 29]); level = n if rng.random() < 0.6 else rng.randint(0, n)
        method = rng.choice(['planar', 'default', 'spherical'])
        if n <= 3 and rng.random() < 0.5: method = 'exhaustive'
        yield dict(via='locate', rot=rng.random() < 0.5, level=level, method=method, queries=[query(rng, n) for _ in range(rng.choice([1, 2, 5, 12]))])
    for i in range(40 * k):
        L = rng.choice([0, 1, 1, 2, 2, 3] if big else [0, 1, 1, 2])
        yield dict(via='matrix', level=L, fmt=rng.choice(['csr', 'csc']), queries=[query(rng, L) for _ in range(rng.choice([1, 4, 12, 30]))])

# ---------------------------------------------------------------- execution
PART = [((0, 0), (0, 1), (0, 2)), ((0, 1), (1, 1), (1, 2)), ((0, 2), (1, 2), (2, 2)), ((1, 2), (0, 2), (0, 1))]
def directions(base, queries):
    import numpy as np
    r = []
    for q in queries:
        p = [base.points[int(i)] for i in base.triangles[q['t'], 1:]]
        for d in q['path']:
            p = [p[a] if a == b else (p[a] + p[b]) / np.linalg.norm(p[a] + p[b]) for a, b in PART[d]]
        v = sum(w * c for w, c in zip(q['w'], p)); r.append(v / np.linalg.norm(v) * q['scale'])
    return np.array(r).reshape(-1, 3)

def ident(number, level):
    number = int(number); d = [(number >> (58 - 2 * i)) & 3 for i in range(1, level + 1)]
    return dict(t=number >> 58, path=d, clean=number & ((1 << (58 - 2 * level)) - 1) == 0)

def table(base): return [[int(x) for x in r] for r in base.triangles[:, 1:]]
def ints(a, k):
    import numpy as np
    a = np.asarray(a, float)
    return [[int(max(-10 ** 9, min(10 ** 9, round(x * k)))) if x == x else 10 ** 9 for x in r] for r in a]

def mesh_event(m, base, sc, rec):
    import numpy as np
    L = int(m.level); tri = [dict(ident(r[0], L), c=[int(x) for x in r[1:]]) for r in m.triangles]; at = {(t['t'], tuple(t['path'])): i + 1 for i, t in enumerate(tri)}
    # helps for the specification, which verifies them: where each point occurs, which triangle of the list an edge refers to, between which points a point was put
    see = [[1, 1] for _ in m.points]
    for i, t in enumerate(tri):
        for j, c in enumerate(t['c']): see[c] = [i + 1, j + 1]
    edges = []
    for e in m.edges:
        a = ident(e[2], L); b = ident(e[4], L)
        edges.append(dict(p=int(e[0]), q=int(e[1]), a=a, i=int(e[3]), k=at.get((a['t'], tuple(a['path'])), 0), b=b, j=int(e[5]), m=at.get((b['t'], tuple(b['path'])), 0)))
    # a new point is corner 0 of part 1 etc.: its two ends are corners of the neighbouring parts
    ends = [[1, 1] for _ in m.points]
    if L:
        by = {(t['t'], tuple(t['path'])): t['c'] for t in tri}
        for t in tri:
            if t['path'] and t['path'][-1] == 3:
                up = t['path'][:-1]; c = [by.get((t['t'], tuple(up + [d])), [0, 0, 0])[d] + 1 for d in range(3)]
                for x, (p, q) in zip(t['c'], ((1, 2), (0, 2), (0, 1))): ends[x] = [c[p], c[q]]
    rec('mesh', **{'in': dict(level=sc['level'], project=sc.get('project', True), base=table(base), keep=sc['via'] == 'matrix'),
                   'out': dict(level=L, points=ints(m.points, 10000), tri=tri, edges=edges, see=see, **{'from': ends})})

def execute(sc, rec, tmp):
    import numpy as np
    from eustace.analysis.mesh.mesh import MeshIcosahedron, MeshIcosahedronSubdivision as M
    from eustace.analysis.mesh.locator import TriangleLocator, TriangleLocatorHierarchical
    from eustace.analysis.mesh.geometry import barycentric_coordinates_planar as planar, barycentric_coordinates_spherical as spherical, cartesian_to_polar2d
    if sc['via'] == 'build':
        base = M.build(0, sc['project'], sc['rot'])
        if sc['step']:
            m = base
            for _ in range(sc['level']): m = M.subdivide(m, sc['project'])
        else: m = M.build(sc['level'], project_onto_sphere=sc['project'], face_centre_at_poles=sc['rot'])
        mesh_event(m, base, sc, rec); return
    base = M.build(0, face_centre_at_poles=sc.get('rot', False)); v = directions(base, sc['queries'])
    if sc['via'] == 'matrix':
        from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
        s = SphereMeshSPDE(sc['level'], sparse_format=sc['fmt']); mesh_event(s.triangulation, base, sc, rec)
        A = s.build_A(cartesian_to_polar2d(v)); C = A.tocoo(); rows = [[] for _ in range(A.shape[0])]
        for i, j, x in zip(C.row, C.col, C.data): rows[int(i)].append(dict(k=int(j), x=int(round(float(x) * 10 ** 6))))
        rec('matrix', **{'in': dict(base=table(base), level=sc['level'], queries=sc['queries']), 'out': dict(rows=rows, n=int(A.shape[1]), cols=int(s.n_latent_variables()))}); return
    L = sc['level']; before = v.copy()
    if sc['method'] == 'exhaustive':
        m = M.build(L, face_centre_at_poles=sc['rot']); loc = TriangleLocator(m); i = loc.locate_vector_indices_exhaustive(v)
        if (i < 0).any(): ids = [dict(t=-1, path=[], clean=False) for x in i]; w = np.zeros((len(i), 3))
        else: ids = [ident(m.triangles[x, 0], L) for x in i]; w = loc.barycentric_coordinates_at_indices(i, v)
    else:
        h = TriangleLocatorHierarchical(base); kw = {} if sc['method'] == 'default' else dict(evaluation_method=planar if sc['method'] == 'planar' else spherical)
        if L == 29 and sc['method'] == 'default': n, w = h.locate_vector_hierarchical(v)
        else: n, w = h.locate_vector_hierarchical(v, levels=L, **kw)
        ids = [ident(x, L) for x in n]
    rec('locate', **{'in': dict(base=table(base), level=L, method=sc['method'], queries=sc['queries']), 'out': dict(ids=ids, w=ints(w, 10 ** 6), n=len(ids), same=bool((v == before).all()))})

# ---------------------------------------------------------------- checks of the check
def mutate(s, rng):
    m = copy.deepcopy(s); evs = [e for e in m['events'] if 'out' in e]
    if not evs: return None
    e = rng.choice(evs); o = e['out']
    if e['a'] == 'mesh':
        k = rng.choice(['point', 'id', 'corner', 'edge', 'slot', 'swap'])
        if k == 'point': p = rng.choice(o['points']); p[rng.randrange(3)] += 300
        elif k == 'id': t = rng.choice(o['tri']); t['t'] = (t['t'] + 1) % 20
        elif k == 'corner': t = rng.choice(o['tri']); t['c'] = t['c'][1:] + t['c'][:1]
        elif k == 'edge': x = rng.choice(o['edges']); x['p'], x['q'] = x['q'], x['p']
        elif k == 'slot': x = rng.choice(o['edges']); x['i'] = (x['i'] + 1) % 3
        else: a, b = rng.sample(o['tri'], 2); a['c'], b['c'] = b['c'], a['c']
        return m
    if e['a'] == 'matrix':
        r = rng.choice([r for r in o['rows'] if r]); x = rng.choice(r); x['x'] += 1000; return m
    k = rng.choice(['id', 'digit', 'w']); i = rng.randrange(len(o['ids']))
    if k == 'w': o['w'][i][rng.randrange(3)] -= 10000
    elif k == 'id' or not o['ids'][i]['path']: o['ids'][i]['t'] = (o['ids'][i]['t'] + 7) % 20; return m if not touching(e, i) else None
    else:
        if sum(1 for x in e['in']['queries'][i]['w'] if x) < 3: return None
        p = o['ids'][i]['path']; j = rng.randrange(len(p)); p[j] = (p[j] + 1) % 4
    return m

def touching(e, i):
    """could the direction be in the other base triangle as well"""
    return sum(1 for x in e['in']['queries'][i]['w'] if x) < 3

def vacuity(traces):
    ev = [e for t in traces for e in t['events'] if 'out' in e]; lo = [e for e in ev if e['a'] == 'locate']; qs = [(e, q) for e in lo for q in e['in']['queries']]
    return dict(meshes=sum(1 for e in ev if e['a'] == 'mesh'), corners=sum(1 for e, q in qs if sum(1 for x in q['w'] if x) == 1), on_sides=sum(1 for e, q in qs if sum(1 for x in q['w'] if x) == 2), inside=sum(1 for e, q in qs if all(q['w'])),
                deep=sum(1 for e in lo if e['in']['level'] >= 20), above=sum(1 for e, q in qs if len(q['path']) > e['in']['level']), curved=sum(1 for e in lo if e['in']['method'] == 'spherical'), searched=sum(1 for e in lo if e['in']['method'] == 'exhaustive'), matrices=sum(1 for e in ev if e['a'] == 'matrix'))
