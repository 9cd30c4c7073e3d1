"""C24: air temperatures over ice: quality control, model, uncertainties, both hemispheres, output files."""
import copy, os
MODELS = [dict(module='MC_Ice.tla', cfg='MC_Ice.cfg', tier='quick', workers=6), dict(module='MC_Ice.tla', cfg='MC_IceT.cfg', tier='thorough', workers=8)]
TRACE = 'T_C24'
TIMEOUT = 120
NEG = 120
MISS = -1
KINDS = ['tas', 'tasmin', 'tasmax']
PARTS = ['LandIce', 'SeaIce']
FIELDS = ['surface_temperature', 'surface_temperature_min', 'surface_temperature_max', 'surface_temperature_std', 'surface_temperature_3d', 'Nobs3d', 'land_mask', 'sea_ice_fraction', 'uncorrelated_uncertainty', 'synoptically_correlated_uncertainty', 'large_scale_correlated_uncertainty']
SHAPE = (1, 12, 24)
ASSUMPTIONS = ['the kind of land is known in every cell', 'grids of at least 5 by 5 cells', 'a cell exactly 10 K below the mean around may be kept or not (rounding)',
               'global output files are written on a coarse grid (the size of the output grid is set before the code is loaded)', 'the slope of the regression is positive',
               'the check of minima against the parts of the night never rejects (as the original and its test have it)']

def blank():
    return dict(t=MISS, lo=MISS, hi=MISS, sd=MISS, land=2, conc=0, bins=[MISS] * 8, n=[1] * 8, u=1, s=1, w=1)

def cell(rng, st):
    """st: style of the scene"""
    c = blank()
    m = lambda x, p=None: MISS if rng.random() < (st['miss'] if p is None else p) else x
    t = st['t'] + rng.choice([0, 0, 0, 1, -1, 4, -4, rng.randint(-45, 45), rng.randint(-90, 60)])
    if rng.random() < st['cold']: t -= rng.choice([39, 40, 41, 44, 60])
    if rng.random() < 0.04: t = rng.choice([1112, 1113, 1120])
    c['t'] = m(t); c['lo'] = m(t - rng.randint(0, 30)); c['hi'] = m(t + rng.randint(0, 30))
    if rng.random() < st['cold']: c['lo'] = m(t - rng.choice([60, 80])); c['hi'] = m(t - rng.choice([0, 50]))
    c['sd'] = m(rng.choice([0, 100, 706, 707, 708, 900]) if rng.random() < 0.25 else rng.randint(0, 600))
    c['land'] = rng.choice(st['lands'])
    c['conc'] = m(rng.choice(st['concs']))
    for b in range(8):
        c['bins'][b] = m(t + rng.randint(-20, 20), 0.3)
        if rng.random() < 0.1: c['bins'][b] = t + rng.choice([-40, 40, 80, -80, 120])
        c['n'][b] = m(rng.choice(st['counts']), st['miss'] / 2)
    if rng.random() < 0.1: c['bins'] = [MISS] * 8
    if rng.random() < 0.1: x = t + rng.choice([40, -40, 41, -41]); c['bins'] = [x] * 8
    if rng.random() < 0.1: x = t + rng.choice([80, -80, 81, -81, 100]); c['bins'] = [x] * 8
    if rng.random() < 0.06:
        for b in (2, 3, 4, 5): c['n'][b] = rng.choice([0, 0, MISS])
    if rng.random() < 0.06:
        for b in (0, 1, 6, 7): c['n'][b] = rng.choice([0, 0, MISS])
    if rng.random() < 0.04: b = rng.choice([(2, 3, 4, 5), (0, 1, 6, 7)]); [c['n'].__setitem__(x, MISS) for x in b]
    c['u'] = m(rng.randint(0, 8), st['miss'] / 3); c['s'] = m(rng.randint(0, 8), st['miss'] / 3); c['w'] = m(rng.randint(0, 12), st['miss'] / 3)
    return c

def style(rng):
    return dict(t=rng.choice([1000, 1040, 1080, 1100, 960]), miss=rng.choice([0, 0, 0.05, 0.2, 0.5]), cold=rng.choice([0, 0.1, 0.3]), lands=rng.choice([[1], [2], [1, 2, 3, 4, 0], [1, 1, 4, 2], [2, 2, 3, 0]]),
                concs=rng.choice([[100], [29, 30, 31], [0, 84, 85, 100], [0, 20], [30, 100]]), counts=rng.choice([[1], [0, 1, 5], [0, 0, 0, 1], [3]]))

def scene(rng, rows, cols, lat0, step, day):
    st = style(rng); st2 = style(rng) if rng.random() < 0.3 else st
    return dict(rows=rows, cols=cols, lat=[lat0 + step * i for i in range(rows)], day=day, cell=[cell(rng, st if rng.random() < 0.7 else st2) for _ in range(rows * cols)])

def coefs(rng):
    return {h: {p: {k: [rng.randint(-40, 40), rng.choice([4, 6, 7, 8, 9, 12]), rng.randint(-16, 16), rng.randint(-16, 16)] for k in KINDS} for p in PARTS} for h in ('nh', 'sh')}

def near(x):
    c = blank()
    c.update(t=x['t'], lo=MISS if x['t'] == MISS else x['t'] - 8, hi=x['t'], land=x['land'], conc=x['conc'])
    c['n'] = [x['d'] if b in (2, 3, 4, 5) else x['g'] for b in range(8)]; c['bins'] = [x['bin'] if b == 2 else MISS for b in range(8)]
    return c

def from_model(m, lat0, step, day):
    cells = [blank() for _ in range(25)]
    cells[12] = near(m['mid']); cells[10] = near(m['a']); cells[3] = near(m['b'])
    return dict(rows=5, cols=5, lat=[lat0 + step * i for i in range(5)], day=day, cell=cells)

def common(rng):
    return dict(coef=coefs(rng), order=rng.random() < 0.5, f4=rng.random() < 0.5, flat=rng.random() < 0.5)

def scenarios(rng, tier, model):
    big = tier == 'thorough'
    model = list(model); rng.shuffle(model); model = model[:2000 if big else 400]
    for a, b in zip(model[::2], model[1::2]):
        day = rng.choice([0, 18262, 57000, rng.randint(0, 60000)])
        yield dict(kind='world', s=from_model(a, -340, 4, day), n=from_model(b, 100, 4, day), **common(rng))
    for _ in range(800 if big else 130):
        day = rng.choice([0, 18262, 18263, 57000, rng.randint(0, 60000)])
        cols = rng.choice([5, 6, 7]); r1, r2 = rng.choice([5, 5, 6]), rng.choice([5, 5, 6, 7])
        step = rng.choice([1, 2, 4]); gap = rng.choice([1, 1, 2, 5])
        top = rng.choice([0, -step, -4 * step]); lat0 = top - step * (r1 - 1); n0 = top + step * gap
        while n0 <= 0: n0 += step
        s, n = scene(rng, r1, cols, lat0, step, day), scene(rng, r2, cols, n0, step, day)
        bad = rng.choice([0] * 14 + [1, 2, 3, 4, 5, 6, 7])
        if bad == 1: s, n = n, s
        if bad == 2: n['day'] += rng.choice([1, -1]) if day else 1
        if bad == 3: n = scene(rng, r2, cols + 1, n0, step, day)
        if bad == 4: s['lat'].reverse()
        if bad == 5: n['lat'] = [n0 + (step + 1) * i for i in range(r2)]
        if bad == 6: s['lat'][-1] -= 1 if step > 1 else 0
        if bad == 7: n = dict(n, lat=[s['lat'][0] + step * i for i in range(r2)])
        yield dict(kind='world', s=s, n=n, **common(rng))
    for k in range(60 if big else 12):
        day = rng.randint(0, 60000)
        s, n = scene(rng, 6, 24, -330, 60, day), scene(rng, 6, 24, 30, 60, day)
        bad = k % 6
        if k % 4 == 2 or k == 0:
            gone = rng.choice(['lo', 'hi', 't'])
            for c in s['cell'] + n['cell']: c[gone] = MISS   # one variable without any value
        if bad == 4: n['day'] += 1
        if bad == 5: s, n = n, s
        yield dict(kind='day', s=s, n=n, keep=[0, 0, 1, 2, 0, 0][bad], main=k % 4 == 1, **common(rng))
    for which in ['none', 'lat', 'lon'] + FIELDS:
        for how in (0, 1, 2): yield dict(kind='sizes', which=which, how=how, h=scene(rng, 5, 6, 10, 4, 5), f4=False, flat=True)
    for which in ['none', 'LandIce', 'SeaIce', 'two', 'four']: yield dict(kind='params', which=which, coef=coefs(rng), order=rng.random() < 0.5)

# --- files --------------------------------------------------------------------------------------------------------
def arrays(h, f4):
    import numpy
    C, sh = h['cell'], (h['rows'], h['cols'])
    def f(get, scale, ty=None):
        x = numpy.array([get(c) for c in C]); return numpy.ma.array(x / scale if scale != 1 else x, ty or ('f4' if f4 else 'f8'), mask=x == MISS).reshape(sh)
    def three(name, scale, ty):
        return numpy.ma.stack([f(lambda c, b=b: c[name][b], scale, ty) for b in range(8)])
    return dict(surface_temperature=f(lambda c: c['t'], 4.0), surface_temperature_min=f(lambda c: c['lo'], 4.0), surface_temperature_max=f(lambda c: c['hi'], 4.0), surface_temperature_std=f(lambda c: c['sd'], 100.0, 'f8'),
                surface_temperature_3d=three('bins', 4.0, 'f4' if f4 else 'f8'), Nobs3d=three('n', 1, 'i4'), land_mask=f(lambda c: c['land'], 1, 'i4'), sea_ice_fraction=f(lambda c: c['conc'], 100.0, 'f8'),
                uncorrelated_uncertainty=f(lambda c: c['u'], 4.0), synoptically_correlated_uncertainty=f(lambda c: c['s'], 4.0), large_scale_correlated_uncertainty=f(lambda c: c['w'], 4.0))

def write_hem(path, h, sc):
    import netCDF4
    nc = netCDF4.Dataset(path, 'w')
    for d, n in (('time', 1), ('bins', 8), ('lat', h['rows']), ('lon', h['cols'])): nc.createDimension(d, n)
    v = nc.createVariable('time', 'f8', ('time',)); v.units = 'seconds since 1981-01-01 00:00:00'; v[:] = (h['day'] - 47847) * 86400 + (43200 if sc['f4'] else 0)
    nc.createVariable('lat', 'f8', ('lat',))[:] = [x / 4.0 for x in h['lat']]
    nc.createVariable('lon', 'f8', ('lon',))[:] = [-10.0 + x for x in range(h['cols'])]
    for name, x in arrays(h, sc['f4']).items():
        three = name in ('surface_temperature_3d', 'Nobs3d'); flat = sc['flat'] and not three
        v = nc.createVariable(name, x.dtype, ('bins', 'lat', 'lon') if three else ('lat', 'lon') if flat else ('time', 'lat', 'lon'), fill_value=-32767)
        if three or flat: v[:] = x
        else: v[0] = x
    nc.close()

def write_params(path, coef, order, which='none'):
    import numpy, scipy.io
    names = [p for p in (PARTS[::-1] if order else PARTS) if p != which]
    kinds = KINDS[:2] if which == 'two' else KINDS + ['tas'] if which == 'four' else KINDS
    sf = numpy.empty((1, len(names)), object); M = numpy.empty((len(names), len(kinds)), object)
    for i, p in enumerate(names):
        sf[0, i] = p
        for j, k in enumerate(kinds): c = coef[p][k]; M[i, j] = numpy.array([[c[0] / 4.0], [c[1] / 8.0], [c[2] / 4.0], [c[3] / 4.0]])
    scipy.io.savemat(path, dict(sf_name=sf, M=M))

ANC = ['_unc_no_cloud', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud']
def num(x, scale, off=0.0):
    y = (float(x) - off) * scale
    return int(round(y)) if y == y and abs(y) < 2e9 else 2000000000

def listed(get):
    import numpy
    out = {}
    for k in KINDS:
        F = [numpy.ma.asarray(get(k + s)) for s in ['', 'uncertainty'] + ANC]
        F = [(numpy.ma.getmaskarray(x).ravel(), x.data.ravel()) for x in F]
        out[k] = [[] if all(m[i] for m, _ in F) else [2000000000 if m[i] else num(d[i], 1000 if j else 10000, 0 if j else 273.15) for j, (m, d) in enumerate(F)] for i in range(len(F[0][0]))]
    return out

def season(day):
    import math
    a = 2 * math.pi * (day - 18262.0) / 365.2425
    return [int(round(10000 * math.cos(a))), int(round(10000 * math.sin(a)))]

def execute(sc, rec, tmp):
    from eustace.outputformats import definitions
    definitions.GLOBAL_FIELD_SHAPE = SHAPE; definitions.GLOBAL_FIELD_RESOLUTION = 15.0
    import numpy, netCDF4, sys
    from eustace.surfaceairmodel.model_ice import ModelIce
    from eustace.surfaceairmodel.model_ice_input_processing import IceSurfaceTemperatureQualityControl
    from eustace.surfaceairmodel.fileio.ice import IceSurfaceTemperatureQualityControlNetCDF
    P = lambda n: os.path.join(tmp, n)
    empty = {k: [] for k in KINDS}
    if sc['kind'] in ('world', 'day'):
        write_hem(P('s.nc'), sc['s'], sc); write_hem(P('n.nc'), sc['n'], sc)
        for h in ('sh', 'nh'): write_params(P(h + '.mat'), sc['coef'][h], sc['order'])
        inp = dict(s=sc['s'], n=sc['n'], coef=sc['coef'], season=season(sc['s']['day']))
    if sc['kind'] == 'world':
        try:
            model = ModelIce({ModelIce.SOUTHERN_HEMISPHERE: P('sh.mat'), ModelIce.NORTHERN_HEMISPHERE: P('nh.mat')})
            r = model.process_global(IceSurfaceTemperatureQualityControlNetCDF(P('s.nc')), IceSurfaceTemperatureQualityControlNetCDF(P('n.nc')))
            out = dict(ok=True, q=listed(lambda name: r[name]))
        except ValueError as e:
            out = dict(ok=False, q=empty, err=repr(e)[:80])
        rec('world', **{'in': inp, 'out': out})
    elif sc['kind'] == 'day':
        from eustace.surfaceairmodel import run_ice
        main, anc = P('out/main.nc'), P('out/anc.nc')
        os.makedirs(P('out'))
        if sc['keep']: open((main, anc)[sc['keep'] - 1], 'w').write('earlier')
        kw = dict(institution='here', output_main=main, output_ancillary=anc, input_model_sh=P('sh.mat'), input_model_nh=P('nh.mat'), input_satellite_sh=P('s.nc'), input_satellite_nh=P('n.nc'))
        try:
            if sc['main']:
                old = sys.argv; sys.argv = ['run_ice'] + [w for k in sorted(kw) for w in ('--' + k, kw[k])]
                try: run_ice.main()
                finally: sys.argv = old
            else: run_ice.run_day('catalogue', **kw)
            a, b = netCDF4.Dataset(main), netCDF4.Dataset(anc)
            out = dict(ok=True, q=listed(lambda name: (a if name in a.variables else b).variables[name][0]), day=num(a.variables['time'][0], 1))
            if num(b.variables['time'][0], 1) != out['day'] or a.institution != 'here': out['day'] = -1
            a.close(); b.close()
        except ValueError as e:
            out = dict(ok=False, q=empty, day=0, err=repr(e)[:80])
        out.update(main=os.path.exists(main), anc=os.path.exists(anc), kept=not sc['keep'] or open((main, anc)[sc['keep'] - 1]).read() == 'earlier')
        rec('day', **{'in': dict(inp, exists=sc['keep'] > 0, keep=sc['keep']), 'out': out})
    elif sc['kind'] == 'sizes':
        h = sc['h']; A = arrays(h, False); A['lat'] = numpy.array(h['lat']) / 4.0; A['lon'] = numpy.arange(h['cols']) * 1.0
        w = sc['which']
        if w != 'none':
            x = A[w]
            if w in ('lat', 'lon'): A[w] = (x[:-1], numpy.append(x, 60.0), x.reshape(1, -1))[sc['how']]
            elif x.ndim == 3: A[w] = (x[:, :1], x[:, :, :-1], x[0])[sc['how']]
            else: A[w] = (x[:1], x[:, :-1], x[:, :1])[sc['how']]
        try:
            IceSurfaceTemperatureQualityControl(5, **A); ok = True
        except ValueError: ok = False
        rec('sizes', **{'in': dict(which=w, how=sc['how']), 'out': dict(ok=ok)})
    else:
        write_params(P('p.mat'), sc['coef']['nh'], sc['order'], sc['which'])
        try: ModelIce.load_hemisphere_model_parameters(P('p.mat')); ok = True
        except ValueError: ok = False
        rec('params', **{'in': dict(which=sc['which']), 'out': dict(ok=ok)})

def mutate(s, rng):
    s = copy.deepcopy(s); e = rng.choice(s['events']); o = e['out']
    if e['a'] in ('sizes', 'params') or not o['ok']: o['ok'] = not o['ok']; return s
    k = rng.choice(KINDS); q = o['q'][k]; i = rng.randrange(len(q))
    full = [j for j in range(len(q)) if q[j]]
    how = rng.choice([0, 1, 2])
    if how == 0 and full: i = rng.choice(full); q[i][rng.randrange(len(q[i]))] += rng.choice([60, -60, 500])
    elif how == 1 and full: q[rng.choice(full)] = []
    else:
        hole = [j for j in range(len(q)) if not q[j]]
        if not hole: return None
        q[rng.choice(hole)] = [0, 1, 1, 1, 1, 1, 1]
    return s

def vacuity(traces):
    n = dict(valid=0, cloud=0, refused=0, days=0, land=0, sea=0, kept=0)
    for t in traces:
        for e in t['events']:
            if e['a'] in ('world', 'day'):
                n['refused'] += not e['out']['ok']; n['days'] += e['a'] == 'day' and e['out']['ok']; n['kept'] += e['a'] == 'day' and e['in']['keep'] > 0
                if e['out']['ok']:
                    c = e['in']['s']['cell']
                    for k in KINDS:
                        for j, x in enumerate(e['out']['q'][k][:len(c)]):
                            if x: n['valid'] += 1; n['land' if c[j]['land'] in (1, 4) else 'sea'] += 1
                    n['cloud'] += sum(1 for j, x in enumerate(e['out']['q']['tas'][:len(c)]) if not x and c[j]['t'] > 0 and c[j]['land'] == 1 and c[j]['sd'] in range(0, 700) and c[j]['n'] == [1] * 8 and c[j]['u'] >= 0)
    return n
