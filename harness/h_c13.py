"""C13: quality-control flags of the postprocessing."""
import os, random
from datetime import datetime, timedelta
MODELS = [dict(module='MC_Flags.tla', cfg='MC_Flags.cfg', tier='quick', workers=3), dict(module='MC_Flags.tla', cfg='MC_FlagsT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C13'
TIMEOUT = 120
NEG = 120
ASSUMPTIONS = ['grids are reduced (GLOBAL_FIELD_SHAPE is set to a small grid; the window mean needs at least 10 cells per dimension)',
               'the flag word 65535 is the fill value of flag files and is not used', 'field values are quarters of a kelvin so that means compare exactly']
BASE = datetime(1850, 1, 1)
def num(t): return (t - BASE).days
def day(n): return BASE + timedelta(days=n)

def words(rng, n, bits=None):
    r = []
    for _ in range(n):
        w = 0
        for b in range(16):
            if rng.random() < (0.5 if bits is None or b in bits else 0.2): w |= 1 << b
        r.append(w if w != 65535 else 65534)
    return r

def scenarios(rng, tier, model):
    big = tier != 'quick'
    groups = {}
    for s in model: groups.setdefault(tuple(s['present']), []).append((tuple(s['seen']), tuple(s['bad'])))
    refs = [datetime(2001, 1, 1), datetime(2000, 2, 29), datetime(2000, 3, 1), datetime(1999, 12, 31), datetime(1900, 2, 28), datetime(2004, 2, 28), datetime(2001, 6, 15)]
    for present, cells in sorted(groups.items()):
        cells = sorted(set(cells))
        for thr in (0, 1, 2):
            yield dict(kind='window', model=dict(present=list(present), cells=[[list(a), list(b)] for a, b in cells]), thr=thr, range=1, ref=num(rng.choice(refs)), seed=rng.randint(0, 10**9))
            if thr: yield dict(kind='persist', model=dict(present=list(present), cells=[[list(a), list(b)] for a, b in cells]), thr=thr, range=1, ref=num(rng.choice(refs)), seed=rng.randint(0, 10**9))
    k = 6 if big else 1
    for i in range(60 * k): yield dict(kind='window', thr=rng.randint(0, 4), range=rng.randint(1, 4), ref=num(rng.choice(refs)), p=rng.choice([0.0, 0.3, 0.7, 1.0]), seed=rng.randint(0, 10**9))
    for i in range(40 * k): yield dict(kind='persist', thr=rng.randint(0, 4), range=rng.randint(0, 4), ref=num(rng.choice(refs)), p=rng.choice([0.0, 0.3, 0.7, 1.0]), seed=rng.randint(0, 10**9))
    for i in range(70 * k): yield dict(kind='calendar', ref=num(rng.choice(refs)), p=rng.choice([0.0, 0.3, 0.7, 1.0]), seed=rng.randint(0, 10**9))
    for i in range(25 * k): yield dict(kind='merge', ref=num(rng.choice(refs)), seed=rng.randint(0, 10**9))
    for i in range(25 * k): yield dict(kind='mask', seed=rng.randint(0, 10**9))
    for i in range(20 * k): yield dict(kind=['climatology', 'large_scale', 'influence', 'extremes'][i % 4], seed=rng.randint(0, 10**9))
    for i in range(4 * k): yield dict(kind='areal', seed=rng.randint(0, 10**9), tall=(i % 2 == 0))
    for i in range(10 * k): yield dict(kind='location', seed=rng.randint(0, 10**9))
    for i in range(6 * k): yield dict(kind='marine', seed=rng.randint(0, 10**9))
    for i in range(8 * k): yield dict(kind='percentiles', seed=rng.randint(0, 10**9), cal=rng.choice([0, 58, 59, 60, 365, 200]))
    for i in range(16 * k): yield dict(kind='apply', seed=rng.randint(0, 10**9), i=i)
    for i in range(3 * k): yield dict(kind='batch', which=['window', 'calendar', 'merge', 'persist', 'threshold', 'outlier', 'apply', 'window', 'persist', 'calendar', 'threshold', 'outlier'][i % 12], seed=rng.randint(0, 10**9))
    for w in ['persist', 'threshold', 'outlier', 'apply']: yield dict(kind='batch', which=w, seed=rng.randint(0, 10**9))
    for i in range(10 * k): yield dict(kind='dates', seed=rng.randint(0, 10**9))

def put(path, n, m, variables, when=None):
    """write a small NetCDF file: variables = [(name, dtype, attributes, values)]"""
    from netCDF4 import Dataset
    import numpy
    os.makedirs(os.path.dirname(path), exist_ok=True)
    nc = Dataset(path, 'w')
    nc.createDimension('time', 1); nc.createDimension('latitude', n); nc.createDimension('longitude', m)
    t = nc.createVariable('time', 'f4', ('time',)); t.units = 'days since 1850-01-01 00:00:00 UTC'; t.standard_name = 'time'; t[:] = when or 0
    la = nc.createVariable('latitude', 'f4', ('latitude',)); la.units = 'degrees_north'; la.standard_name = 'latitude'
    la[:] = -90 + 180.0 / n * (numpy.arange(n) + 0.5)
    lo = nc.createVariable('longitude', 'f4', ('longitude',)); lo.units = 'degrees_east'; lo.standard_name = 'longitude'
    lo[:] = -180 + 360.0 / m * (numpy.arange(m) + 0.5)
    for name, dtype, atts, values in variables:
        flat = atts.pop('flat', False)
        v = nc.createVariable(name, dtype, ('latitude', 'longitude') if flat else ('time', 'latitude', 'longitude'), fill_value=atts.pop('fill', None))
        for a, x in atts.items(): setattr(v, a, x)
        v[:] = numpy.array(values, dtype).reshape((n, m) if flat else (1, n, m))
    nc.close()

def put_flags(base, it, d, v, n, m):
    t = day(d)
    put('%s/%04d/eustace_analysis_%d_qc_flags_%04d%02d%02d.nc' % (base, t.year, it, t.year, t.month, t.day), n, m, [('tas_qc', 'u2', dict(long_name='Quality control flags', fill=65535), v)], d)

def get_flags(path):
    from netCDF4 import Dataset
    nc = Dataset(path); nc.set_auto_maskandscale(False)
    v = [int(x) for x in nc.variables['tas_qc'][:].ravel()]; t = nc.variables['time'][:]
    nc.close()
    return v

TAS, UNC, INF, ENS = 'air_temperature', 'Total uncertainty in average daily surface air temperature', 'Observation influence for average daily surface air temperature', 'Average daily surface air temperature ensemble'
def put_analysis(base, comp, it, d, n, m, tas, unc, inf, ens=(), rng=None):
    t = day(d)
    vs = [('tas', 'f4', dict(standard_name=TAS, units='K'), tas), ('tasuncertainty', 'f4', dict(long_name=UNC, units='K'), unc), ('tas_obs_influence', 'f4', dict(long_name=INF, units='1'), inf)]
    vs += [('tasensemble_%d' % i, 'f4', dict(long_name=ENS, units='K'), e) for i, e in ens]
    if rng: rng.shuffle(vs)
    put('%s/eustace_%s_%d/%04d/eustace_%s_%d_%04d%02d%02d.nc' % (base, comp, it, t.year, comp, it, t.year, t.month, t.day), n, m, vs, d)

def redirect(iris, mapping):
    """reads of fixed production paths go to scratch files"""
    def wrap(f):
        def g(uris, *a, **k):
            if isinstance(uris, str): uris = next((v for p, v in mapping.items() if uris.startswith('/gws/') and p in uris), uris)
            return f(uris, *a, **k)
        return g
    for name in ('load_cube', 'load', 'load_cubes'):
        f = getattr(iris, name)
        setattr(iris, name, wrap(getattr(f, '_verif_original', f)))
        getattr(iris, name)._verif_original = getattr(f, '_verif_original', f)

def prepare():
    import iris, numpy, netCDF4
    from eumopps.version.svn import set_allow_unversioned_code
    set_allow_unversioned_code(True)
    from eustace.postprocess import window_check, calendar_check, outlier_window_check, merge_flag_files, apply_mask, threshold_check, outlier_check, cell_percentile_threshold, cell_percentile_calculation

def execute(sc, rec, tmp):
    import iris, numpy
    from eustace.outputformats import definitions
    from eumopps.version.svn import set_allow_unversioned_code
    set_allow_unversioned_code(True)
    from eustace.postprocess import window_check, calendar_check, outlier_window_check, merge_flag_files, apply_mask, threshold_check, outlier_check, cell_percentile_threshold, cell_percentile_calculation, operation_count, flags
    rng = random.Random(sc['seed']); kind = sc['kind']; it = rng.choice([4, 9, 0])
    base = tmp + '/in'; out = tmp + '/out'
    def shape(n, m): definitions.GLOBAL_FIELD_SHAPE = (1, n, m)
    def flat(v): return [int(x) for x in numpy.asarray(v).ravel()]
    def attempt(f):
        try: return dict(k='flags', v=flat(f()))
        except Exception as e: return dict(k='refused')
    if kind in ('window', 'persist', 'calendar', 'merge'):
        ref = sc['ref']
        if 'model' in sc:
            cells = sc['model']['cells']; n, m = 2, (len(cells) + 1) // 2; ncell = n * m
            cells = cells + [cells[0]] * (ncell - len(cells))
            target = [0] if kind == 'window' else []
            keep = 0xffff & ~1 if kind == 'window' else 0xffff & ~(15 << 7)
            files = []
            for i, off in enumerate((-1, 0, 1)):
                if not sc['model']['present'][i]: continue
                v = []
                for w, (seen, bad) in zip(words(rng, ncell), cells):
                    w &= keep
                    if kind == 'window' and not seen[i]: w |= 1
                    if kind == 'persist' and bad[i]: w |= 1 << rng.choice([7, 8, 9, 10])
                    v.append(w if w != 65535 else w & ~(1 << 15))
                files.append(dict(d=ref + off, v=v))
        else:
            n, m = rng.choice([(2, 3), (3, 4), (4, 8)]); ncell = n * m
            target = rng.choice([[0], [0, 1, 2], [5], [0, 5]])
            if kind == 'calendar': target = rng.choice([[0, 1, 2], [0, 1, 2], [0]])
            span = sc.get('range', 1)
            if kind == 'calendar':
                t = day(ref); y0 = t.year - rng.randint(0, 3); y1 = t.year + rng.randint(0, 3)
                dates = []
                for y in range(y0 - 1, y1 + 2):
                    for mm, dd in {(t.month, t.day), (t.month, min(t.day, 28)), (2, 29), (3, 1), (t.month, max(1, t.day - 1))}:
                        try: dates.append(num(datetime(y, mm, dd)))
                        except ValueError: pass
                dates = sorted(set(dates))
            elif kind == 'merge': dates = [ref - 1, ref, ref + 1]
            else: dates = list(range(ref - span - 1, ref + span + 2))
            bits = set(target) | (set([7, 8, 9, 10]) if kind == 'persist' else set())
            p = sc.get('p', 0.8)
            hot = rng.choice([0.3, 0.5, 0.85])
            files = []
            for d in dates:
                if not (rng.random() < p or (d == ref and rng.random() < 0.95)): continue
                v = []
                for w in words(rng, ncell, set()):
                    for b in bits:
                        w = (w | (1 << b)) if rng.random() < hot else (w & ~(1 << b))
                    v.append(w if w != 65535 else 65534)
                files.append(dict(d=d, v=v))
        shape(n, m)
        for f in files: put_flags(base, it, f['d'], f['v'], n, m)
        word = numpy.uint16(sum(1 << b for b in target))
        if kind == 'window':
            rec('window', **{'in': dict(files=files, ref=ref, range=sc['range'], thr=sc['thr'], target=target), 'out': attempt(lambda: window_check.local_window_constraint_checks(base, out, it, day(ref), sc['range'], sc['thr'], word))})
        elif kind == 'persist':
            rec('persist', **{'in': dict(files=files, ref=ref, range=sc['range'], thr=sc['thr']), 'out': attempt(lambda: outlier_window_check.persistant_outlier_check(base, out, it, day(ref), sc['range'], sc['thr']))})
        elif kind == 'calendar':
            if rng.random() < 0.1: y0 = day(ref).year + 1; y1 = y0 + 1
            rec('calendar', **{'in': dict(files=files, ref=ref, y0=y0, y1=y1, target=target), 'out': attempt(lambda: calendar_check.calendar_constraint_checks(base, out, it, day(ref), y0, y1, word))})
        else:
            files2 = [dict(d=d, v=words(rng, ncell)) for d in dates if rng.random() < 0.85]
            for f in files2: put_flags(tmp + '/in2', it, f['d'], f['v'], n, m)
            rec('merge', **{'in': dict(files=files, files2=files2, ref=ref), 'out': attempt(lambda: merge_flag_files.merged_flags(base, tmp + '/in2', out, it, day(ref)))})
        for f in files:   # inputs are not changed
            t = day(f['d'])
            assert get_flags('%s/%04d/eustace_analysis_%d_qc_flags_%04d%02d%02d.nc' % (base, t.year, it, t.year, t.month, t.day)) == f['v'], 'input flag file changed'
    elif kind == 'mask':
        v = words(rng, 60)
        def combo():
            a = sum(1 << b for b in range(16) if rng.random() < rng.choice([0.05, 0.1, 0.2])); b = sum(1 << b for b in range(16) if rng.random() < rng.choice([0, 0.05, 0.2]))
            if rng.random() < 0.7: b &= ~a
            return [a, b]
        combos = [combo() for _ in range(rng.randint(1, 4))] if rng.random() < 0.7 else [[int(a), int(b)] for a, b in apply_mask.FLAGS_TO_MASK]
        r = apply_mask.compute_mask(numpy.array(v, numpy.uint16).reshape(6, 10), [[numpy.uint16(a), numpy.uint16(b)] for a, b in combos])
        rec('mask', **{'in': dict(v=v, combos=combos), 'out': dict(v=[bool(x) for x in numpy.asarray(r).ravel()])})
    elif kind in ('climatology', 'large_scale', 'influence', 'extremes'):
        n, m = rng.choice([(12, 20), (10, 13), (21, 12), (11, 10)]); shape(n, m); d = num(datetime(2003, 2, 28)); ncell = n * m
        thr = rng.randint(1, 6)
        def field():
            style = rng.random()
            if style < 0.3:   # sparse spikes near the threshold
                x = [thr] * ncell
                for _ in range(rng.randint(1, 6)): x[rng.randrange(ncell)] += rng.choice([-1, 1, 2])
                return x
            return [max(0, thr + rng.randint(-3, 3)) for _ in range(ncell)]
        good = field(); decoy = [field(), field()]
        if kind == 'extremes':
            lo, hi = 4 * rng.randint(190, 200), 4 * rng.randint(320, 335)
            good = [rng.choice([lo, hi, (lo + hi) // 2, (lo + hi) // 2, (lo + hi) // 2]) for _ in range(ncell)]
            for _ in range(rng.randint(0, 4)): good[rng.randrange(ncell)] = rng.choice([lo - 1, hi + 1, lo - 40, hi + 40])
            if rng.random() < 0.5:
                for k in (0, m - 1, ncell - m, ncell - 1): good[k] = rng.choice([lo, lo - 1, hi, hi + 1])
        q = lambda x: [v / 4.0 for v in x]
        sets = dict(climatology=1, large_scale=1, influence=2, extremes=0); k = sets[kind]
        arr = [q(decoy[0]), q(decoy[0]), q(decoy[1])]; arr[k] = q(good)
        comp = dict(climatology='climatology_component', large_scale='large_scale_component', influence='analysis', extremes='analysis')[kind]
        for c in ('climatology_component', 'large_scale_component', 'local_component', 'analysis'):
            a = arr if c == comp else [q(field()) for _ in range(3)]
            put_analysis(base, c, it, d, n, m, a[0], a[1], a[2], [(0, q(decoy[1]))] if c == 'analysis' else (), rng)
        t = day(d)
        if kind == 'climatology': o = attempt(lambda: threshold_check.climatology_uncertainty_checks(base, out, it, t, thr / 4.0))
        elif kind == 'large_scale': o = attempt(lambda: threshold_check.large_scale_uncertainty_checks(base, out, it, t, thr / 4.0))
        elif kind == 'influence': o = attempt(lambda: threshold_check.local_influence_checks(base, out, it, t, thr / 4.0))
        else: o = attempt(lambda: outlier_check.extremes_checks(base, out, it, t, lo / 4.0, hi / 4.0))
        rec(kind, **{'in': dict(x=good, n=n, m=m, thr=thr, **(dict(lo=lo, hi=hi) if kind == 'extremes' else {})), 'out': o})
    elif kind == 'areal':
        tall = sc['tall']; n, m, wi, wj = (40, 10, 5, 3) if tall else (20, 10, 3, 3)
        shape(n, m); d = num(datetime(2003, 5, 1)); x, alt = arealfield(rng, n, m)
        put_analysis(base, 'analysis', it, d, n, m, [v / 16.0 for v in x], [1] * (n * m), [1] * (n * m), (), rng)
        put(tmp + '/dem.nc', n, m, [('dem', 'f4', dict(long_name='x', flat=True), [1000 * a for a in alt])])
        redirect(iris, {'DEM_global': tmp + '/dem.nc'})
        o = attempt(lambda: outlier_check.areal_checks(base, out, it, day(d), 4.0))
        rec('areal', **{'in': dict(x=x, adjust=[72 * a for a in alt], n=n, m=m, wi=wi, wj=wj), 'out': o})
    elif kind == 'location':
        n, m = 3, 4; shape(n, m); d = num(rng.choice([datetime(2003, 5, 1), datetime(2004, 2, 29)])); ncell = n * m
        q2 = [1100 + rng.randint(-40, 40) for _ in range(ncell)]; q1 = [v - rng.randint(0, 6) for v in q2]; q3 = [v + rng.randint(0, 6) for v in q2]
        x = [rng.choice([b - 8 * (b - a), b - 8 * (b - a) - 1, b + 8 * (c - b), b + 8 * (c - b) + 1, b]) for a, b, c in zip(q1, q2, q3)]
        put_analysis(base, 'analysis', it, d, n, m, [v / 4.0 for v in x], [1] * ncell, [1] * ncell, (), rng)
        os.makedirs(tmp + '/pct'); t = day(d)
        f = lambda v: numpy.array(v, numpy.float64).reshape(n, m) / 4.0
        numpy.savez(tmp + '/pct/eustace_analysis_%d_percentiles_%02d%02d.npz' % (it, t.month, t.day), lower_quartile_block=f(q1), median_block=f(q2), upper_quartile_block=f(q3))
        rec('location', **{'in': dict(x=x, q1=q1, q2=q2, q3=q3), 'out': attempt(lambda: cell_percentile_threshold.location_threshold_checks(base, tmp + '/pct', out, it, t))})
    elif kind == 'marine':
        n, m = rng.choice([(4, 5), (3, 6)]); shape(n, m); coast = [rng.choice([0, 50, 94, 95, 96, 99, 100, 100]) for _ in range(n * m)]
        put(tmp + '/coast.nc', n, m, [('coastal_influence', 'f4', dict(long_name='x', flat=True), coast)])
        redirect(iris, {'coastal_influence': tmp + '/coast.nc'})
        rec('marine', **{'in': dict(coast=coast, n=n, m=m), 'out': attempt(threshold_check.get_marine_flag)})
        v = words(rng, n * m)
        rec('reset_marine', **{'in': dict(v=v, coast=coast, n=n, m=m), 'out': attempt(lambda: apply_mask.reset_marine_flag(numpy.array(v, numpy.uint16).reshape(1, n, m)))})
    elif kind == 'percentiles':
        n, m = 3, 4; shape(n, m); y0 = rng.choice([1999, 2003]); ny = rng.randint(2, 6); years = []
        t0 = datetime(2000, 1, 1) + timedelta(days=sc['cal'])
        for y in range(y0 - 1, y0 + ny + 1):
            try: t = t0.replace(year=y)
            except ValueError: t = datetime(y, 2, 28)
            x = [1100 + rng.randint(-60, 60) for _ in range(n * m)]
            put_analysis(base, 'analysis', it, num(t), n, m, [v / 4.0 for v in x], [1] * (n * m), [1] * (n * m), (), rng)
            if y0 <= y < y0 + ny: years.append(x)
        cell_percentile_calculation.cell_percentile_calculation(base, out, it, y0, y0 + ny - 1, sc['cal'])
        z = numpy.load(out + '/eustace_analysis_%d_percentiles_%02d%02d.npz' % (it, t0.month, t0.day))
        f = lambda k: [int(round(float(v) * 16)) for v in z[k].ravel()]
        rec('percentiles', **{'in': dict(years=years), 'out': dict(q1=f('lower_quartile_block'), q2=f('median_block'), q3=f('upper_quartile_block'))})
    elif kind == 'apply':
        it = rng.choice([4, 9]); t = rng.choice([datetime(2012, 12, 31), datetime(2013, 1, 1), datetime(1999, 2, 28), datetime(2015, 3, 1)])
        apply_one(sc, rec, tmp, rng, it, t, iris, apply_mask, shape, rng.random() < 0.5)
    elif kind == 'batch':
        batch(sc, rec, tmp, rng, iris, shape)
    elif kind == 'dates':
        for _ in range(4):
            t = datetime(rng.choice([1880, 1899, 1999, 2000, 2003]), rng.randint(1, 12), 1); k = rng.randint(0, 40)
            rec('dates', **{'in': dict(ref=num(t), index=k), 'out': dict(days=[num(x) for x in operation_count.operation_dates(t, k)])})
            y = rng.randint(1850, 2015); z = y + rng.randint(0, 9)
            rec('count', **{'in': dict(y0=y, y1=z), 'out': dict(n=operation_count.operation_count(y, z))})

def arealfield(rng, n, m):
    x = [16 * 280 + 4 * rng.randint(-8, 8) for _ in range(n * m)]
    for _ in range(rng.randint(0, 5)): x[rng.randrange(n * m)] += rng.choice([-1, 1]) * 4 * rng.randint(20, 60)
    if rng.random() < 0.5: x[rng.choice([0, m - 1, n * m - 1, n * m - m])] -= 400
    alt = [rng.choice([0, 0, 0, 1, 2]) if rng.random() < 0.3 else 0 for _ in range(n * m)]
    return x, alt

def products(rng, base, it, d, n, m, ens):
    """random analysis and component files; returns the fields in product order, in thousandths"""
    ncell = n * m; fields = []
    for c in ('analysis', 'climatology_component', 'large_scale_component', 'local_component'):
        tas = [(273150 + 5 * rng.randint(-4000, 4000)) if c in ('analysis', 'climatology_component') else 5 * rng.randint(-1500, 1500) for _ in range(ncell)]
        unc = [5 * rng.randint(0, 400) for _ in range(ncell)]; inf = [5 * rng.randint(0, 200) for _ in range(ncell)]
        e = [(k, [273150 + 5 * rng.randint(-4000, 4000) for _ in range(ncell)]) for k in (range(ens) if c == 'analysis' else ())]
        put_analysis(base, c, it, d, n, m, [v / 1000.0 for v in tas], [v / 1000.0 for v in unc], [v / 1000.0 for v in inf], [(k, [v / 1000.0 for v in x]) for k, x in e], rng)
        fields += [tas, unc, inf] + [x for k, x in e]
    return fields

def results(out, it, t, ens):
    from netCDF4 import Dataset
    import numpy
    ds = '%04d%02d%02d' % (t.year, t.month, t.day)
    v = {4: 'R001400/20190326', 9: 'R001413/20190405'}[it]
    paths = ['%s/%s/global/%04d/tas_global_eustace_0_%s.nc' % (out, v, t.year, ds)] + ['%s/eustace_%s_component_%d/%04d/eustace_%s_component_%d_masked_%s.nc' % (out, c, it, t.year, c, it, ds) for c in ('climatology', 'large_scale', 'local')]
    fields = []
    for i, p in enumerate(paths):
        nc = Dataset(p)
        names = [k for k in nc.variables if nc.variables[k].ndim == 3]
        main = [k for k in names if k in ('tas', 'tasperturbation', 'tas_perturbation')] or [k for k in names if 'uncertainty' not in k and 'influence' not in k and 'ensemble' not in k]
        order = main[:1] + [k for k in names if 'uncertainty' in k] + [k for k in names if 'influence' in k] + sorted([k for k in names if 'ensemble' in k], key=lambda k: int(k.split('_')[-1]))
        for k in order:
            a = numpy.ma.asarray(nc.variables[k][:]).ravel(); mk = numpy.ma.getmaskarray(a)
            fields.append([-999999 if q else int(round(float(x) * 1000)) for x, q in zip(a.data, mk)])
        nc.close()
    return fields

def apply_one(sc, rec, tmp, rng, it, t, iris, apply_mask, shape, given):
    import numpy
    n, m = rng.choice([(3, 4), (4, 5)]); shape(n, m); d = num(t); ens = rng.choice([0, 1, 3, 11]); ncell = n * m
    fields = products(rng, tmp + '/in', it, d, n, m, ens)
    coast = [rng.choice([0, 50, 95, 96, 100]) for _ in range(ncell)]
    put(tmp + '/coast.nc', n, m, [('coastal_influence', 'f4', dict(long_name='x', flat=True), coast)])
    redirect(iris, {'coastal_influence': tmp + '/coast.nc'})
    def sparse(): return [sum(1 << b for b in range(16) if rng.random() < 0.08) | (rng.choice([0, 1 << 15]) if rng.random() < 0.3 else 0) for _ in range(ncell)]
    f1 = sparse(); f2 = sparse(); two = rng.random() < 0.5
    put_flags(tmp + '/f1', it, d, f1, n, m); put_flags(tmp + '/f2', it, d, f2, n, m)
    if given:
        combos = [[1 << rng.randrange(16), 0], [1 << rng.randrange(16), 1 << rng.randrange(16)]]
    else: combos = [[int(a), int(b)] for a, b in apply_mask.FLAGS_TO_MASK]
    apply_mask.apply_mask(tmp + '/in', it, tmp + '/f1', tmp + '/f2' if two else None, [[numpy.uint16(a), numpy.uint16(b)] for a, b in combos], t, tmp + '/out')
    rec('apply', **{'in': dict(flags=f1, flags2=f2, two=two, coast=coast, n=n, m=m, year=t.year, combos=combos, fields=fields), 'out': dict(fields=results(tmp + '/out', it, t, ens))})

def batch(sc, rec, tmp, rng, iris, shape):
    from eustace.postprocess import window_check, calendar_check, outlier_window_check, merge_flag_files, apply_mask, threshold_check, outlier_check
    import numpy
    which = sc['which']; it = 9; n, m = 2, 3; base = tmp + '/in'; out = tmp + '/out'
    ref, index = rng.choice([(datetime(2000, 12, 1), 2), (datetime(1999, 1, 1), 13), (datetime(2011, 2, 1), 0)])
    y, mo = ref.year + (ref.month - 1 + index) // 12, (ref.month - 1 + index) % 12 + 1
    first = datetime(y, mo, 1); length = ((datetime(y + mo // 12, mo % 12 + 1, 1)) - first).days
    days = [num(first) + i for i in range(length)]; rs = ref.strftime('%Y-%m-%d')
    def read():
        r = []
        for root, _, names in os.walk(out):
            for nm in names:
                s = nm.split('_')[-1][:8]; t = datetime(int(s[:4]), int(s[4:6]), int(s[6:]))
                assert nm.startswith('eustace_analysis_%d_qc_flags_' % it) and os.path.basename(root) == '%04d' % t.year, nm
                r.append(dict(d=num(t), v=get_flags(os.path.join(root, nm))))
        return sorted(r, key=lambda x: x['d'])
    def mk(dirname, ds, p=1.0, density=0.5):
        fs = []
        for d in ds:
            if d in days or rng.random() < p: fs.append(dict(d=d, v=[sum(1 << b for b in range(15) if rng.random() < density) for _ in range(n * m)]))
        for f in fs: put_flags(dirname, it, f['d'], f['v'], n, m)
        return fs
    shape(n, m)
    if which in ('window', 'persist'):
        rg, thr = rng.choice([(1, 1), (2, 2)])
        files = mk(base, range(days[0] - rg - 1, days[-1] + rg + 2), 0.6, 0.4)
        if which == 'window':
            window_check.flagging_operation(rs, index, base, it, out, rg, thr, numpy.uint16(1))
            rec('batch_window', **{'in': dict(ref=num(ref), index=index, files=files, range=rg, thr=thr, target=[0]), 'out': dict(files=read())})
        else:
            outlier_window_check.flagging_operation(rs, index, base, it, out, rg, thr)
            rec('batch_persist', **{'in': dict(ref=num(ref), index=index, files=files, range=rg, thr=thr), 'out': dict(files=read())})
    elif which == 'calendar':
        y0, y1 = y - 1, y + 1; ds = set(days)
        for d in days:
            for yy in (y - 2, y - 1, y + 1, y + 2):
                t = day(d)
                try: ds.add(num(t.replace(year=yy)))
                except ValueError: pass
        files = mk(base, sorted(ds), 0.7, 0.8)
        calendar_check.flagging_operation(rs, index, base, it, out, y0, y1)
        rec('batch_calendar', **{'in': dict(ref=num(ref), index=index, files=files, y0=y0, y1=y1), 'out': dict(files=read())})
    elif which == 'merge':
        files = mk(base, days); files2 = mk(tmp + '/in2', days)
        merge_flag_files.merging_operation(rs, index, it, base, tmp + '/in2', out)
        rec('batch_merge', **{'in': dict(ref=num(ref), index=index, files=files, files2=files2), 'out': dict(files=read())})
    elif which == 'threshold':
        n, m = 10, 11; shape(n, m); thr = [2, 3, 2]; allf = [[], [], []]
        for d in days:
            fs = [[max(0, thr[k] + rng.choice([-1, 0, 0, 1])) for _ in range(n * m)] for k in range(3)]
            for k in range(3): allf[k].append(fs[k])
            q = lambda x: [v / 4.0 for v in x]; o = [1.0] * (n * m)
            put_analysis(base, 'climatology_component', it, d, n, m, o, q(fs[0]), o); put_analysis(base, 'large_scale_component', it, d, n, m, o, q(fs[1]), o); put_analysis(base, 'analysis', it, d, n, m, o, o, q(fs[2]))
        coast = [rng.choice([0, 99, 100]) for _ in range(n * m)]
        put(tmp + '/coast.nc', n, m, [('coastal_influence', 'f4', dict(long_name='x', flat=True), coast)])
        redirect(iris, {'coastal_influence': tmp + '/coast.nc'})
        threshold_check.flagging_operation(rs, index, base, it, out, thr[0] / 4.0, thr[1] / 4.0, thr[2] / 4.0)
        r = read(); sel = sorted(rng.sample(range(len(r)), 4))
        rec('batch_threshold', **{'in': dict(ref=num(ref), index=index, n=n, m=m, clim=allf[0], large=allf[1], infl=allf[2], climthr=thr[0], largethr=thr[1], inflthr=thr[2], coast=coast), 'out': dict(n=len(r), files=[dict(i=k + 1, **r[k]) for k in sel])})
    elif which == 'outlier':
        n, m, wi, wj = 20, 10, 3, 3; shape(n, m); tas = []
        _, alt = arealfield(rng, n, m)
        put(tmp + '/dem.nc', n, m, [('dem', 'f4', dict(long_name='x', flat=True), [1000 * a for a in alt])])
        redirect(iris, {'DEM_global': tmp + '/dem.nc'})
        for d in days:
            x, _ = arealfield(rng, n, m)
            for _ in range(2): x[rng.randrange(n * m)] = 16 * rng.choice([193, 194, 333, 334])
            tas.append(x); put_analysis(base, 'analysis', it, d, n, m, [v / 16.0 for v in x], [1] * (n * m), [1] * (n * m))
        outlier_check.flagging_operation(rs, index, base, it, out)
        r = read(); sel = sorted(rng.sample(range(len(r)), 3))
        rec('batch_outlier', **{'in': dict(ref=num(ref), index=index, n=n, m=m, wi=wi, wj=wj, tas=tas, adjust=[72 * a for a in alt], lo=16 * 193 + 3, hi=16 * 333 + 2), 'out': dict(n=len(r), files=[dict(i=k + 1, **r[k]) for k in sel])})
    elif which == 'apply':
        ref, index = rng.choice([(datetime(2012, 12, 1), 0), (datetime(2012, 12, 1), 2)])
        y, mo = ref.year + (ref.month - 1 + index) // 12, (ref.month - 1 + index) % 12 + 1
        first = datetime(y, mo, 1); length = ((datetime(y + mo // 12, mo % 12 + 1, 1)) - first).days
        coast = [rng.choice([0, 50, 95, 96, 100]) for _ in range(n * m)]
        put(tmp + '/coast.nc', n, m, [('coastal_influence', 'f4', dict(long_name='x', flat=True), coast)])
        redirect(iris, {'coastal_influence': tmp + '/coast.nc'})
        keep = {}
        for i in range(length):
            d = num(first) + i
            f1 = [sum(1 << b for b in range(16) if rng.random() < 0.08) for _ in range(n * m)]; f2 = [sum(1 << b for b in range(16) if rng.random() < 0.08) for _ in range(n * m)]
            put_flags(tmp + '/f1', it, d, f1, n, m); put_flags(tmp + '/f2', it, d, f2, n, m)
            keep[d] = (f1, f2, products(rng, base, it, d, n, m, 1))
        apply_mask.masking_operation(ref.strftime('%Y-%m-%d'), index, base, it, tmp + '/f1', tmp + '/f2', out)
        for d, (f1, f2, fields) in sorted(keep.items()):
            rec('apply', **{'in': dict(flags=f1, flags2=f2, two=True, coast=coast, n=n, m=m, year=y, combos=[], fields=fields), 'out': dict(fields=results(out, it, day(d), 1))})

def vacuity(traces):
    c = dict(events={}, refused=0)
    kinds = {}
    bits = set(); masked = 0
    for t in traces:
        for e in t['events']:
            kinds[e['a']] = kinds.get(e['a'], 0) + 1
            if isinstance(e.get('out'), dict) and e['out'].get('k') == 'refused': c['refused'] += 1
            if e['a'] == 'apply': masked += sum(x == -999999 for f in e['out']['fields'] for x in f)
    want = ['window', 'persist', 'calendar', 'merge', 'mask', 'climatology', 'large_scale', 'influence', 'extremes', 'areal', 'location', 'marine', 'reset_marine', 'percentiles', 'apply', 'batch_threshold', 'batch_outlier', 'batch_persist', 'dates']
    r = {'events_' + k: kinds.get(k, 0) for k in want}
    r['refusals'] = c['refused']; r['masked_cells'] = masked
    return r
