"""C12: gridding of satellite observations."""
import json, os, math
MODELS = [dict(module='MC_SatGrid.tla', cfg='MC_SatGrid.cfg', tier='quick', workers=3), dict(module='MC_SatGrid.tla', cfg='MC_SatGridT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C12'
BUILD = dict(ext=['aggregate', 'sumcountmaxmin', 'count', 'sumsq', 'sumsqdev'])
TIMEOUT = 120
NEG = 150
ASSUMPTIONS = ['values are multiples of 1/8 K and uncertainties of 1/16 K, compared as fixed point numbers (1/100 of these)', 'positions are multiples of 1/16 degree, or keep away from cell edges when the grid is not in such units',
               'sampling uncertainty is compared where all valid observations are among the total', 'grid boxes hold up to about a dozen observations']
NAMES = ['LST', 'QC', 'lat', 'lon', 'LST_unc_ran', 'LST_unc_loc_atm', 'LST_unc_loc_sfc']
FATES = ['missing', 'corrupt', 'empty', 'novar', 'badchunk', 'folder']
QCS = [dict(mobs=1, fobs=0, mvalid=7, fvalid=0), dict(mobs=1, fobs=1, mvalid=3, fvalid=3), dict(mobs=0, fobs=0, mvalid=1, fvalid=0)]

# ---------------------------------------------------------------- generator
def axis(rng, lat, tenth):
    inc = rng.choice([4, 8, 16, 12]) if not tenth else rng.choice([4, 6, 10])
    n = rng.choice([1, 2, 2, 3, 4, 5])
    start = rng.choice([0, -inc * n // 2, -inc * n, rng.randint(-40, 40), -5 * inc])
    return dict(start=start, inc=inc, n=n, wrap=rng.random() < 0.5)

def position(rng, a, tenth, wild):
    k = rng.randrange(a['n'])
    if rng.random() < wild: k = rng.choice([-1, -1, a['n'], a['n'], a['n'] + 1, -2, -a['n']])
    off = rng.choice([0, 1, a['inc'] - 1, a['inc'] // 2, rng.randrange(a['inc'])])
    if tenth: off = min(max(off, 1), a['inc'] - 1)
    return a['start'] + k * a['inc'] + off

def pixel(rng, g, q, tenth, wild, spread):
    good = rng.random()
    if good < 0.6: qc = (q['fvalid'] | (rng.randint(0, 15) & ~q['mvalid'])) & 15
    elif good < 0.8: qc = (q['fobs'] | (rng.randint(0, 15) & ~q['mobs'])) & 15
    else: qc = rng.randint(0, 15)
    miss = rng.sample(NAMES, rng.choice([1, 1, 2])) if rng.random() < 0.12 else []
    return dict(v=rng.choice([0, spread, -spread, rng.randint(-spread, spread), rng.randint(-spread, spread)]), qc=qc, lat=position(rng, g['lat'], tenth, wild), lon=position(rng, g['lon'], tenth, wild),
                ran=rng.randint(0, 20), atm=rng.randint(0, 20), sfc=rng.randint(0, 20), miss=miss)

def fate(rng, p): return rng.choice(FATES) if rng.random() < p else 'ok'

def scenario(rng, via):
    tenth = rng.random() < 0.3
    g = dict(lat=axis(rng, True, tenth), lon=axis(rng, False, tenth))
    if via in ('command', 'iris'): g['lat']['wrap'] = g['lon']['wrap']
    q = dict(rng.choice(QCS))
    if rng.random() < 0.3: m = rng.randint(0, 15); w = rng.randint(0, 15); q = dict(mobs=m, fobs=rng.randint(0, 15) & m, mvalid=w, fvalid=rng.randint(0, 15) & w)
    wild = rng.choice([0, 0, 0, 0, 0.03, 0.1]); spread = rng.choice([0, 1, 10, 60, 200]); bad = rng.choice([0, 0, 0.15, 0.4])
    files = [dict(lst=fate(rng, bad), aux=fate(rng, bad), sys=rng.randint(0, 20), pixels=[pixel(rng, g, q, tenth, wild, spread) for _ in range(rng.choice([0, 1, 2, 3, 6, 8]))]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    sc = dict(via=via, grid=g, q=q, files=files, tenth=tenth, base=2000 if via == 'command' or rng.random() < 0.6 else 0 if via == 'array' else 400, types=types(rng), max=rng.choice([2, 5, 30]))
    if via == 'iris':
        if rng.random() < 0.25: sc['base'] = -4000
        if rng.random() < 0.3:
            f = rng.choice(files)
            for n in ('lat', 'lon'): f['pixels'].insert(rng.randint(0, len(f['pixels'])), dict(pixel(rng, g, q, tenth, 0, spread), qc=q['fvalid'], miss=[n]))
        for f in files:
            if not f['pixels']: f['pixels'] = [pixel(rng, g, q, tenth, 0, spread)]
        sc['types'] = dict(value='f4', unc='f4', pos='f4', qc=rng.choice(['i4', 'i2']), two=True, zlib=False); sc['attr'] = rng.random() < 0.5; sc['errval'] = rng.random() < 0.5
        for a in (g['lat'], g['lon']): a['n'] = max(2, a['n'])
    if via == 'command':
        k = len(files); sc['day'] = rng.random() < 0.6 or k > 1; slots = rng.sample(range(288), k) if sc['day'] else [rng.choice([0, 1, 287, 77])]
        if rng.random() < 0.5 and sc['day']: slots[0] = rng.choice([0, 287])
        sc['slots'] = sorted(set(slots)); sc['files'] = files[:len(sc['slots'])]; sc['date'] = rng.choice(['20120229', '20111231', '20120101', '20030815'])
        sc['others'] = rng.random() < 0.5
    else: sc['orders'] = rng.choice([1, 2, 3]) if via != 'iris' else 1
    sc['seed'] = rng.randint(0, 10 ** 9)
    return sc

def types(rng): return dict(value=rng.choice(['f4', 'f4', 'f8', 'i2']), unc=rng.choice(['f4', 'f4', 'f8', 'i2']), pos=rng.choice(['f4', 'f4', 'f8']), qc=rng.choice(['i4', 'i2', 'u1']), two=rng.random() < 0.5, zlib=rng.random() < 0.3)

def scenarios(rng, tier, model):
    big = tier != 'quick'; k = 12 if big else 1
    ms = sorted({json.dumps(s, sort_keys=True) for s in model}); rng.shuffle(ms)
    for s in ms[:150 * k]:
        s = json.loads(s); fs = s['files']
        for f in fs:
            for p in f['pixels']: p['lat'] *= 4; p['lon'] *= 4; p['miss'] = list(p['miss'])
        g = dict(lat=dict(start=0, inc=8, n=1, wrap=False), lon=dict(start=-8, inc=8, n=2, wrap=s['wrap']))
        yield dict(via='run', grid=g, q=dict(mobs=1, fobs=0, mvalid=3, fvalid=0), files=fs, tenth=False, base=2000, types=types(rng), max=9, orders=2, seed=rng.randint(0, 10 ** 9))
    for i in range(300 * k): yield scenario(rng, 'run')
    for i in range(120 * k): yield scenario(rng, 'array')
    for i in range(120 * k): yield scenario(rng, 'command')
    for i in range(120 * k): yield scenario(rng, 'iris')

# ---------------------------------------------------------------- files
def write(path, kind, state, f, sc, rng):
    """one of the two components of a file, in the given state"""
    from netCDF4 import Dataset
    import numpy as np
    if state == 'missing': return
    if state == 'folder': os.mkdir(path); return
    if state == 'empty': open(path, 'w').close(); return
    if state == 'corrupt': open(path, 'wb').write(bytes(bytearray(rng.randrange(256) for _ in range(300)))); return
    px = f['pixels']; n = len(px); t = sc['types']; step = 10.0 if sc['tenth'] else 16.0
    two = t['two'] and n and n % 2 == 0
    nc = Dataset(path, 'w', 'NETCDF4')
    rows = 2 if two else 1
    if two: nc.createDimension('nj', 2); nc.createDimension('ni', n // 2); dims = ('nj', 'ni')
    elif sc['via'] == 'iris': nc.createDimension('nj', 1); nc.createDimension('ni', n); dims = ('nj', 'ni')
    else: nc.createDimension('ni', n); dims = ('ni',)
    nc.createDimension('ns', 1)
    names = ['LST', 'QC', 'lat', 'lon'] if kind == 'lst' else ['LST_unc_ran', 'LST_unc_loc_atm', 'LST_unc_loc_sfc', 'LST_unc_sys']
    skip = rng.choice(names) if state == 'novar' else None
    damage = rng.choice([x for x in names if x != 'LST_unc_sys']) if state == 'badchunk' and n > 1 else None
    raw = None
    if state == 'badchunk' and n < 2: skip = rng.choice(names)
    for name in names:
        if name == skip: continue
        if name == 'LST_unc_sys':
            v = nc.createVariable(name, 'f4', ('ns',)); v[:] = np.float32(f['sys'] / 16.0); continue
        unit = {'LST': 8.0, 'lat': step, 'lon': step, 'QC': 1}.get(name, 16.0)
        ints = np.array([{'LST': sc['base'] + p['v'], 'QC': p['qc'], 'lat': p['lat'], 'lon': p['lon'], 'LST_unc_ran': p['ran'], 'LST_unc_loc_atm': p['atm'], 'LST_unc_loc_sfc': p['sfc']}[name] for p in px], np.int64)
        ty = t['qc'] if name == 'QC' else t['pos'] if name in ('lat', 'lon') else t['value'] if name == 'LST' else t['unc']
        fill = {'i2': -32000, 'i4': -9999, 'u1': 255, 'f4': np.float32(-9999.0), 'f8': -9999.0}[ty]
        v = nc.createVariable({'lat': 'latitude', 'lon': 'longitude'}.get(name, name) if sc['via'] == 'iris' else name, ty, dims, fill_value=fill, zlib=t['zlib'] and name != damage, fletcher32=name == damage)
        v.set_auto_maskandscale(False)
        if sc.get('attr') and name == 'LST': v.coordinates = 'latitude longitude'
        if ty == 'i2' and name != 'QC': v.scale_factor = 1.0 / unit; v.add_offset = 0.0; data = ints.astype('i2')
        elif name == 'QC': data = ints.astype(ty)
        else: data = (ints / unit).astype(ty)
        for i, p in enumerate(px):
            if name in p['miss']: data[i] = -32768.0 if sc.get('errval') and name in ('lat', 'lon') else fill
        if n: v[:] = data.reshape((rows, n // rows)) if len(dims) == 2 else data
        if name == damage: raw = data.tobytes()
    nc.close()
    if raw:
        b = bytearray(open(path, 'rb').read()); at = bytes(b).find(raw)
        while at >= 0: b[at + 1] ^= 0x55; at = bytes(b).find(raw)
        open(path, 'wb').write(bytes(b))

def fates(f):
    """as the specification sees them"""
    m = lambda s: 'missing' if s in ('missing', 'folder') else 'ok' if s == 'ok' else 'error'
    return dict(f, lst=m(f['lst']), aux=m(f['aux']))

INVALID = -1.0
def cells(fields, sc, full):
    """what is in every grid box that is not plainly empty"""
    import numpy as np
    ma = np.ma
    get = lambda n: ma.masked_equal(ma.masked_array(fields[n]), INVALID)
    names = ['tsmean', 'tsmin', 'tsmax', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys']
    f = {n: get(n) for n in names}; count = np.asarray(fields['ts_number_of_observations']); total = np.asarray(fields['total_number_of_observations']) if full else count
    if full: f['tsvariance'] = get('tsvariance'); f['tsmean_unc_spl'] = get('tsmean_unc_spl')
    r = []
    base = sc['base'] / 8.0
    num = lambda x, k: int(max(-10 ** 9, min(10 ** 9, round(float(x) * k)))) if math.isfinite(float(x)) else 10 ** 9
    for k in range(count.size):
        has = [not ma.getmaskarray(f[n]).flat[k] for n in names]
        hv = [not ma.getmaskarray(f[n]).flat[k] for n in ('tsvariance', 'tsmean_unc_spl')] if full else [False, False]
        if not any(has) and not any(hv) and count.flat[k] == 0 and total.flat[k] == 0: continue
        if len(set(has)) > 1: r.append(dict(cell=k, count=-1)); continue
        d = dict(cell=k, count=int(count.flat[k]), total=int(total.flat[k]), has=has[0], hasvar=hv[0], hasspl=hv[1])
        if has[0]:
            v = {n: f[n].flat[k] for n in f}
            d.update(mean=num(v['tsmean'] - base, 800), min=num(v['tsmin'] - base, 800), max=num(v['tsmax'] - base, 800), ran=num(v[names[3]], 1600), atm=num(v[names[4]], 1600), sfc=num(v[names[5]], 1600), sys=num(v[names[6]], 1600))
            if hv[0]: d.update(var=num(v['tsvariance'], 640))
            if hv[1]: d.update(spl=num(v['tsmean_unc_spl'], 800))
        r.append(d)
    return r

def centres(v, sc): return [int(round(float(x) * (20 if sc['tenth'] else 32))) for x in v]

def execute(sc, rec, tmp):
    import random, numpy as np
    from eustace.satgrid.grid import GridAxis, GridLatLon
    rng = random.Random(sc['seed']); u = 10.0 if sc['tenth'] else 16.0
    ax = lambda a: GridAxis(a['start'] / u, a['inc'] / u, a['n'], a['wrap'])
    g = sc['grid']; q = sc['q']
    if sc['via'] in ('run', 'iris'):
        iris = sc['via'] == 'iris'
        from eustace.satgrid.satellite_file import SatelliteFilename
        from eustace.satgrid.file_aggregate_grid import SatelliteFileAggregator
        fs = [dict(f, pixels=list(f['pixels'])) for f in sc['files']]
        for turn in range(sc['orders']):
            if turn:
                rng.shuffle(fs)
                for f in fs: rng.shuffle(f['pixels'])
            names = []
            for i, f in enumerate(fs):
                p = [os.path.join(tmp, '%d_%d_%s.nc' % (turn, i, k)) for k in ('lst', 'aux')]
                write(p[0], 'lst', f['lst'], f, sc, rng); write(p[1], 'aux', f['aux'], f, sc, rng); names.append(SatelliteFilename(*p))
            if iris:
                out = dict(refused=False, status=[], none=True, cells=[], lats=[], lons=[])
                from eustace.satgrid_iris.pipeline import GridBinPipelineSatellite
                from eustace.satgrid_iris.satellite import SatelliteFilenames
                from eustace.satgrid_iris.modis import SatelliteFieldNamesMODIS
                class Args(object): pass
                a = Args(); a.__dict__.update(x0=g['lon']['start'] / u, xs=g['lon']['inc'] / u, xn=g['lon']['n'], y0=g['lat']['start'] / u, ys=g['lat']['inc'] / u, yn=g['lat']['n'], wrapcoords=g['lon']['wrap'],
                    qc_mask_obs=q['mobs'], qc_filter_obs=q['fobs'], qc_mask_valid=q['mvalid'], qc_filter_valid=q['fvalid'])
                pipe = GridBinPipelineSatellite.from_command_arguments(a)
                inputs = Args(); inputs.filenames = [SatelliteFilenames([n.filename_lst, n.filename_aux]) for n in names]
                try: r = pipe.run(SatelliteFieldNamesMODIS(), inputs)
                except ValueError as e:
                    if 'out of range' not in str(e): raise
                    out['refused'] = True; r = None
                if r:
                    assert [list(x.filename) for x in r.load] == [[n.filename_lst, n.filename_aux] for n in names]
                    out.update(status=[x.status for x in r.load], none=len(pipe.bins) == 0)
                    if pipe.bins:
                        f = {c.var_name: c.data for c in pipe.bins}
                        assert len(f) == len(pipe.bins)
                        out.update(cells=cells(f, sc, True), lats=centres(pipe.bins[0].coord('latitude').points, sc), lons=centres(pipe.bins[0].coord('longitude').points, sc))
                rec('run', **{'in': dict(grid=g, q=q, files=[fates(f) for f in fs], full=True, max=0, tol=2), 'out': out})
                continue
            ag = SatelliteFileAggregator(ax(g['lat']), ax(g['lon']), 'LST', q['mobs'], q['fobs'], q['mvalid'], q['fvalid'], 512)
            out = dict(refused=False, status=[], none=True, cells=[], lats=[], lons=[])
            try: r = ag.run(names)
            except ValueError: out['refused'] = True; r = None
            if r:
                out.update(status=[x.status for x in r.load], none=r.fields is None)
                assert [x.filename for x in r.load] == names
                if r.fields: out.update(cells=cells(r.fields, sc, True), lats=centres(r.fields['latitude'], sc), lons=centres(r.fields['longitude'], sc))
            rec('run', **{'in': dict(grid=g, q=q, files=[fates(f) for f in fs], full=True, max=0, tol=2), 'out': out})
    elif sc['via'] == 'command':
        from eustace.satgrid import command
        from netCDF4 import Dataset
        from datetime import datetime, timedelta
        day = datetime.strptime(sc['date'], '%Y%m%d'); T = [day + timedelta(minutes=5 * s) for s in sc['slots']]
        pat = {k: '%Y/%m/' + k + '_%Y%m%d_%H%M.nc' for k in ('lst', 'aux')}
        def put(t, f):
            for k in ('lst', 'aux'):
                p = os.path.join(tmp, t.strftime(pat[k])); os.makedirs(os.path.dirname(p), exist_ok=True); write(p, k, f[k], f, sc, rng)
        for t, f in zip(T, sc['files']): put(t, f)
        if sc['others']:
            ghost = dict(lst='ok', aux='ok', sys=1, pixels=[dict(v=0, qc=q['fvalid'], lat=g['lat']['start'] + 1, lon=g['lon']['start'] + 1, ran=1, atm=1, sfc=1, miss=[])])
            for t in (day + timedelta(days=1), day - timedelta(minutes=5), day + timedelta(minutes=3)): put(t, ghost)
        class Args(object): pass
        a = Args(); a.__dict__.update(x0=g['lon']['start'] / u, xs=g['lon']['inc'] / u, xn=g['lon']['n'], y0=g['lat']['start'] / u, ys=g['lat']['inc'] / u, yn=g['lat']['n'], wrapcoords=g['lon']['wrap'], qc_mask_obs=q['mobs'], qc_filter_obs=q['fobs'],
            qc_mask_valid=q['mvalid'], qc_filter_valid=q['fvalid'], obsname='LST', maxbinobs=512, source='', o=os.path.join(tmp, 'out.nc'), pattern_lst=pat['lst'], pattern_aux=pat['aux'], date=sc['date'] if sc['day'] else T[0].strftime('%Y%m%d%H%M'), path=tmp, complevel=4)
        out = dict(refused=False, status=[], none=True, cells=[], lats=[], lons=[])
        try: r = command.run(a)
        except ValueError: out['refused'] = True; r = None
        if r:
            st = {x.filename.filename_lst: x.status for x in r.load}
            want = {os.path.join(tmp, t.strftime(pat['lst'])): i for i, t in enumerate(T)}
            assert len(r.load) == (288 if sc['day'] else 1) and len(st) == len(r.load) and all(s == 'missing' for p, s in st.items() if p not in want)
            assert os.path.exists(a.o) == (r.output_status == 'ok')
            out.update(status=[st[p] for p in want], none=r.output_status == 'no_data')
            if not out['none']:
                nc = Dataset(a.o); f = {n: nc.variables[n][:] for n in nc.variables}; nc.close()
                out.update(cells=cells(f, sc, True), lats=centres(f['latitude'], sc), lons=centres(f['longitude'], sc))
        rec('run', **{'in': dict(grid=g, q=q, files=[fates(f) for f in sc['files']], full=True, max=0, tol=6), 'out': out})
    else:
        from eustace.satgrid import aggregate_grid as A
        grid = GridLatLon(ax(g['lat']), ax(g['lon'])); dims = grid.dimensions
        fs = [dict(f, lst='ok', aux='ok', pixels=[dict(p, miss=[]) for p in f['pixels']]) for f in sc['files']]
        for kind in ('array', 'running', 'sum'):
            agg = {'array': lambda: A.AggregateGridArray(dims, sc['max']), 'running': lambda: A.AggregateGridCountSumMinMax(dims), 'sum': lambda: A.AggregateGridSum(dims)}[kind]()
            out = dict(refused=False, status=[], none=False, cells=[], lats=[], lons=[])
            ft = sc['types']['value'] if sc['types']['value'] != 'i2' else 'f4'
            try:
                for f in fs:
                    px = [p for p in f['pixels'] if (p['qc'] & q['mvalid']) == q['fvalid']]
                    arr = lambda k, unit, base=0: np.array([(base + p[k]) / unit for p in px], ft)
                    idx = grid.compute_indices(arr('lat', u), arr('lon', u))
                    if not px and kind != 'running': continue
                    if kind == 'sum': agg.aggregate_at_indices(idx, arr('v', 8.0, sc['base']))
                    else: agg.aggregate_at_indices(idx, arr('v', 8.0, sc['base']), arr('ran', 16.0), arr('atm', 16.0), arr('sfc', 16.0), f['sys'] / 16.0)
                if kind != 'sum': out['cells'] = cells(agg.compute_fields(INVALID), sc, False) if sc['base'] else bare(agg, sc)
                else:
                    m = agg.get_mean(np.float32(-12345))
                    out['cells'] = [dict(cell=k, count=int(agg.count.flat[k]), mean=int(round((float(m.flat[k]) - sc['base'] / 8.0) * 800))) for k in range(m.size) if agg.count.flat[k] or m.flat[k] != -12345]
            except ValueError: out['refused'] = True
            rec('mean' if kind == 'sum' else 'run', **{'in': dict(grid=g, q=q, files=fs, full=False, max=sc['max'] if kind == 'array' else 10 ** 6, tol=2), 'out': out})

def bare(agg, sc):
    """values around zero: another invalid flag"""
    global INVALID
    INVALID = -12345.0
    try: return cells(agg.compute_fields(INVALID), sc, False)
    finally: INVALID = -1.0

def mutate(s, rng):
    t = json.loads(json.dumps(s)); ev = [e for e in t['events'] if 'out' in e and not e['out']['refused']]
    rng.shuffle(ev)
    for e in ev:
        o = e['out']
        if e['in']['full'] and o['status'] and rng.random() < 0.2:
            i = rng.randrange(len(o['status'])); o['status'][i] = 'ok' if o['status'][i] != 'ok' else 'error'; return t
        if not o['cells']: continue
        if rng.random() < 0.15: o['cells'].pop(rng.randrange(len(o['cells']))); return t
        c = rng.choice(o['cells']); k = rng.choice([k for k in ('count', 'total', 'mean', 'min', 'max', 'ran', 'atm', 'sfc', 'sys', 'var', 'cell') if k in c and (k != 'total' or e['in']['full'])])
        c[k] += {'count': 1, 'total': 1, 'cell': 100}.get(k, 0) or (60 + (abs(c[k]) // 20 if k != 'mean' else 0)); return t
    return None

def vacuity(traces):
    ev = [e for t in traces for e in t['events'] if 'out' in e]
    n = lambda f: sum(1 for e in ev if f(e))
    px = lambda e: [p for f in e['in']['files'] for p in f['pixels']]
    return dict(refused_positions=n(lambda e: e['out']['refused']), shared_boxes=n(lambda e: any(c.get('count', 0) > 1 for c in e['out']['cells'])), error_files=n(lambda e: 'error' in e['out']['status']), missing_files=n(lambda e: 'missing' in e['out']['status']),
                no_data=n(lambda e: e['in']['full'] and e['out']['none'] and not e['out']['refused']), missing_parts=n(lambda e: any(p['miss'] for p in px(e))), single=n(lambda e: any(c.get('count') == 1 for c in e['out']['cells'])),
                wrapped=n(lambda e: not e['out']['refused'] and any(p['lon'] >= e['in']['grid']['lon']['start'] + e['in']['grid']['lon']['n'] * e['in']['grid']['lon']['inc'] for p in px(e))))
