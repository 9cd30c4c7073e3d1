"""C25: readers of observations (stations, ships, lakes, gridded fields) and preparation of their days."""
import copy, gzip, os
MODELS = [dict(module='MC_Sources.tla', cfg='MC_Sources.cfg', tier='quick', workers=4), dict(module='MC_Sources.tla', cfg='MC_SourcesT.cfg', tier='thorough', workers=8)]
TRACE = 'T_C25'
TIMEOUT = 120
NEG = 150
BUILD = dict(ext=['qinv'])
MISS = -99999
ASSUMPTIONS = ['value and uncertainties of a grid box are missing together', 'reference maps are square with rising coordinates (other shapes cannot be loaded with the installed numpy)',
               'text columns of lake files are given to their converters as text, as the Python version of the repository does',
               'coordinates are multiples of 0.01 degree (0.1 for ships); held values are multiples of 5 mK']

CODES = ['A', 'AB', 'ABC', 'B', 'AB1', 'AB12', 'AB2', 'ZZZZZ', 'A B', 'b']

def land_file(rng, nd=None, ns=None):
    nd = nd or rng.choice([1, 1, 2, 3, 5]); ns = ns or rng.choice([1, 2, 3, 5, 8])
    miss = rng.choice([0, 0, 0.2, 0.5, 1]); bad = rng.choice([0, 0.3, 0.3, 1])
    d0 = rng.choice([0, 30000, 57343])
    days = sorted(rng.sample(range(d0, d0 + 2 * nd + 1), nd))
    val = lambda: [[MISS if rng.random() < miss else 10 * rng.randint(-7000, 7000) for _ in range(ns)] for _ in range(nd)]
    qc = lambda: [[rng.choice([1, 2, 64, 128, 255, 4]) if rng.random() < bad else 0 for _ in range(ns)] for _ in range(nd)]
    n = rng.choice([2, 3, 4, 6]); sp = rng.choice([1000, 500, 200])
    la0 = rng.choice([-4000, 0, 2000]); lo0 = rng.choice([-3000, 0, -15000, -18000])
    pos = [[rng.randint(0, 4 * (n + 1)), rng.randint(0, 4 * (n + 1))] for _ in range(ns)]
    if rng.random() < 0.3: pos[0] = [4 * rng.randint(1, n), 4 * rng.randint(1, n)]
    if lo0 == -18000:
        pos = [[a, max(b, 4)] for a, b in pos]
        if rng.random() < 0.7: pos[-1][1] = 4   # at the date line itself
    loc = []
    for a, b in pos:
        la, lo = la0 + sp * (a - 4) // 4, lo0 + sp * (b - 4) // 4
        if lo < 0 and rng.random() < 0.6: lo += 36000
        loc.append([la, lo])
    em = rng.choice([0, 0, 0.3])
    elev = [MISS if rng.random() < em else rng.choice([0, -50, 10, 250, 999, 3000, rng.randint(-100, 3000)]) for _ in range(ns)]
    mp = [[rng.choice([0, rng.randint(0, 2500)]) for _ in range(n)] for _ in range(n)]
    codes = rng.sample(CODES, min(ns, len(CODES)))
    hold = rng.choice([None, None, [], rng.sample(CODES, rng.randint(1, 4)), rng.sample(codes, min(len(codes), 2)) + ['QQ']])
    return dict(days=days, val=dict(Tmin=val(), Tmax=val()), qc=dict(Tmin=qc(), Tmax=qc()), elev=elev, pos=pos, loc=loc, hold=hold or [], held=hold is not None and len(hold) > 0, codes=codes, map=mp,
                grid=[la0, lo0, sp], packed=rng.random() < 0.7, range=rng.random() < 0.3)

def land_opts(rng, f, k):
    out = []
    for _ in range(k):
        day = rng.choice([-1, -1] + f['days'] + [f['days'][-1] + 1, f['days'][0] - 1 if f['days'][0] else f['days'][-1] + 3])
        out.append(dict(day=day, qc=rng.random() < 0.6, adj=rng.random() < 0.5, obs=rng.choice(['Tmin', 'Tmax'])))
    return out

def grid(rng, n1=None, miss=None):
    lats = [round(-9000 + 100 * x) for x in sorted(rng.sample(range(0, 181), rng.choice([2, 3, 5])))]
    lons = [-18000 + 100 * x for x in sorted(rng.sample(range(0, 360), rng.choice([2, 3, 4])))]
    return lats, lons

def field(rng, n, t, nc=0):
    miss = rng.choice([0, 0, 0.3, 0.3, 1])
    v = [MISS if rng.random() < miss else 10 * rng.randint(-7000, 7000) for _ in range(n)]
    return dict(v=v, u=[10 * rng.randint(1, 2000) for _ in range(n)], c=[[10 * rng.randint(1, 2000) for _ in range(n)] for _ in range(nc)], t=t)

def scenarios(rng, tier, model):
    big = tier != 'quick'
    sample = rng.sample(model, min(len(model), 2500 if big else 160))
    for m in sample:
        f = land_file(rng, nd=len(m['val']), ns=len(m['elev']))
        f['days'] = [102 + 2 * i for i in range(len(m['val']))]
        other = [[10 * rng.randint(-999, 999) for _ in m['elev']] for _ in m['val']]
        for k, mine in (('val', m['val']), ('qc', m['qc'])):
            f[k] = dict(Tmin=[[MISS if x == MISS else x * (10 if k == 'val' else 1) for x in r] for r in mine], Tmax=other if k == 'val' else [[0 for _ in r] for r in mine])
        f['elev'] = m['elev']; f['codes'] = ['a', 'b', 'c'][:len(m['elev'])]; f['hold'] = m['hold']; f['held'] = bool(m['hold'])
        o = dict(m['opt'], obs='Tmin')
        yield dict(kind='land', file=f, opts=[o, dict(o, obs='Tmax')], days=[dict(o, day=102, moved=0)])
    for _ in range(900 if big else 140):
        f = land_file(rng)
        yield dict(kind='land', file=f, opts=land_opts(rng, f, 3), days=[dict(o, moved=rng.choice([0, 0, 0, 1, 2])) for o in land_opts(rng, f, 2) if o['day'] >= 0])
    for _ in range(400 if big else 70):
        n = rng.choice([1, 1, 2, 3, 7, 20])
        d0 = rng.choice([0, 30435, 36525])
        rs = [dict(la=rng.choice([-900, 0, 1, rng.randint(-900, 900)]), lo=rng.choice([-1800, 1799, 0, rng.randint(-1800, 1799)]), t=d0 + rng.randint(0, 3), c=rng.choice([0, -9, rng.randint(-4000, 4000)]), id=rng.choice(['', 'AB#1', 'nan', '12345678', '# SHIP', 'a b'])) for _ in range(n)]
        yield dict(kind='ships', rs=rs, days=[d0, d0 + rng.randint(1, 4)], cols=rng.sample(range(11), 11))
    for _ in range(400 if big else 70):
        n = rng.choice([1, 1, 2, 3, 7, 20])
        d0 = rng.choice([0, 30435, 56000])
        base = [(rng.choice([1000, -4525, rng.randint(-9000, 9000)]), rng.choice([9000, -9000, 0, rng.randint(-17999, 17999)])) for _ in range(rng.choice([1, 2, 4]))]
        base += [(la + s * 50, lo - s * 18000) for la, lo in base for s in (1, -1) if abs(lo - s * 18000) < 18000 and abs(la) < 8900]
        base += [(la + 25, lo - 9000) for la, lo in base if lo - 9000 > -18000 and la < 8900]
        base += [(la, -lo) for la, lo in base[:2]] + [(-la, lo) for la, lo in base[:1]]
        rs = []
        for _ in range(n):
            la, lo = rng.choice(base)
            rs.append(dict(la=la, lo=lo, t=d0 + rng.randint(0, 3), c=rng.choice([0, -9, rng.randint(-4000, 4000)])))
        yield dict(kind='lakes', rs=rs, days=[d0, d0 + rng.randint(1, 4)], moved=rng.choice([0, 0, 1, 2]))
    for _ in range(500 if big else 90):
        lats, lons = grid(rng); n = len(lats) * len(lons); t = rng.choice([0, 56978, 57000])
        if rng.random() < 0.3: lats = lats[::-1]
        yield dict(kind='sat', lats=lats, lons=lons, tmean=field(rng, n, t), tmin=field(rng, n, t), tmax=field(rng, n, t), day=rng.choice([t, t, t, t + 1]), moved=rng.choice([0, 0, 0, 1, 2]), packed=rng.random() < 0.6, src=rng.choice(['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice']))
    for _ in range(300 if big else 50):
        lats, lons = grid(rng); n = len(lats) * len(lons); t = rng.choice([0, 56978, 57000])
        yield dict(kind='wp1', lats=lats, lons=lons, tmin=field(rng, n, t, 1), tmax=field(rng, n, t, 1), tmean=field(rng, n, t, 1))
    for _ in range(400 if big else 70):
        lats, lons = grid(rng)
        res = rng.choice([25, 100, 500]); n1, n2 = rng.choice([2, 3, 5]), rng.choice([2, 3, 5])
        a = rng.choice([-9000 + res * rng.randint(0, 5), -1000]); gap = rng.choice([1, 1, 2, 7, 40])
        lats1 = [a + res * i for i in range(n1)]; lats2 = [lats1[-1] + res * gap + res * i for i in range(n2)]
        lons2 = list(lons)
        bad = rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5])
        if bad == 1: lons2[-1] += 50
        if bad == 2: lats1, lats2, n1, n2 = lats2, lats1, n2, n1
        if bad == 3: lats2 = [lats2[0] + (res + 25) * i for i in range(n2)]
        if bad == 4 and n1 > 2: lats1 = lats1[:-1] + [lats1[-1] - res // 5]
        if bad == 5: lats1 = lats1[::-1]
        if max(lats2 + lats1) > 9000: continue
        t = 57000
        yield dict(kind='ice', lats1=lats1, lats2=lats2, lons1=lons, lons2=lons2, f={o: field(rng, n1 * len(lons), t, 1) for o in ('Tmean', 'Tmin', 'Tmax')}, g={o: field(rng, n2 * len(lons), t, 1) for o in ('Tmean', 'Tmin', 'Tmax')})

# --- files ------------------------------------------------------------------------------------------------------
def codes_var(nc, name, dim, codes):
    import numpy
    w = max(len(c) for c in codes)
    nc.createDimension('width', w)
    nc.createVariable('station_code', 'S1', (dim, 'width'))[:] = numpy.array([[ch.encode() for ch in c.ljust(w, '\0')] for c in codes], 'S1')

def write_land(path, f):
    import numpy, netCDF4
    nc = netCDF4.Dataset(path, 'w')
    nd, ns = len(f['days']), len(f['codes'])
    nc.createDimension('time', nd); nc.createDimension('station', ns)
    nc.createVariable('time', 'i4', ('time',))[:] = f['days']
    nc.createVariable('latitude', 'f4', ('station',))[:] = [p[0] / 100.0 for p in f['loc']]
    nc.createVariable('longitude', 'f4', ('station',))[:] = [p[1] / 100.0 for p in f['loc']]
    v = nc.createVariable('elevation', 'f4', ('station',), fill_value=-999.9); v[:] = numpy.ma.masked_values([float(e) for e in f['elev']], float(MISS))
    for name, o in (('tasmin', 'Tmin'), ('tasmax', 'Tmax')):
        raw = numpy.array(f['val'][o])
        data = numpy.ma.array(273.15 + raw / 2000.0, mask=raw == MISS)
        if f['packed']:
            v = nc.createVariable(name, 'i2', ('time', 'station'), fill_value=-32768); v.scale_factor = 0.005; v.add_offset = 273.15
        else: v = nc.createVariable(name, 'f4', ('time', 'station'), fill_value=-32768.0)
        v[:] = data
        v = nc.createVariable(name + '_qc', 'u1', ('time', 'station'), fill_value=255)
        if f['range']: v.valid_range = numpy.zeros(2, 'u1')
        v.set_auto_mask(False); v[:] = numpy.array(f['qc'][o], 'u1')
    codes_var(nc, 'station_code', 'station', f['codes'])
    nc.close()

def write_hold(path, codes):
    import netCDF4
    nc = netCDF4.Dataset(path, 'w'); nc.createDimension('reserved', len(codes)); codes_var(nc, 'station_code', 'reserved', codes); nc.close()

def write_map(path, f):
    import numpy, netCDF4
    n = len(f['map']); la0, lo0, sp = f['grid']
    nc = netCDF4.Dataset(path, 'w'); nc.createDimension('y', n); nc.createDimension('x', n)
    lo, la = numpy.meshgrid([(lo0 + sp * i) / 100.0 for i in range(n)], [(la0 + sp * i) / 100.0 for i in range(n)])
    for name, x in (('lat', la), ('lon', lo), ('dem', numpy.array(f['map'], float))): nc.createVariable(name, 'f8', ('y', 'x'))[:] = x
    nc.close()

def write_grid(path, lats, lons, t, fields, order=('time', 'latitude', 'longitude'), packed=False, celsius=False, apart=False):
    """fields: name -> (values in half mK above 273.15 K or uncertainties in 0.1 mK, missing, is temperature)"""
    import numpy, netCDF4
    nc = netCDF4.Dataset(path, 'w')
    dn = dict(time='time', latitude='y' if apart else 'latitude', longitude='x' if apart else 'longitude')
    if apart: dn['time'] = 'n'
    for d, n in (('time', 1), ('latitude', len(lats)), ('longitude', len(lons))): nc.createDimension(dn[d], n)
    v = nc.createVariable('time', 'f4' if apart else 'f8', (dn['time'],)); v[:] = t
    if not apart: v.units = 'days since 1850-01-01T00:00:00Z'; v.standard_name = 'time'
    for name, pts in (('latitude', lats), ('longitude', lons)):
        v = nc.createVariable(name, 'f4', (dn[name],)); v[:] = [p / 100.0 for p in pts]
        if not apart: v.standard_name = name; v.units = 'degrees_north' if name == 'latitude' else 'degrees_east'
    for name, (x, miss, temp) in fields.items():
        data = numpy.array(x) / (2000.0 if temp else 10000.0) + ((0.0 if celsius else 273.15) if temp else 0.0)
        data = numpy.ma.array(data, mask=numpy.array(miss, bool)).reshape([dict(time=1, latitude=len(lats), longitude=len(lons))[d] for d in order])
        if packed:
            v = nc.createVariable(name, 'i2', [dn[d] for d in order], fill_value=-32768); v.scale_factor = 0.005 if temp else 0.001
            if temp: v.add_offset = 273.15
        else: v = nc.createVariable(name, 'f8' if apart else 'f4', [dn[d] for d in order], fill_value=-32768.0)
        v.units = 'K'; v[:] = data
    nc.close()

# --- what was delivered --------------------------------------------------------------------------------------------
def num(x, scale, off=0.0):
    y = (float(x) - off) * scale
    return int(round(y)) if y == y and abs(y) < 2e9 else 2000000000

def delivered(o):
    import numpy
    mask = numpy.asarray(o.mask); n = len(o.measurement)
    time = numpy.ma.filled(numpy.ma.asarray(o.time), -7)
    time = time.ravel() if time.ndim else numpy.repeat(time, n)
    if mask.shape != (n,) or len(time) != n or len(o.location) != n or len(o.uncorrelatederror) != n or any(len(c) != n for c in o.locallycorrelatederror): return [dict(m=True, t=-1, p=-1, v=0, u=0, c=[])] * (n + 1)
    return [dict(m=bool(mask[i]), t=num(time[i], 1), p=int(o.location[i]), v=0 if mask[i] else num(o.measurement[i], 2000, 273.15), u=0 if mask[i] else num(o.uncorrelatederror[i], 10000),
                 c=[0 if mask[i] else num(c[i], 10000) for c in o.locallycorrelatederror]) for i in range(n)]

def places(t, scale=100):
    return [[num(a, scale), num(b, scale)] for a, b in zip(t[0], t[1])]

def stored(path, uid, day):
    from eustace.analysis.fileio.observationsource_rawbinary import ObservationRawBinaryReader
    return delivered(ObservationRawBinaryReader(0).read_day(path, uid, day))

class Prep(object):
    """table of places of a source, possibly moved, and preparation of its days"""
    def __init__(self, tmp, path, source):
        from eustace.analysis import preparelocationlookup
        from eustace.analysis.fileio.observationsource_rawbinary import LocationLookupRawBinaryReader
        self.tmp, self.path, self.source, self.k = tmp, path, source, 0
        self.name = os.path.join(tmp, 'lookup', 'table.bin')
        preparelocationlookup.run(self.name, path, source)
        self.table = LocationLookupRawBinaryReader().read(self.name)
    def day(self, day, observable, moved, where=None, **kw):
        import datetime, numpy
        from eustace.analysis import preparedailyfixed
        from eustace.analysis.fileio.observationsource_rawbinary import LocationLookupWithID, LocationLookupRawBinaryWriter
        self.k += 1
        t = numpy.array(self.table.lookuptable)
        if moved:
            i = t.shape[1] - 1 if where is None else where
            t[moved - 1, i] += 0.01 if self.k % 2 else -0.01
        else: t[:, 0] += 0.00001
        name = os.path.join(self.tmp, 'moved%d.bin' % self.k); out = os.path.join(self.tmp, 'out', 'day%d.bin' % self.k)
        LocationLookupRawBinaryWriter().write(name, LocationLookupWithID(self.table.uuid, t))
        try:
            preparedailyfixed.run_day(out, name, self.path, datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day), self.source, observable, **kw)
            return dict(ok=True, exists=os.path.exists(out), w=stored(out, self.table.uuid, day))
        except Exception as e:
            return dict(ok=False, exists=os.path.exists(out), w=[], err=repr(e)[:80])

def execute(sc, rec, tmp):
    import numpy, datetime
    from h_c15 import prepare as identifiers
    identifiers()
    path = os.path.join(tmp, 'source'); kind = sc['kind']
    if kind == 'land':
        from eustace.preprocess.fileio.insitu_land import ObservationSourceInsituLand
        from eustace.preprocess.fileio.height_adjustment import AltitudeAdjustment
        f = sc['file']; write_land(path, f); mp = os.path.join(tmp, 'map.nc'); write_map(mp, f)
        hold = None
        if f['held']: hold = os.path.join(tmp, 'hold.nc'); write_hold(hold, f['hold'])
        adj = lambda o: AltitudeAdjustment(mp, 'lat', 'lon', 'dem', 0.001) if o['adj'] else None
        fin = lambda o: dict(days=f['days'], val=f['val'][o['obs']], qc=f['qc'][o['obs']], elev=f['elev'], pos=f['pos'], loc=f['loc'], hold=f['hold'], codes=f['codes'], map=f['map'])
        for o in sc['opts']:
            s = ObservationSourceInsituLand(path, None if o['day'] < 0 else o['day'], hold, adj(o))
            q = s.observations(o['obs'], o['qc'])
            rec('land', **{'in': dict(file=fin(o), o=dict(day=o['day'], qc=o['qc'], adj=o['adj'])),
                           'out': dict(none=q is None, q=[] if q is None else delivered(q), lookup=places(s.observation_location_lookup()), n=int(s.number_of_observations()), nst=int(s.number_of_stations()), ndays=int(s.number_of_days()), observables=list(s.observables()))})
            s.dataset.close()
        if sc['days']:
            p = Prep(tmp, path, 'insitu_land')
            rec('lookup', **{'in': dict(kind='list', loc=f['loc']), 'out': dict(lookup=places(p.table.lookuptable))})
            for o in sc['days']:
                out = p.day(o['day'], o['obs'], o['moved'], hold_out_list=hold, qc_mask=o['qc'], altitude_adjustment=adj(o))
                rec('landday', **{'in': dict(file=fin(o), o=dict(day=o['day'], qc=o['qc'], adj=o['adj']), moved=bool(o['moved'])), 'out': out})
    elif kind == 'ships':
        from eustace.preprocess.fileio.insitu_ocean import HadNMAT2Format, ObservationSourceInsituOceanHadNMAT2, ObservationSourceInsituOceanHadNMAT2Default
        from eustace.analysis import preparedailymobile
        from eustace.analysis.fileio.observationsource_rawbinary import LocationLookupRawBinaryReader
        titles = ['ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour', 'Air', 'SST', 'Wind', 'slot']
        order = [titles[i] for i in sc['cols']]
        fmt = os.path.join(tmp, 'format.txt')
        open(fmt, 'w').write('HadNMAT2 columns\n\n' + ' '.join(('Air T' if x == 'Air' else x).rjust(8) for x in order).replace('Air T', 'AirT').replace('AirT', 'Air') + '\n')
        with gzip.open(path, 'wb') as g:
            for r in sc['rs']:
                d = datetime.datetime(1850, 1, 1) + datetime.timedelta(days=r['t'])
                row = dict(ID=r['id'], Lat=r['la'], Lon=r['lo'], year=d.year, month=d.month, day=d.day, hour=11, Air=r['c'], SST=1234, Wind=77, slot=3)
                g.write((''.join(str(row[x]).rjust(8)[:8] for x in order) + '\n').encode())
        rin = [dict(la=r['la'], lo=r['lo'], t=r['t'], c=r['c']) for r in sc['rs']]
        s = ObservationSourceInsituOceanHadNMAT2(HadNMAT2Format(fmt), path)
        rec('ships', **{'in': dict(rs=rin), 'out': dict(q=delivered(s.observations('Tmean')), lookup=places(s.observation_location_lookup(), 10), n=int(s.number_of_observations()))})
        ObservationSourceInsituOceanHadNMAT2Default.FORMAT = fmt
        for k, day in enumerate(sc['days']):
            out, loc = os.path.join(tmp, 'o', '%d.bin' % k), os.path.join(tmp, 'l', '%d.bin' % k)
            preparedailymobile.run_day(out, loc, path, datetime.datetime(1850, 1, 1) + datetime.timedelta(days=day), 'insitu_ocean', 'Tmean')
            t = LocationLookupRawBinaryReader().read(loc)
            try: w = stored(out, t.uuid, day); match = True
            except Exception as e: w, match = [], False
            rec('shipsday', **{'in': dict(rs=rin, day=day), 'out': dict(w=w, lookup=places(t.lookuptable, 10), match=match)})
    elif kind == 'lakes':
        real = numpy.genfromtxt
        if not getattr(real, 'as_text', False):
            # text columns reach the converters as text
            def as_text(*a, **k): return real(*a, **dict(dict(encoding='utf-8'), **k))
            as_text.as_text = True; numpy.genfromtxt = as_text
        from eustace.surfaceairmodel.fileio.lake import ObservationSourceLakeReading
        path += '.txt'
        with open(path, 'w') as g:
            g.write('DateTime\tlat\tlon\tfTa\n')
            for r in sc['rs']:
                g.write('%s\t%.2f\t%.2f\t%.2f\n' % ((datetime.datetime(1850, 1, 1) + datetime.timedelta(days=r['t'])).strftime('%Y-%m-%d'), r['la'] / 100.0, r['lo'] / 100.0, r['c'] / 100.0))
        s = ObservationSourceLakeReading(path)
        rec('lakes', **{'in': dict(rs=sc['rs']), 'out': dict(q=delivered(s.observations('Tmean')), lookup=places(s.observation_location_lookup()), n=int(s.number_of_observations()))})
        p = Prep(tmp, path, 'surfaceairmodel_lake')
        for day in sc['days']:
            out = p.day(day, 'Tmean', sc['moved'], where=0)
            rec('lakesday', **{'in': dict(rs=sc['rs'], day=day, moved=bool(sc['moved'])), 'out': dict(out, lookup=places(p.table.lookuptable))})
    elif kind == 'sat':
        from eustace.surfaceairmodel.fileio.consistent import ObservationSourceSatstace
        path += '.nc'; fields = {}; F = dict(Tmean=sc['tmean'], Tmin=sc['tmin'], Tmax=sc['tmax'])
        for name, o in (('tas', 'Tmean'), ('tasmin', 'Tmin'), ('tasmax', 'Tmax')):
            x = F[o]; miss = [v == MISS for v in x['v']]
            fields[name] = (x['v'], miss, True); fields[name + 'uncertainty'] = (x['u'], miss, False)
        write_grid(path, sc['lats'], sc['lons'], sc['tmean']['t'], fields, packed=sc['packed'])
        for o in ('Tmean', 'Tmin', 'Tmax'):
            s = ObservationSourceSatstace([o], path)
            rec('field', **{'in': dict(f=F[o], lats=sc['lats'], lons=sc['lons']), 'out': dict(q=delivered(s.observations(o)), lookup=places(s.observation_location_lookup()), n=int(s.number_of_observations()))})
        p = Prep(tmp, path, sc['src'])
        rec('lookup', **{'in': dict(kind='mesh', lats=sc['lats'], lons=sc['lons']), 'out': dict(lookup=places(p.table.lookuptable))})
        for o in ('Tmean', 'Tmax'):
            rec('fieldday', **{'in': dict(f=F[o], day=sc['day'], moved=bool(sc['moved'])), 'out': p.day(sc['day'], o, sc['moved'])})
    elif kind == 'wp1':
        from eustace.surfaceairmodel.fileio.land import ObservationSourceLandMetOfficeWP1
        from eustace.surfaceairmodel.fileio.ocean import ObservationSourceOceanMetOfficeWP1
        lf = {}
        for n, o in (('tasmin', 'tmin'), ('tasmax', 'tmax')):
            x = sc[o]; miss = [v == MISS for v in x['v']]
            lf[n] = (x['v'], miss, True); lf['unc_rand_' + n] = (x['u'], miss, False); lf['unc_corr_' + n] = (x['c'][0], miss, False)
        write_grid(path + 'l.nc', sc['lats'], sc['lons'], sc['tmin']['t'], lf, order=('latitude', 'longitude', 'time'))
        s = ObservationSourceLandMetOfficeWP1(path + 'l.nc')
        base = dict(lats=sc['lats'], lons=sc['lons'])
        for o in ('Tmin', 'Tmax'):
            rec('field', **{'in': dict(base, f=sc[o.lower()]), 'out': dict(q=delivered(s.observations(o)), lookup=places(s.observation_location_lookup()), n=int(s.number_of_observations()))})
        rec('mean', **{'in': dict(base, f=sc['tmin'], g=sc['tmax']), 'out': dict(q=delivered(s.observations('Tmean')), lookup=places(s.observation_location_lookup()))})
        x = sc['tmean']; miss = [v == MISS for v in x['v']]
        write_grid(path + 'o.nc', sc['lats'], sc['lons'], x['t'], dict(tas=(x['v'], miss, True), unc_rand_tas=(x['u'], miss, False), unc_corr_tas=(x['c'][0], miss, False)), order=('latitude', 'longitude'), celsius=True, apart=True)
        s = ObservationSourceOceanMetOfficeWP1(path + 'o.nc')
        for _ in range(2):
            rec('field', **{'in': dict(base, f=x), 'out': dict(q=delivered(s.observations('Tmean')), lookup=places(s.observation_location_lookup()), n=int(s.number_of_observations()))})
    elif kind == 'ice':
        from eustace.surfaceairmodel.fileio.ice import ObservationSourceIceDMICombined
        names = dict(Tmean=('tas', 'RU', 'SSU'), Tmin=('tasmin', 'RUmin', 'SSUmin'), Tmax=('tasmax', 'RUmax', 'SSUmax'))
        for k, (lats, lons, F) in enumerate(((sc['lats1'], sc['lons1'], sc['f']), (sc['lats2'], sc['lons2'], sc['g']))):
            fl = {}
            for o, (a, b, c) in names.items():
                miss = [v == MISS for v in F[o]['v']]
                fl[a] = (F[o]['v'], miss, True); fl[b] = (F[o]['u'], miss, False); fl[c] = (F[o]['c'][0], miss, False)
            write_grid(path + '%d.nc' % k, lats, lons, F['Tmean']['t'], fl)
        for o in names:
            i = dict(lats1=sc['lats1'], lats2=sc['lats2'], lons1=sc['lons1'], lons2=sc['lons2'], f=sc['f'][o], g=sc['g'][o])
            try:
                s = ObservationSourceIceDMICombined([path + '0.nc', path + '1.nc'])
                out = dict(ok=True, q=delivered(s.observations(o)), lookup=places(s.observation_location_lookup()), n=int(s.number_of_observations()))
            except ValueError as e: out = dict(ok=False, q=[], lookup=[], n=0)
            rec('joined', **{'in': i, 'out': out})

def mutate(s, rng):
    s = copy.deepcopy(s)
    ev = [e for e in s['events'] if isinstance(e.get('out'), dict) and (e['out'].get('q') or e['out'].get('w') or e['out'].get('lookup'))]
    if not ev: return None
    e = rng.choice(ev); o = e['out']
    key = rng.choice([k for k in ('q', 'w', 'lookup') if o.get(k)])
    i = rng.randrange(len(o[key]))
    if key == 'lookup':
        if e['a'] == 'lakesday': return None
        o[key][i][rng.randrange(2)] += rng.choice([1, -1, 36000]); return s
    r = o[key][i]; c = rng.choice(['m', 'p', 't', 'v', 'u', 'drop'])
    if c == 'drop': o[key].pop(i)
    elif c == 'm':
        if key == 'w': return None
        r['m'] = not r['m']
        if not r['m']: r['v'] = 1999999999
    elif c in ('v', 'u') and r['m']: return None
    elif c == 't' and key == 'w': return None
    else: r[c] += {'v': 40, 'u': -50 if r['u'] > 60 else 50, 'p': 1, 't': -1}[c]
    return s

def vacuity(traces):
    n = {}
    for t in traces:
        for e in t['events']:
            a = e['a']; n[a] = n.get(a, 0) + 1
            if a == 'land':
                o = e['in']['o']
                if o['adj'] and any(not r['m'] for r in e['out']['q']): n['adjusted'] = n.get('adjusted', 0) + 1
                if o['qc'] and o['day'] < 0 and not e['in']['file']['hold']: n['wholeqc'] = n.get('wholeqc', 0) + 1
                if e['out']['none']: n['absentday'] = n.get('absentday', 0) + 1
                if e['out']['q'] and not any(r['m'] for r in e['out']['q']): n['complete'] = n.get('complete', 0) + 1
            if a in ('landday', 'fieldday', 'lakesday') and not e['out']['ok']: n['refused'] = n.get('refused', 0) + 1
            if a == 'joined' and not e['out']['ok']: n['unjoinable'] = n.get('unjoinable', 0) + 1
            if a in ('landday', 'fieldday', 'shipsday') and e['out']['w']: n['written'] = n.get('written', 0) + 1
            if a == 'ships' and len(e['in']['rs']) == 1: n['oneship'] = n.get('oneship', 0) + 1
    return n
