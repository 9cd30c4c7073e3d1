"""C15: raw binary observation files, place index, counts (written and read by Python, read by C++)."""
import os, subprocess, uuid
MODELS = [dict(module='MC_RawStore.tla', cfg='MC_RawStore.cfg', tier='quick', workers=3), dict(module='MC_RawStore.tla', cfg='MC_RawStoreT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C15'
TIMEOUT = 90
NEG = 120
BUILD = dict(cpp=[('cpp_input.cpp', ['eustace/analysis/inputmanager.cpp', 'eustace/analysis/fileio/rawbinary.cpp', 'eustace/analysis/fileio/locationpointers.cpp', 'eustace/timeutils/timebase.cpp', 'eustace/definitions.cpp', 'eustace/analysis/observationsource.cpp'], 'input')])
ASSUMPTIONS = ['the place index is used with the daily files it was built from', 'the sixteen-character format identifiers are compared as bytes, as on the Python the code was written for', 'time zone UTC']
FIXED = dict(surfaceairmodel_land='satellite', surfaceairmodel_ocean='satellite', surfaceairmodel_ice='satellite', surfaceairmodel_lake='lake', insitu_land='insitu_land')
SOURCES = sorted(FIXED) + ['insitu_ocean']
OBS = ['Tmin', 'Tmax', 'Tmean']
U = 65536
DAYS = [0, 58, 59, 364, 365, 18260, 18261, 18262, 18320, 18321, 54787, 54844, 54845, 54846, 55151, 55152, 58440, 60000, 30000, 40176, 43829, 100]

def observations(rng, day, nloc, nc, n, dup):
    out = []
    locs = sorted(rng.sample(range(nloc), min(n, nloc))) if not dup else [rng.randrange(nloc) for _ in range(n)]
    if not dup and rng.random() < 0.2: rng.shuffle(locs)
    for l in locs:
        out.append(dict(mask=rng.random() < 0.25, t4=4 * day + rng.choice([0, 0, 0, 1, 3, 3, 4, -1, -4]) if day else rng.choice([0, 0, 1, 3, 4]), loc=l, v=[rng.randint(200 * U, 320 * U)] + [rng.randint(1, 5 * U) for _ in range(1 + nc)]))
    return out

def world(rng, tier):
    """tables, ranges, days and index of one or two sources; then questions"""
    acts, srcs = [], rng.sample(SOURCES, rng.choice([1, 1, 2, 2, 3]))
    ids = iter(range(1, 1000))
    tab = {}
    for s in srcs:
        if s in FIXED and FIXED[s] not in tab:
            tab[FIXED[s]] = dict(uuid=next(ids), n=rng.choice([1, 2, 3, 5, 9]))
            acts.append(dict(a='table', name=[FIXED[s]], uuid=tab[FIXED[s]]['uuid'], locs=[[rng.randint(-360, 360) * 16384, rng.randint(-720, 719) * 16384] for _ in range(tab[FIXED[s]]['n'])]))
    q = []
    for s in srcs:
        o = rng.choice(OBS); nc = rng.choice([0, 0, 1, 2, 3])
        others = rng.random() < 0.4
        acts.append(dict(a='ranges', s=s, o=o, ranges=[rng.randint(1, 500) * 16384 for _ in range(nc)]))
        base = rng.choice(DAYS)
        days = sorted({base + k for k in range(rng.choice([1, 2, 3, 5])) if rng.random() < 0.8})
        written = []
        for d in rng.sample(days, len(days)):
            if s == 'insitu_ocean':
                n = rng.choice([0, 1, 3, 6]); u = next(ids)
                acts.append(dict(a='table', name=[s, o, d], uuid=u, locs=[[rng.randint(-360, 360) * 16384, rng.randint(-720, 719) * 16384] for _ in range(n)]))
                ob = observations(rng, d, n, nc, n, False) if n else []
            else:
                u = tab[FIXED[s]]['uuid']; n = tab[FIXED[s]]['n']
                if rng.random() < 0.08: u = next(ids)                   # written for another set of locations
                ob = observations(rng, d, n, nc, rng.choice([0, 1, n, n]), rng.random() < 0.15)
            if s == 'insitu_ocean' and rng.random() < 0.08: u = next(ids)
            acts.append(dict(a='write', s=s, o=o, day=d, uuid=u, nc=nc, obs=ob, dtype=rng.choice(['f4', 'f8'])))
            written.append((d, u))
            if rng.random() < 0.1: acts.append(dict(acts[-1], obs=[x for x in ob if rng.random() < 0.7]))   # written again, shorter
        if others:
            oo = rng.choice([x for x in OBS if x != o])
            acts.append(dict(a='ranges', s=s, o=oo, ranges=[]))
            if s in FIXED: acts.append(dict(a='write', s=s, o=oo, day=base, uuid=tab[FIXED[s]]['uuid'], nc=0, obs=observations(rng, base, tab[FIXED[s]]['n'], 0, 2, False), dtype='f8'))
        indexed = False
        if s in FIXED:
            di = [d for d, u in written if u == tab[FIXED[s]]['uuid'] or rng.random() < 0.15]
            if rng.random() < 0.5: di.sort()
            indexed = all(u == tab[FIXED[s]]['uuid'] for d, u in written if d in di)
            if rng.random() < 0.1: di.append(base + 50); indexed = False
            acts.append(dict(a='index', s=s, o=o, days=di, via=rng.choice(['run', 'writer'])))
        for d in [base - 1 if base else 0] + [base + k for k in range(5)]:
            for lang in ('py', 'cpp'): q.append(dict(a='day', s=s, o=o, day=d, lang=lang))
            if rng.random() < 0.4: q.append(dict(a='ids', s=s, o=o, day=d))
        for lang in ('py', 'cpp'): q.append(dict(a='counts', s=s, o=o, lang=lang, **dict(zip(('from', 'to'), sorted(rng.sample([base, base + 1, base + 2, base + 4, base + 6], 2)))), times=rng.choice([1, 2]) if lang == 'cpp' else 1))
        if days: q.append(dict(a='counts', s=s, o=o, lang='cpp', times=1, **{'from': min(days), 'to': min(days) + sum(1 for k in range(len(days)) if min(days) + k == sorted(days)[k]) - 1}))
        q.append(dict(a='locations', s=s, o=o, day=-1)); q.append(dict(a='locations', s=s, o=o, day=base))
        if indexed:
            n = tab[FIXED[s]]['n']
            for _ in range(2): q.append(dict(a='place', s=s, o=o, ids=[rng.randrange(n) for _ in range(rng.choice([0, 1, 2, n]))]))
            for i in [rng.randrange(n), n, n - 1, -1]: q.append(dict(a='pointers', s=s, o=o, id=i, uuid=tab[FIXED[s]]['uuid'] if rng.random() < 0.85 else next(ids)))
        if s == 'insitu_ocean': q.append(dict(a='place', s=s, o=o, ids=[0]))
        q.append(dict(a='absent', s=s, o=o))
        q.append(dict(a='names', s=s, o=o, day=rng.choice(DAYS) + rng.randint(0, 3), lang=rng.choice(['py', 'cpp'])))
    rng.shuffle(q)
    acts += q
    if rng.random() < 0.25 and tab:                                      # the table is replaced: everything that refers to the old one is refused
        t = rng.choice(sorted(tab))
        acts.append(dict(a='table', name=[t], uuid=next(ids), locs=[[0, 0]] * tab[t]['n']))
        acts += [x for x in q if x['s'] in FIXED and FIXED[x['s']] == t and x['a'] in ('day', 'place', 'ids', 'pointers')][:6]
    return acts

def scenarios(rng, tier, model):
    big = tier != 'quick'
    for m in rng.sample(model, min(len(model), 120)):
        base = rng.choice(DAYS); s = rng.choice(sorted(FIXED)); o = rng.choice(OBS)
        acts = [dict(a='table', name=[FIXED[s]], uuid=1, locs=[[16384, 0], [0, 32768]]), dict(a='ranges', s=s, o=o, ranges=[16384])]
        for k, g in enumerate(m['given']):
            if not g and k + 1 not in m['days']: continue
            acts.append(dict(a='write', s=s, o=o, day=base + k, uuid=1, nc=1, obs=[dict(x, t4=x['t4'] - 4 * (k + 1) + 4 * (base + k)) for x in g], dtype='f8'))
        acts.append(dict(a='index', s=s, o=o, days=[base + d - 1 for d in m['days']], via='writer'))
        acts.append(dict(a='place', s=s, o=o, ids=[0, 1]))
        for d in (0, 1):
            for lang in ('py', 'cpp'): acts.append(dict(a='day', s=s, o=o, day=base + d, lang=lang))
        yield dict(acts=acts)
    for i in range(1000 if big else 160): yield dict(acts=world(rng, tier))
    for i in range(300 if big else 50):                                  # station files
        n = rng.choice([1, 2, 4, 7]); nd = rng.choice([1, 2, 3]); base = rng.choice(DAYS)
        o = rng.choice(['Tmin', 'Tmax'])
        vals = [[rng.choice([-1, rng.randint(800, 1280) * 16384, rng.randint(800, 1280) * 16384]) for _ in range(n)] for _ in range(nd)]
        if rng.random() < 0.3: vals = [[v if v >= 0 else 1000 * 16384 for v in r] for r in vals]     # nothing missing
        qc = [[rng.choice([0, 0, 0, 1, 4]) for _ in range(n)] for _ in range(nd)]
        held = sorted(rng.sample(range(n), rng.randint(0, n))) if rng.random() < 0.5 else []
        acts = [dict(a='table', name=['insitu_land'], uuid=5, locs=[[rng.randint(-360, 360) * 16384, rng.randint(-720, 719) * 16384] for _ in range(n)]), dict(a='ranges', s='insitu_land', o=o, ranges=[])]
        acts += [dict(a='prepare', o=o, day=base + k, base=base, vals=vals, qc=qc, held=held, qcmask=rng.random() < 0.5, adjust=[rng.randint(-8, 8) * 16384 for _ in range(n)] if rng.random() < 0.3 else []) for k in rng.sample(range(nd + 1), nd)]
        acts += [dict(a='day', s='insitu_land', o=o, day=base + k, lang=['py', 'cpp'][k % 2]) for k in range(nd + 1)]
        acts += [dict(a='counts', s='insitu_land', o=o, lang='py', times=1, **{'from': base, 'to': base + nd})]
        yield dict(acts=acts)

def num(x):
    y = float(x) * U
    if y == int(y) and abs(y) < 2 ** 31: return int(y)
    import numpy
    if float(x) == float(numpy.float32(0.3)): return 3000
    return repr(float(x))

def uid(k): return uuid.UUID(int=(k << 64) + 7 * k)

def prepare():
    import re
    import eustace.analysis.fileio.observationsource_rawbinary as a, eustace.analysis.fileio.locationpointers as b
    for m in (a, b):
        for k, v in list(vars(m).items()):
            if isinstance(v, str) and re.match(r'^EUSTACE[A-Z]{4}\d{5}$', v): setattr(m, k, v.encode())

class Adjust(object):
    def __init__(self, a): self.a = a
    def load_reference_map(self): pass
    def adjustment(self, elevations, locations): import numpy; return numpy.array(self.a, 'f4') / U
    def adjustment_uncertainty(self, elevations, locations): import numpy; return numpy.zeros(len(self.a), 'f4')

class World(object):
    def __init__(self, tmp, rec):
        prepare()
        self.tmp, self.rec = tmp, rec
        self.base = os.path.join(tmp, 'data'); os.makedirs(self.base)
        self.uuids = {}
        self.locs = {}
        self.pending = []
        self.nfiles = 0

    def gen(self, s):
        from eustace.analysis.fileio.observationsource_rawbinary import ObservationSourceBinaryFilenameGenerator
        return ObservationSourceBinaryFilenameGenerator(s, self.base)

    def table(self, s, o, d):
        return os.path.join(self.base, 'locationlookup_%s.bin' % FIXED[s]) if s in FIXED else self.gen(s).filename_mobile_locations(o, d)

    def cpp(self, lines):
        q = subprocess.run([os.path.join(os.environ['VERIF_TREE'], 'input'), self.base], input=''.join(l + '\n' for l in lines), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env={'PATH': '/usr/bin:/bin', 'TZ': 'UTC'})
        out = [l.split()[1:] for l in q.stdout.split('\n') if l.startswith('@ ')]
        if q.returncode or len(out) != len(lines): raise RuntimeError('driver ended with %d: %s' % (q.returncode, q.stdout[-300:]))
        return out

    def flush(self):
        """questions for the C++ program are put together; they do not change anything"""
        p, self.pending = self.pending, []
        if not p: return
        lines = [l for _, ls, _ in p for l in ls]
        out = self.cpp(lines)
        i = 0
        for name, ls, f in p:
            inp, res = f(out[i:i + len(ls)]); i += len(ls)
            self.rec(name, **{'in': inp, 'out': res})

    def do(self, x):
        import numpy
        from eustace.analysis.fileio import observationsource_rawbinary as rb, locationpointers as lp
        a = x['a']; inp = {k: v for k, v in x.items() if k not in ('a', 'dtype', 'via', 'base')}
        cpp = x.get('lang') == 'cpp' or a in ('locations', 'place')
        if not cpp: self.flush()
        if a == 'table':
            name = x['name']
            path = os.path.join(self.base, 'locationlookup_%s.bin' % name[0]) if len(name) == 1 else self.gen(name[0]).filename_mobile_locations(name[1], name[2])
            rb.LocationLookupRawBinaryWriter().write(path, rb.LocationLookupWithID(uid(x['uuid']), numpy.array(x['locs'], 'f8').reshape(-1, 2).T / U))
            self.uuids[tuple(name)] = x['uuid']; self.locs[tuple(name)] = x['locs']
            self.rec('table', **{'in': inp})
        elif a == 'ranges':
            rb.LocalCorrelationRangeRawBinaryWriter().write(self.gen(x['s']).filename_local_correlation_ranges(x['o']), [r / U for r in x['ranges']])
            self.rec('ranges', **{'in': inp})
        elif a == 'write':
            from eustace.analysis.observationsource import Observations
            ob = x['obs']
            v = numpy.array([o['v'] for o in ob], 'f8').reshape(len(ob), 2 + x['nc']) / U
            obs = Observations(numpy.array([o['mask'] for o in ob], bool), numpy.array([o['t4'] / 4.0 for o in ob], x['dtype']), numpy.array([o['loc'] for o in ob], 'u8'), v[:, 0], v[:, 1], [v[:, 2 + c] for c in range(x['nc'])])
            rb.ObservationRawBinaryWriter().write_day(self.gen(x['s']).filename_observations(x['o'], x['day']), uid(x['uuid']), obs, x['day'])
            self.rec('write', **{'in': inp})
        elif a == 'prepare':
            import datetime
            from netCDF4 import Dataset
            from eustace.analysis import preparedailyfixed
            n, nd = len(x['vals'][0]), len(x['vals'])
            self.nfiles += 1; path = os.path.join(self.tmp, 'stations%d.nc' % self.nfiles); hold = os.path.join(self.tmp, 'held%d.nc' % self.nfiles)
            def codes(nc, dim, which):
                nc.createDimension(dim, len(which)); nc.createDimension('name', 4)
                v = nc.createVariable('station_code', 'S1', (dim, 'name'), fill_value='_' if False else None); v.set_auto_chartostring(False)
                if which: v[:] = numpy.array([list('S%03d' % k) for k in which], 'S1')
            nc = Dataset(path, 'w'); codes(nc, 'station', list(range(n))); nc.createDimension('time', nd)
            nc.createVariable('time', 'i4', ('time',))[:] = [x['base'] + k for k in range(nd)]
            locs = self.locs[('insitu_land',)]
            nc.createVariable('latitude', 'f4', ('station',))[:] = [l[0] / U for l in locs]
            nc.createVariable('longitude', 'f4', ('station',))[:] = [l[1] / U for l in locs]
            nc.createVariable('elevation', 'f4', ('station',))[:] = [1.0] * n
            for v in ('tasmin', 'tasmax'):
                q = nc.createVariable(v, 'f4', ('time', 'station'), fill_value=-999.0)
                q[:] = numpy.array([[-999.0 if k < 0 else k / U for k in r] for r in x['vals']], 'f4')
                nc.createVariable(v + '_qc', 'i1', ('time', 'station'))[:] = numpy.array(x['qc'], 'i1')
            nc.close()
            if x['held']:
                nc = Dataset(hold, 'w'); codes(nc, 'station', x['held']); nc.close()
            inside = 0 <= x['day'] - x['base'] < nd
            kw = dict(qc_mask=x['qcmask'])
            if x['held']: kw['hold_out_list'] = hold
            if x['adjust']: kw['altitude_adjustment'] = Adjust(x['adjust'])
            try: preparedailyfixed.run_day(self.gen('insitu_land').filename_observations(x['o'], x['day']), self.table('insitu_land', x['o'], 0), path, datetime.datetime(1850, 1, 1) + datetime.timedelta(days=x['day']), 'insitu_land', x['o'], **kw); ok = True
            except Exception:
                if inside: raise
                ok = False
            k = x['day'] - x['base'] if inside else 0
            self.rec('prepare', **{'in': dict(o=x['o'], day=x['day'], uuid=self.uuids[('insitu_land',)], inside=inside, vals=x['vals'][k], qc=x['qc'][k], qcmask=x['qcmask'], held=x['held'], adjust=x['adjust'] or [0] * n), 'out': dict(ok=ok)})
        elif a == 'index':
            from eustace.analysis import preparelocationpointers
            g = self.gen(x['s']); table = self.table(x['s'], x['o'], 0); out = os.path.join(self.base, '%s_%s_locationpointers.bin' % (x['s'], x['o']))
            try:
                if x['via'] == 'run': preparelocationpointers.run(out, table, g.filename_local_correlation_ranges(x['o']), [g.filename_observations(x['o'], d) for d in x['days']])
                else:
                    w = lp.LocationPointersRawBinaryWriter(table, g.filename_local_correlation_ranges(x['o']))
                    for d in x['days']: w.append_day(g.filename_observations(x['o'], d), d)
                    w.write(out)
                ok = True
            except Exception: ok = False
            self.rec('index', **{'in': inp, 'out': dict(ok=ok)})
        elif a == 'names':
            cut = lambda p: p[len(self.base):] if p.startswith(self.base) else p
            if cpp: self.pending.append(('names', ['name %s %s %d' % (x['s'], x['o'], x['day'])], lambda r: (inp, dict(zip(('obs', 'mobile', 'ranges'), map(cut, r[0][1:]))))))
            else:
                g = self.gen(x['s'])
                self.rec('names', **{'in': inp, 'out': dict(obs=cut(g.filename_observations(x['o'], x['day'])), mobile=cut(g.filename_mobile_locations(x['o'], x['day'])), ranges=cut(g.filename_local_correlation_ranges(x['o'])))})
        elif a == 'day':
            if cpp:
                def day(r):
                    w = r[0]
                    if w[0] != 'ok': return inp, dict(ok=False)
                    nc, n = int(w[1]), int(w[2]); f = w[3:]; k = 5 + nc
                    rg, f = f[:nc], f[nc:]
                    assert len(f) == n * k
                    return inp, dict(ok=True, ranges=[num(v) for v in rg], recs=[dict(loc=int(f[i * k]), v=[num(v) for v in f[i * k + 1:i * k + 3 + nc]], at=[num(v) for v in f[i * k + 3 + nc:i * k + k]]) for i in range(n)])
                self.pending.append(('day', ['day %s %s %d' % (x['s'], x['o'], x['day'])], day)); return
            g = self.gen(x['s'])
            try:
                rg = rb.LocalCorrelationRangeRawBinaryReader().read(g.filename_local_correlation_ranges(x['o']))
                src = rb.ObservationSourceSingleDayRawBinary(rb.LocationLookupRawBinaryReader().read(self.table(x['s'], x['o'], x['day'])), {x['o']: rb.ObservableFileSpec(g.filename_observations(x['o'], x['day']), rg)}, x['day'])
                ob = src.observations(x['o'])
            except Exception: self.rec('day', **{'in': inp, 'out': dict(ok=False)}); return
            n = ob.number_of_observations(); lk = src.observation_location_lookup()
            assert not numpy.any(ob.mask) and len(ob.mask) == n == len(ob.location) == len(ob.uncorrelatederror) and numpy.all(ob.time == x['day']) and len(ob.locallycorrelatederror) == len(rg)
            self.rec('day', **{'in': inp, 'out': dict(ok=True, ranges=[num(v) for v in src.local_correlation_length_scale(x['o'])], recs=[dict(loc=int(ob.location[i]), v=[num(ob.measurement[i]), num(ob.uncorrelatederror[i])] + [num(c[i]) for c in ob.locallycorrelatederror], at=[num(v) for v in lk[:, int(ob.location[i])]]) for i in range(n)])})
        elif a == 'absent':
            src = rb.ObservationSourceSingleDayRawBinary(None, {x['o']: rb.ObservableFileSpec(None, [])}, 3)
            ob = src.observations(x['o'])
            self.rec('absent', **{'in': inp, 'out': dict(n=int(ob.number_of_observations()) + len(ob.measurement) + len(ob.location) + len(ob.mask))})
        elif a == 'ids':
            g = self.gen(x['s'])
            try:
                nc = len(rb.LocalCorrelationRangeRawBinaryReader().read(g.filename_local_correlation_ranges(x['o'])))
                k, n = rb.LocationLookupRawBinaryReader().read_uuid_and_count(self.table(x['s'], x['o'], x['day']))
                out = dict(ok=True, ids=[int(i) for i in rb.ObservationRawBinaryReader(nc).read_location_ids(g.filename_observations(x['o'], x['day']), k)])
            except Exception: out = dict(ok=False, ids=[])
            self.rec('ids', **{'in': inp, 'out': out})
        elif a == 'counts':
            days = range(x['from'], x['to'] + 1)
            if cpp:
                def counts(r):
                    t = r[-1]
                    return inp, dict(counts=[int(w[1]) if w[0] == 'ok' else -1 for w in r[len(r) - 1 - len(days):-1]], total=int(t[1]) if t[0] == 'ok' else -1)
                self.pending.append(('counts', ['fresh %s %s' % (x['s'], x['o'])] + ['specify %s %s %d %d' % (x['s'], x['o'], x['from'], x['to'])] * x['times'] + ['specify %s %s 0 9' % (x['s'], OBS[(OBS.index(x['o']) + 1) % 3])] + ['count %s %s %d' % (x['s'], x['o'], d) for d in days] + ['total %s %s' % (x['s'], x['o'])], counts)); return
            import datetime
            from eustace.analysis.obscount import ObsCounter
            t = lambda d: datetime.datetime(1850, 1, 1) + datetime.timedelta(days=d)
            c = ObsCounter(self.base, x['s'], x['o'], *([t(d).strftime('%Y%m%d') for d in (x['from'], x['to'])] if x['from'] % 2 else [t(x['from']), t(x['to'])]))
            st = c.summary_statistics()
            m = st.mean_observations_per_day
            self.rec('counts', **{'in': inp, 'out': dict(counts=[-1 if v is None else int(v) for v in c.count_all_days()], total=int(st.total_observations), days=int(st.number_of_days), missing=int(st.missing_days), mean=-1 if m is None else int(round(m * 5040)))})
        elif a == 'locations':
            self.pending.append(('locations', ['locations %s %s %d' % (x['s'], x['o'], x['day'])], lambda r: (inp, dict(n=int(r[0][1]) if r[0][0] == 'ok' else -1))))
        elif a == 'place':
            def place(r):
                w = r[0]
                if w[0] != 'ok': return inp, dict(ok=False)
                nc = self.nranges(x['s'], x['o']); i, series = 2, []
                for _ in range(int(w[1])):
                    n = int(w[i]); i += 1; q = []
                    for _ in range(n): q.append(dict(day=int(w[i]), v=[num(v) for v in w[i + 1:i + 3 + nc]])); i += 3 + nc
                    series.append(q)
                assert i == len(w)
                return inp, dict(ok=True, series=series)
            self.pending.append(('place', ['place %s %s %d %s' % (x['s'], x['o'], len(x['ids']), ' '.join(map(str, x['ids'])))], place))
        elif a == 'pointers':
            try:
                p = lp.LocationPointersRawBinaryReader().read_pointer_records(os.path.join(self.base, '%s_%s_locationpointers.bin' % (x['s'], x['o'])), uid(x['uuid']), x['id'])
                out = dict(ok=True, ptrs=[dict(day=int(r['daynumber']), offset=int(r['fileoffset'])) for r in p])
            except Exception: out = dict(ok=False, ptrs=[])
            self.rec('pointers', **{'in': inp, 'out': out})
        else: raise ValueError(a)

    def nranges(self, s, o):
        from eustace.analysis.fileio import observationsource_rawbinary as rb
        return len(rb.LocalCorrelationRangeRawBinaryReader().read(self.gen(s).filename_local_correlation_ranges(o)))

def execute(sc, rec, tmp):
    w = World(tmp, rec)
    for x in sc['acts']: w.do(x)
    w.flush()

def vacuity(traces):
    ev = lambda k: [e for t in traces for e in t['events'] if e['a'] == k]
    d = ev('day')
    return dict(days_read=sum(e['out']['ok'] for e in d), refused=sum(not e['out']['ok'] for e in d), observations=sum(len(e['out'].get('recs', [])) for e in d), places=sum(len(q) for e in ev('place') if e['out']['ok'] for q in e['out']['series']),
                refused_places=sum(not e['out']['ok'] for e in ev('place')), pointers=sum(e['out']['ok'] for e in ev('pointers')), missing_days=sum(c == -1 for e in ev('counts') for c in e['out']['counts']), prepared=sum(e['out']['ok'] for e in ev('prepare')))
