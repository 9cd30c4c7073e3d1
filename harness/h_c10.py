"""C10: storage of component solutions (in memory, single file, indexed, patterned, batched and cached)."""
import os
MODELS = [dict(module='MC_CompStore.tla', cfg='MC_CompStore.cfg', tier='quick', workers=3), dict(module='MC_CompStore.tla', cfg='MC_CompStoreT.cfg', tier='thorough', workers=6)]
TRACE = 'T_C10'
NEG = 120
ASSUMPTIONS = ['files are not changed by other programs while a storage keeps their contents in memory', 'keys are day numbers given as int']
KINDS = ['state', 'std', 'sample', 'prior', 'measurement']
CLASSES = ['mem_st', 'mem_sp', 'file_st', 'file_sp', 'delayed', 'flex', 'indexed', 'batched']
TODAY = [0, 58, 59, 364, 365, 54786, 54787, 55151]

def none(): return dict(k='none', p='', m=[], l=[], t=[])

def place(rng, cls, kind, writing, times, pool):
    """where one kind is kept: taken from a small pool of paths so that objects share files"""
    path = lambda t: rng.choice(pool) if rng.random() < 0.25 else 'd%d/%s_%s.pickle' % (rng.randint(0, 1), kind, t)
    if rng.random() < 0.15: return none()
    if cls in ('mem_st', 'mem_sp'): return none()
    if cls == 'file_st' and kind == 'measurement' and not writing: return dict(none(), k='list', l=[path(t) for t in range(rng.choice([0, 1, 3, 4]))])
    if cls == 'batched' and kind == 'measurement' and not writing: return dict(none(), k='list', l=[path('all') for _ in range(rng.choice([0, 1, 1, 1, 2]))])
    if cls == 'file_sp' and kind == 'measurement': return none()
    if cls in ('file_st', 'file_sp', 'batched'): return dict(none(), k='one', p=path(rng.choice(times) if cls == 'file_sp' or kind == 'measurement' else 'x'))
    if cls == 'delayed':
        if kind == 'prior': return none()
        if rng.random() < 0.3: return dict(none(), k='list', l=[path(t) for t in range(rng.choice([0, 2, 3]))])
        return dict(none(), k='map', m=[[t, path(t)] for t in times if rng.random() < 0.8])
    if cls == 'flex':
        return dict(none(), k='pat', t=rng.choice([[['d%d' % rng.randint(0, 1)], [kind, '_', '%Y', '%m', '%d']], [['%Y'], ['%m', '%d', kind]], [[kind, '%d', '.p']], [['d0'], [kind, '%Y', '%m']]]))
    return dict(none(), k='list', l=[path(t) for t in times])

def scenarios(rng, tier, model):
    big = tier != 'quick'
    base = dict(none())
    for m in rng.sample(model, min(len(model), 150 if not big else 700)):
        times = [3, 4]
        acts = []
        for c in CLASSES + ['cached']:
            def W(kind, c=c):
                if c == 'file_sp' and kind != 'measurement': return dict(base, k='one', p='%s/%s3' % (c, kind))
                if c in ('batched', 'cached', 'file_st') and kind != 'measurement': return dict(base, k='one', p='%s/%s' % (c, kind))
                if c == 'delayed': return dict(base, k='map', m=[[t, '%s/%s%d' % (c, kind, t)] for t in times])
                if c == 'flex': return dict(base, k='pat', t=[[c], [kind, '%Y', '%m', '%d']])
                if c == 'indexed': return dict(base, k='list', l=['%s/%s%d' % (c, kind, t) for t in times])
                return none()
            acts.append(dict(a='new', id=c, cls='batched' if c == 'cached' else c, time=3, keep=c == 'cached', hastimes=True, times=times, rd={k: W(k) for k in KINDS}, wr={k: W(k) for k in KINDS}))
        ren = dict(zip(('state', 'sample'), rng.sample(KINDS[:4], 2)))          # the two kinds of the model stand for any two
        for e in m['log']: acts += [dict(a=e['a'], id=c, kind=ren[e['kind']], t=e['t'], v=e['v']) for c in CLASSES + ['cached']]
        acts += [dict(a='read', id=c, kind=k, t=t) for c in CLASSES + ['cached'] for k in ren.values() for t in (3, 4, 9)]
        yield dict(acts=acts)
    # every class, kind and time: written in one order, read back twice in another, with times before, between and after those set up
    for cls in CLASSES + ['cached']:
        for rep in range(4 if not big else 20):
            c = 'batched' if cls == 'cached' else cls
            times = [0, 1, 2] if rep % 2 else rng.sample([3, 4, 9, 58], 3)
            def W(kind, writing):
                n = lambda t: '%s_%s' % (kind, t)
                if c.startswith('mem'): return none()
                if c in ('file_st', 'batched') and kind == 'measurement' and not writing: return dict(none(), k='list', l=[n(times[0])] * (2 if c == 'file_st' else 1))
                if c == 'file_sp' and kind == 'measurement' or c == 'delayed' and kind == 'prior': return none()
                if c in ('file_sp', 'file_st', 'batched'): return dict(none(), k='one', p=n(times[0]))
                if c == 'delayed': return dict(none(), k='map', m=[[t, n(t)] for t in times])
                if c == 'flex': return dict(none(), k='pat', t=[['d'], [kind, '%Y', '%m', '%d']])
                return dict(none(), k='list', l=[n(t) for t in times])
            acts = [dict(a='new', id=i, cls=c, time=times[0], keep=cls == 'cached', hastimes=c == 'indexed' and not rep % 2, times=times if c == 'indexed' and not rep % 2 else [], rd={q: W(q, False) for q in KINDS}, wr={q: W(q, True) for q in KINDS}) for i in ('a', 'b')]
            v = iter(range(1, 100))
            todo = [(k, t) for k in KINDS if usable(c, k) for t in times]
            for k, t in rng.sample(todo, len(todo)): acts.append(dict(a='write', id='a', kind=k, t=t, v=next(v), via=rng.randint(0, 1)))
            asked = times + [t for t in (-1, -2, 3, 5) if t not in times and not (c == 'flex' and t < 0)]
            todo = [(k, t) for k in KINDS if usable(c, k) for t in asked]
            for turn in range(2):
                for k, t in rng.sample(todo, len(todo)): acts += [dict(a='read', id=i, kind=k, t=t, via=rng.randint(0, 1)) for i in (('a', 'a') if rng.random() < 0.5 else ('a', 'b'))]
            k, t = rng.choice([(k, t) for k, t in todo if t in times]); acts.append(dict(a='write', id='b', kind=k, t=t, v=next(v)))
            acts += [dict(a='read', id=i, kind=k2, t=t2) for i in ('b', 'a') for k2, t2 in todo if t2 in times]
            yield dict(acts=acts + [dict(a='times', id='a'), dict(a='files')])
    for i in range(260 if not big else 3000):
        times = sorted(rng.sample(TODAY, 4)) if rng.random() < 0.5 else [0, 1, 2, 3]
        pool = ['s%d' % k for k in range(3)]
        acts, ids = [], []
        for k in range(rng.choice([1, 2, 3, 4])):
            cls = rng.choice(CLASSES); hast = cls == 'indexed' and rng.random() < 0.6
            tl = rng.sample(times, rng.choice([2, 3, 4])) if hast else []
            if hast and rng.random() < 0.2: tl.append(rng.choice(tl))
            rd = {q: place(rng, cls, q, False, tl if hast else [0, 1, 2] if cls == 'indexed' else times, pool) for q in KINDS}
            wr = {q: place(rng, cls, q, True, tl if hast else [0, 1, 2] if cls == 'indexed' else times, pool) for q in KINDS}
            if rng.random() < 0.4:
                wr = {q: (rd[q] if not (q == 'measurement' and cls in ('file_st', 'batched')) else wr[q]) for q in KINDS}
            acts.append(dict(a='new', id='o%d' % k, cls=cls, time=rng.choice(times), keep=cls == 'batched' and rng.random() < 0.6, hastimes=hast, times=tl, rd=rd, wr=wr)); ids.append('o%d' % k)
        # writes mostly where they can succeed
        order = rng.randint(6, 40)
        objs = {a['id']: a for a in acts}
        for k in range(order):
            o = rng.choice(ids); kind = rng.choice(KINDS); t = rng.choice(times + [0, 1, 2] if rng.random() < 0.9 else [-1, 9, 7])
            if objs[o]['cls'] in ('file_sp', 'file_st') and rng.random() < 0.6: t = objs[o]['time']
            if objs[o]['cls'] == 'flex' and t < 0: t = 0
            if not usable(objs[o]['cls'], kind): continue
            acts.append(dict(a=rng.choice(['write', 'read', 'read']), id=o, kind=kind, t=t, v=rng.randint(0, 40), via=rng.randint(0, 1)))
        acts += [dict(a='times', id=o) for o in ids] + [dict(a='files')]
        yield dict(acts=acts)

def usable(cls, kind):
    if cls == 'file_sp': return kind != 'measurement'
    if cls == 'delayed': return kind != 'prior'
    return True

def value(v, kind):
    import numpy
    if kind == 'measurement':
        import scipy.sparse
        from eustace.analysis.advanced_standard.linalg.linearsystem import MeasurementUpdate
        return MeasurementUpdate(scipy.sparse.csc_matrix(numpy.eye(2) * v), numpy.array([[v], [v / 2.0]]))
    a = numpy.array([v, v / 2.0, 0.0], 'f8')
    return a.reshape(3, 1) if v % 2 else a

def unvalue(x):
    import numpy
    if x is None: return -1
    try:
        if hasattr(x, 'information_vector'):
            v = int(x.information_vector[0, 0]); y = value(v, 'measurement')
            return v if numpy.array_equal(y.information_vector, x.information_vector) and numpy.array_equal(y.information_precision.todense(), x.information_precision.todense()) else 'altered'
        v = int(x.ravel()[0]); y = value(v, '')
        return v if y.shape == x.shape and numpy.array_equal(x, y) and x.dtype == y.dtype else 'altered'
    except Exception: return 'altered'

NAMES = dict(state=('state',), std=('state_marginal_std',), sample=('state_sample',), prior=('state_prior_sample',), measurement=('measurement',))
def method(o, cls, kind, what, via):
    n = NAMES[kind][0]
    if kind != 'measurement' and (cls in ('mem_sp', 'file_sp', 'flex') or (cls == 'indexed' and via) or (cls == 'delayed' and via and kind in ('state', 'std'))): n = 'partial_' + n
    return getattr(o, '%s_%s' % (n, what))

def make(x, tmp):
    from eustace.analysis.advanced_standard.components import storage_inmemory as M, storage_files as F, storage_files_batch as B
    c = x['cls']; P = lambda p: os.path.join(tmp, p)
    if c == 'mem_st': return M.SpaceTimeComponentSolutionStorage_InMemory()
    if c == 'mem_sp': return M.SpatialComponentSolutionStorage_InMemory()
    def val(w):
        if w['k'] == 'none': return None
        if w['k'] == 'one': return P(w['p'])
        if w['k'] == 'list': return [P(p) for p in w['l']]
        if w['k'] == 'map': return {t: P(p) for t, p in w['m']}
        q = [''.join(t) for t in w['t']]; return [P(q[0])] + q[1:]
    kw = {}
    for d, ab in (('rd', 'read'), ('wr', 'write')):
        for kind in KINDS:
            w = x[d][kind]
            if c in ('file_st', 'file_sp', 'batched'):
                name = dict(state='statefilename_', std='marginal_std_filename_', sample='sample_filename_', prior='prior_sample_filename_', measurement='measurementfilename_' if ab == 'write' else 'measurementfilelist_')[kind] + ab
                if c == 'file_sp' and kind == 'measurement': continue
            elif c == 'delayed': name = dict(state='statefile', std='marginal_std_file', sample='sample_file', prior='prior_sample_file', measurement='measurementfile')[kind] + 'dictionary_' + ab
            elif c == 'indexed': name = dict(state='statefile', std='marginal_std_file', sample='sample_file', prior='prior_sample_file', measurement='measurementfile')[kind] + 'list_' + ab
            else: name = dict(state='state', std='marginal_std', sample='sample', prior='prior_sample', measurement='measurement')[kind] + '_%s_pattern' % ab
            if not (w['k'] == 'none' and x['id'] == 'o1'): kw[name] = val(w)      # left to the default in one object
    if c == 'file_st': return F.SpaceTimeComponentSolutionStorage_Files(measurement_time_index_write=x['time'], **kw)
    if c == 'file_sp': return F.SpatialComponentSolutionStorage_Files(time_index=x['time'], **kw)
    if c == 'delayed': return F.DelayedSpatialComponentSolutionStorage_Files(**kw)
    if c == 'flex': return F.DelayedSpatialComponentSolutionStorageFlexible_Files(**kw)
    if c == 'indexed': return B.SpatialComponentSolutionStorageIndexed_Files(time_list=list(x['times']) if x['hastimes'] else None, **kw)
    return B.SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=x['keep'], **kw)

def execute(sc, rec, tmp):
    root = os.path.join(tmp, 'store'); os.makedirs(root)
    objs = {}
    from eustace.analysis.advanced_standard.components import storage_files as F
    for x in sc['acts']:
        a = x['a']
        if a == 'new':
            objs[x['id']] = (make(x, root), x['cls']); rec('new', **{'in': {k: v for k, v in x.items() if k != 'a'}})
        elif a == 'files':
            l = []
            for d, _, fs in os.walk(root): l += [[os.path.relpath(os.path.join(d, f), root), unvalue(F.readpickle(os.path.join(d, f)))] for f in fs]
            rec('files', **{'in': {}, 'out': dict(l=sorted(l))})
        elif a == 'times':
            o, c = objs[x['id']]
            try:
                r = o.timeindices_read()
                out = dict(k='none', l=[]) if r is None else dict(k='list', l=[int(t) for t in r])
                if c.startswith('mem'): out['l'].sort()
            except Exception: out = dict(k='refused', l=[])
            rec('times', **{'in': dict(id=x['id']), 'out': out})
        else:
            o, c = objs[x['id']]; kind = x['kind']
            if not usable(c, kind): continue
            args = [x['t']] if kind == 'measurement' or c in ('mem_sp', 'file_sp', 'delayed', 'flex', 'indexed') else []
            i = dict(id=x['id'], kind=kind, t=x['t'])
            if a == 'write':
                try: method(o, c, kind, 'write', x.get('via', 0))(value(x['v'], kind), *args); ok = True
                except Exception: ok = False
                rec('write', **{'in': dict(i, v=x['v']), 'out': dict(ok=ok)})
            else:
                try: r = unvalue(method(o, c, kind, 'read', x.get('via', 0))(*args))
                except Exception: r = -2
                rec('read', **{'in': i, 'out': dict(r=r)})

def vacuity(traces):
    ev = lambda k: [e for t in traces for e in t['events'] if e['a'] == k]
    r = [e['out']['r'] for e in ev('read')]
    return dict(values=sum(not isinstance(x, str) and x >= 0 for x in r), nothing=r.count(-1), refused=r.count(-2), refused_writes=sum(not e['out']['ok'] for e in ev('write')), files=sum(len(e['out']['l']) for e in ev('files')))
