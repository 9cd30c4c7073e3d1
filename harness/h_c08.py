"""C08: what was written is read back."""
import datetime, os
TRACE = 'T_C08'
MODELS = [dict(module='MC_Store.tla', cfg='MC_Store.cfg', tier='quick', workers=4), dict(module='MC_Store.tla', cfg='MC_StoreT.cfg', tier='thorough', workers=6)]
ASSUMPTIONS = ['text is ASCII without NUL; times are whole seconds; numbers fit 64 bits', 'a missing text, the empty text, an empty list and a list of nothing count as the same; rows of text tables may be padded with empty texts; missing numbers inside rows of number tables are not kept',
               'text descriptors leave out members that are zero, empty or missing']

# ---- values <-> descriptions
def to_tree(v):
    import numpy
    if v is None or v is numpy.ma.masked: return dict(k='n', v='')
    if isinstance(v, (bool, numpy.bool_)): return dict(k='i', v=str(int(v)))
    if isinstance(v, (int, numpy.integer)): return dict(k='i', v=str(int(v)))
    if isinstance(v, (float, numpy.floating)): return dict(k='f', v=repr(float(v)))
    if isinstance(v, str): return dict(k='s', v=v)
    if isinstance(v, datetime.datetime): return dict(k='t', v=v.strftime('%Y%m%d%H%M%S').zfill(14) + ('.%06d' % v.microsecond if v.microsecond else ''))
    if isinstance(v, numpy.ma.MaskedArray) and v.ndim == 0: return dict(k='n', v='') if v.mask else to_tree(v.item())
    if isinstance(v, numpy.ndarray): return to_tree(v.tolist())
    if isinstance(v, (list, tuple)): return dict(k='l', v=[to_tree(x) for x in v])
    if isinstance(v, dict): return dict(k='o', c='', m=[dict(key=k, val=to_tree(v[k])) for k in sorted(v) if k != 'Conventions'])
    return dict(k='o', c=v.__class__.__module__ + '.' + v.__class__.__name__, m=[dict(key=k, val=to_tree(v.__dict__[k])) for k in sorted(v.__dict__)])

def from_tree(t):
    import importlib
    k = t['k']
    if k == 'n': return None
    if k == 'i': return int(t['v'])
    if k == 'f': return float(t['v'])
    if k == 's': return t['v']
    if k == 't': return datetime.datetime.strptime(t['v'], '%Y%m%d%H%M%S')
    if k == 'l': return [from_tree(x) for x in t['v']]
    m = {x['key']: from_tree(x['val']) for x in t['m']}
    c = t['c']
    if not c: return m
    if c == 'K': c = 'vrec.rec.K'
    mod, cls = c.rsplit('.', 1)
    return getattr(importlib.import_module(mod), cls)(**m)

class Obs(object): pass

def save_load(path, v):
    from eumopps.netcdfobjects import netcdfobjects as n
    nc = n.nc_open_for_save(path)
    try: n.save_complex_python_object(nc, None, v)
    finally: nc.close()
    nc = n.nc_open_for_load(path)
    try: return n.load_object(nc)
    finally: nc.close()

def execute(sc, rec, tmp):
    import io
    from eumopps.jsonobjects import jsonobjects
    if 'tree' in sc:
        v = from_tree(sc['tree'])
        want = to_tree(v)
        try:
            b = save_load('x.nc', v); out = dict(ok=True, back=to_tree(b))
            if isinstance(b, dict): b.pop('Conventions', None)
            try: out.update(ok2=True, again=to_tree(save_load('y.nc', b)))
            except (ValueError, TypeError, RuntimeError, KeyError, AttributeError): out['ok2'] = False
        except (ValueError, TypeError, RuntimeError, KeyError, AttributeError): out = dict(ok=False)
        rec('store', **{'in': dict(val=want), 'out': out})
        s = io.StringIO(); jsonobjects.save(s, from_tree(sc['tree']))
        rec('text', **{'in': dict(val=want), 'out': dict(back=to_tree(jsonobjects.load(io.StringIO(s.getvalue()))))})
        return
    from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF, CatalogueWriterNetCDF
    from eumopps.catalogue.fileio.formatjson import CatalogueReaderJSON, CatalogueWriterJSON
    from eumopps.catalogue.datareference import DataReference
    for k, tree in enumerate(sc['catalogues']):
        c = from_tree(tree); want = to_tree(c)
        CatalogueWriterNetCDF().save('c.nc', c)
        rd = CatalogueReaderNetCDF()
        rec('catalogue', **{'in': dict(val=want), 'out': dict(ok=True, back=to_tree(rd.load('c.nc')))})
        rec('identity', out=dict(id=rd.load_identifier('c.nc')))
        for q in sc['queries'][k]:
            try:
                op = rd.load_operation('c.nc', q); n = rd.operationcount('c.nc', q); b = [int(rd.operationcount('c.nc', q, z)) for z in range(1, 9)]
                out = dict(ok=op is not None, op=to_tree(op), count=int(n), batches=b)
            except (ValueError, AttributeError, KeyError): out = dict(ok=False)
            rec('operation', **{'in': dict(q=q), 'out': out})
        for r in sc['refs'][k]:
            p = rd.load_data_pathnames('c.nc', [DataReference(*x) for x in r])
            rec('paths', **{'in': dict(refs=r), 'out': dict(paths=['<none>' if x is None else x for x in p])})
        if sc.get('text'):
            CatalogueWriterJSON().save('c.json', c)
            rec('text', **{'in': dict(val=want), 'out': dict(back=to_tree(CatalogueReaderJSON().load('c.json')))})

# ---- generation
N = dict(k='n', v='')
WORDS = ['', 'a', 'b ', ' c', 'x_%Y%m%d.nc', 'a/b:c', '0', 'None', 'quite a bit longer than the others, really', 'é'.encode('ascii', 'ignore').decode() + "q'\"", '{}']
def scalar(rng, k):
    if k == 's': return dict(k='s', v=rng.choice(WORDS))
    if k == 'i': return dict(k='i', v=str(rng.choice([0, 1, -1, 7, 2**31, -2**40, 2**62, rng.randint(-1000, 1000)])))
    if k == 'f': return dict(k='f', v=repr(rng.choice([0.0, 1.5, -2.25, 1e-300, 3.141592653589793, rng.uniform(-9, 9)])))
    t = datetime.datetime(1850, 1, 1) + datetime.timedelta(seconds=rng.choice([0, 1, 86399, -1, -86400 * 40000, rng.randint(0, 9 * 10**9)]))
    return dict(k='t', v=t.strftime('%Y%m%d%H%M%S').zfill(14))

def flist(rng, k, n=None, gaps=True):
    n = rng.choice([0, 1, 2, 3, 5]) if n is None else n
    return dict(k='l', v=[N if gaps and rng.random() < 0.2 else scalar(rng, k) for _ in range(n)])

def value(rng, depth, key=''):
    r = rng.random()
    if depth == 0 or r < 0.3: return scalar(rng, rng.choice('sift')) if rng.random() < 0.9 else N
    if r < 0.45: return flist(rng, rng.choice('sift'))
    if r < 0.57:
        k = rng.choice('sif' if rng.random() < 0.95 else 't')
        return dict(k='l', v=[N if rng.random() < 0.1 else flist(rng, k, gaps=k == 's') for _ in range(rng.choice([1, 2, 3, 4]))])
    if r < 0.75: return obj(rng, depth - 1)
    if r < 0.97:
        if rng.random() < 0.5:                       # alike
            keys = rng.sample(['name', 'time', 'tags', 'size', 'p'], rng.randint(0, 4)); kinds = {x: rng.choice('sift') for x in keys}; lists = {x: rng.random() < 0.3 for x in keys}
            c = rng.choice(['', 'vrec.rec.K'])
            return dict(k='l', v=[dict(k='o', c=c, m=[dict(key=x, val=N if rng.random() < 0.15 else flist(rng, kinds[x] if kinds[x] != 't' else 'i', gaps=kinds[x] == 's') if lists[x] else scalar(rng, kinds[x])) for x in sorted(keys)]) for _ in range(rng.choice([1, 2, 3, 11]))])
        return dict(k='l', v=[obj(rng, depth - 1) for _ in range(rng.choice([1, 2, 3]))])
    return dict(k='l', v=[scalar(rng, rng.choice('sift')) for _ in range(3)])     # usually not storable

def obj(rng, depth):
    keys = rng.sample(['name', 'time', 'tags', 'size', 'p', 'q', 'subsets', 'count'], rng.randint(0, 4))
    return dict(k='o', c=rng.choice(['', 'vrec.rec.K', 'vrec.rec.K2']), m=[dict(key=x, val=value(rng, depth)) for x in sorted(keys)])

def catalogue(rng):
    """A catalogue of the real classes, as constructor descriptions."""
    o = lambda c, **m: dict(k='o', c=c, m=[dict(key=k, val=m[k]) for k in sorted(m)])
    s = lambda x: dict(k='s', v=x)
    i = lambda x: dict(k='i', v=str(x))
    l = lambda q: dict(k='l', v=list(q))
    C = 'eumopps.catalogue.'
    refs = []; ds = []
    for d in range(rng.choice([0, 1, 2, 3])):
        subs = []
        for b in range(rng.choice([1, 1, 2])):
            tags = rng.random() < 0.6; ntag = rng.randint(1, 3); times = rng.random() < 0.8; sums = rng.random() < 0.6
            n = rng.choice([0, 1, 2, 5, 30])
            ents = []
            for e in range(n):
                m = dict(name=s('%s%d%s' % (rng.choice(['f_', 'dir/f.', 'x ']), e, rng.choice(['', '.nc', '.tar.gz:inner/name']))))
                m['time'] = scalar(rng, 't') if times and rng.random() < 0.95 else N
                m['tags'] = l(s(rng.choice(['a', 'bb', '', 'zz9'])) for _ in range(ntag)) if tags else l([])
                m['checksum'] = s('%08d' % rng.randint(0, 10**8)) if sums and rng.random() < 0.9 else N
                m['size'] = i(rng.randint(0, 2**40)) if m['checksum'] is not N else N
                ents.append(o(C + 'dataset.CatalogueFileEntry', **m))
            if rng.random() < 0.75: layout = o(C + 'storage.DataStorageFiles', patterns=l(s(x) for x in rng.choice([['%Y/', 'f%m'], ['a'], ['x', 'y', 'z']])))
            else: layout = o(C + 'storage.' + rng.choice(['DataStorageTar', 'DataStorageTarGZip']), archivepathname=s('a%Y.tar'), internalpathname=s('b/%m'))
            m = dict(layout=layout, matches=l(ents))
            if rng.random() < 0.4: m['value_errors'] = l(s('bad%d' % x) for x in range(rng.randint(0, 3)))
            if rng.random() < 0.3: m['archive_unused'] = l(l(s('u%d' % x * (x + 1)) for x in range(rng.randint(0, 3))) for _ in range(rng.randint(1, 3)))
            subs.append(o(C + 'dataset.CatalogueDataSubset', **m))
            refs += [[d, b, e] for e in range(n)] + [[d, b, -1]]
        m = dict(name=s('ds%d' % d), path=s('/p/q%d' % d), subsets=l(subs))
        if rng.random() < 0.4: m['non_matching'] = l(s('n%d' % x) for x in range(rng.randint(0, 3)))
        if rng.random() < 0.4: m['toolchain'] = l(s('svn %d' % x) for x in range(2))
        ds.append(o(C + 'dataset.CatalogueDataSet', **m))
    ops = []; names = []
    for k in range(rng.choice([0, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 4])
        pick = lambda: rng.choice(refs) if refs else [0, 0, -1]
        params = {}
        for p in rng.sample(['pa', 'pb', 'pc', 'pd', 'pe', 'pf'], rng.randint(0, 5)):
            r = rng.random()
            if r < 0.25: v = o(C + 'operationparameters.OperationFileReference', operation_parameters=l(l(i(x) for x in pick()) for _ in range(n)))
            elif r < 0.45: v = o(C + 'operationparameters.OperationFileListReference', operation_parameters=l(l(i(x) for _ in range(rng.randint(0, 3)) for x in pick()) for _ in range(n)))
            elif r < 0.6: v = o(C + 'operationparameters.OperationParameterList', operation_parameters=flist(rng, rng.choice('sit'), n, False))
            elif r < 0.68: v = o(C + 'operationparameters.OperationTimeStamp')
            elif r < 0.76: v = o(C + 'operationparameters.OperationCatalogueID')
            elif r < 0.84: v = l(rng.choice([o(C + 'operationparameters.OperationCatalogueID'), o(C + 'operationparameters.OperationTimeStamp'), o(C + 'operationparameters.OperationParameterList', operation_parameters=flist(rng, 'i', n, False))]) for _ in range(2))
            elif r < 0.92: v = o('', ref=o(C + 'operationparameters.OperationFileReference', operation_parameters=l(l(i(x) for x in pick()) for _ in range(n))), cst=scalar(rng, rng.choice("sit")))
            else: v = scalar(rng, rng.choice('sift'))
            params[p] = v
        if rng.random() < 0.5: tgt = rng.choice(['vrec.rec.Module', 'vrec.rec.Module2']); rm = o(tgt, **params)
        else: tgt = rng.choice(['vrec.rec.run', 'vrec.rec.run2']); rm = o('', python_function=s(tgt), **params)
        st = rng.random()
        step = o(C + 'step.StepOnce') if st < 0.3 else o(C + 'step.StepDaily', start=scalar(rng, 't'), end=scalar(rng, 't')) if st < 0.7 else o('eustace.analysis.advanced_standard.examples.step.StepAnnual', start=scalar(rng, 't'), end=scalar(rng, 't'))
        name = rng.choice(['', 'op', 'op%d' % k, 'op%d' % k])
        m = dict(runmodule=rm, step=step, count=i(n), toolchain=l(s('v%d' % x) for x in range(2)))
        if name: m['name'] = s(name)
        ops.append(o(C + 'operation.Operation', **m)); names += [name or 'zz', tgt]
    cat = o(C + 'catalogue.Catalogue', datasets=l(ds), operations=l(ops), identifier=s('id-%d' % rng.randint(0, 10**9)))
    q = rng.sample(sorted(set(names + ['nosuch'])), min(4, len(set(names)) + 1)) if ops else []
    rs = [[rng.choice(refs) for _ in range(rng.randint(1, 4))] for _ in range(3)] if refs else []
    return cat, q, rs

def scenarios(rng, tier, model):
    quick = tier == 'quick'
    for m in (rng.sample(model, min(160, len(model))) if quick else model): yield dict(tree=m)
    for _ in range(260 if quick else 3000): yield dict(tree=dict(k='o', c='', m=[dict(key='x', val=value(rng, 3)), dict(key='y', val=value(rng, 2))]))
    for _ in range(140 if quick else 1500):
        cs = [catalogue(rng) for _ in range(rng.choice([1, 1, 2]))]
        yield dict(catalogues=[c[0] for c in cs], queries=[c[1] for c in cs], refs=[c[2] for c in cs], text=rng.random() < 0.5)

def vacuity(traces):
    ev = lambda k: [e for t in traces for e in t['events'] if e['a'] == k]
    return dict(stored=sum(e['out']['ok'] for e in ev('store')), refused=sum(not e['out']['ok'] for e in ev('store')), catalogues=len(ev('catalogue')), operations_read=sum(e['out']['ok'] for e in ev('operation')), paths=len(ev('paths')), texts=len(ev('text')))
