"""C01: classification of the files of a data set."""
import os
from datetime import datetime
MODELS = [dict(module='MC_Search.tla', cfg='MC_Search.cfg', tier='quick', workers=4), dict(module='MC_Search.tla', cfg='MC_SearchT.cfg', tier='thorough', workers=8)]
TRACE = 'T_C01'
BASE = datetime(1850, 1, 1)
ASSUMPTIONS = ['patterns do not repeat a field within one pattern and contain no regular-expression operators other than the documented sequences', 'archives are readable tar files']
DATES = ['%Y', '%m', '%d', '%H', '%M', '%S']

def make_patterns(rng):
    """One or two nested patterns as token lists, and a generator of names near them."""
    nested = rng.random() < 0.6
    tags = ['%A', '%B', '%C'][:rng.randint(0, 3)]
    if rng.random() < 0.1 and len(tags) > 1: tags = tags[1:]
    depth = rng.choice([0, 1, 2, 3, 3, 5, 6])
    dates = DATES[:depth]
    seps = ['_', '-', '', '.', '/', 'v', 'x']
    lits = ['data', 'a', 'f.', 'k_', '(1)', 'b+c'][:4] if True else []
    def seq(fields):
        out = []
        if rng.random() < 0.6: out.append(rng.choice(lits))
        for f in fields:
            out.append(f)
            if rng.random() < 0.6: out.append(rng.choice(seps))
        return [t for t in out if t]
    if not nested:
        fields = tags + dates
        if rng.random() < 0.5: rng.shuffle(fields)
        p = seq(fields) + (['?'] if rng.random() < 0.2 else []) + ([rng.choice(['.nc', '.bin', '.tar'])] if rng.random() < 0.8 else [])
        return [p] if p else [['data']]
    pf = [f for f in tags + dates if rng.random() < 0.5]
    if rng.random() < 0.5: rng.shuffle(pf)
    cf = [f for f in tags + dates if f not in pf or rng.random() < 0.5]
    if '%Y' not in pf + cf: pf = [f for f in pf if f not in DATES]; cf = [f for f in cf if f not in DATES]
    cf = [(f.lower() if f in tags and f in pf and rng.random() < 0.4 else f) for f in cf]
    if rng.random() < 0.3: rng.shuffle(cf)
    p0 = seq(pf); p0 = (p0 + ['/']) if p0 and rng.random() < 0.8 else p0
    p1 = seq(cf) + (['?'] if rng.random() < 0.15 else []) + ([rng.choice(['.nc', '.bin', '.tar'])] if rng.random() < 0.7 else [])
    return [p0 or ['d/'], p1 or ['data']]

VALUES = ['x', 'xy', 'y', 'yz', 'z', 'v1.0', 'v1x0', 'A', 'Ab', 'a_b', '+', 'a+', '(q)', '1', '12', 'x_', '']
def render(rng, p, vals, sloppy):
    out = ''
    for t in p:
        if t in DATES: 
            v = vals[t]
            if sloppy and rng.random() < 0.15: v = rng.choice(['9', '13', '00', 'ab', '2001', '29', '32'])
            out += v
        elif t in ('%A', '%B', '%C'): out += vals[t] if not (sloppy and rng.random() < 0.2) else rng.choice(VALUES)
        elif t in ('%a', '%b', '%c'): out += vals[t.upper()].lower() if not (sloppy and rng.random() < 0.3) else vals[t.upper()]
        elif t == '?': out += rng.choice('qZ0.')
        else: out += t if not (sloppy and rng.random() < 0.08) else t + rng.choice(['', 'w', '_'])
    return out

def name_for(rng, patterns):
    vals = {k: rng.choice(VALUES) for k in ('%A', '%B', '%C')}
    vals.update({'%Y': rng.choice(['1850', '2000', '2001', '2004', '0000']) if rng.random() < 0.95 else '1900', '%m': rng.choice(['01', '02', '02', '04', '12', '13', '00']), '%d': rng.choice(['01', '15', '28', '29', '30', '31', '00', '32']), '%H': rng.choice(['00', '23', '24', '05']), '%M': rng.choice(['00', '59', '60']), '%S': rng.choice(['00', '59', '60', '07'])})
    s = rng.random() < 0.4
    n = ''.join(render(rng, p, vals, s) for p in patterns)
    if rng.random() < 0.1: n += rng.choice(['x', '.bak', '~'])
    return n

def clean(n):
    parts = [x for x in n.split('/') if x not in ('', '.', '..')]
    return '/'.join(parts)

def scenarios(rng, tier, model):
    for m in (rng.sample(model, min(len(model), 150)) if tier == 'quick' else rng.sample(model, min(len(model), 1500))):
        yield dict(subsets=[dict(kind='files', patterns=m['patterns'])], trees=[[[f, []] for f in sorted(m['files'])]])
    for i in range(350 if tier == 'quick' else 1500):
        subs, gens = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.22:
                arch = [rng.choice(['arc', 'x_']), '%Y'] + (['%m'] if rng.random() < 0.5 else []) + [rng.choice(['.tar', '.tgz'])]
                if rng.random() < 0.3: arch = ['%A', '/', 'arc.tar']
                inner = make_patterns(rng)
                while len(inner) > 1 or any(t in ('%a','%b','%c') for t in inner[0]): inner = make_patterns(rng)
                subs.append(dict(kind=rng.choice(['tar', 'tar-gzip']), archive=arch, internal=inner[0])); gens.append(('arch', [arch], inner))
            else:
                p = make_patterns(rng); subs.append(dict(kind='files', patterns=p)); gens.append(('files', p, None))
        def tree(prev):
            t = dict(prev)
            for k in list(t):
                if rng.random() < 0.3: del t[k]
            for _ in range(rng.randint(0, 10)):
                kind, p, inner = rng.choice(gens)
                n = clean(name_for(rng, p)) if rng.random() < 0.93 else rng.choice(['stray', '.hidden', 'd/e/f', 'README'])
                if not n or len(n) > 34: continue
                t[n] = []
                if rng.random() < 0.5 and '/' in n: t[n.rsplit('/', 1)[0] + '/other'] = []
            for k in t:
                if '.tar' in k or '.tgz' in k:
                    ins = [g[2] for g in gens if g[0] == 'arch']
                    if ins: t[k] = sorted(set(x for x in (clean(name_for(rng, rng.choice(ins))) for _ in range(rng.randint(0, 6))) if x))
            # a name cannot be both file and directory
            t = {k: v for k, v in t.items() if not any(o != k and o.startswith(k + '/') for o in t)}
            return t
        trees = []; cur = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            cur = tree(cur); trees.append(sorted([k, v] for k, v in cur.items()))
        yield dict(subsets=subs, trees=trees)

def execute(sc, rec, tmp):
    import tarfile, shutil, io
    from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
    from eumopps.catalogue.storage import DataStorageFiles, DataStorageTar, DataStorageTarGZip
    base = os.path.join(tmp, 'base')
    kinds = {'tar': DataStorageTar, 'tar-gzip': DataStorageTarGZip}
    subs = [CatalogueDataSubset(layout=DataStorageFiles([''.join(p) for p in s['patterns']]) if s['kind'] == 'files' else kinds[s['kind']](''.join(s['archive']), ''.join(s['internal']))) for s in sc['subsets']]
    ds = CatalogueDataSet(name='d', path=base, subsets=subs)
    rec('describe', **{'in': dict(subsets=[dict(s, kind='files') if s['kind'] == 'files' else dict(s, kind='tar') for s in sc['subsets']])})
    def arch_class(n):
        return any(s['kind'] != 'files' for s in sc['subsets']) and ('.tar' in n or '.tgz' in n)
    for tree in sc['trees']:
        if os.path.exists(base): shutil.rmtree(base)
        os.makedirs(os.path.join(base, 'emptydir'))
        gz = any(s['kind'] == 'tar-gzip' for s in sc['subsets'])
        for n, members in tree:
            p = os.path.join(base, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            k = arch_class(n)
            if k:
                with tarfile.open(p, 'w:gz' if gz else 'w') as t:
                    for m in members:
                        ti = tarfile.TarInfo(m); ti.size = 1; t.addfile(ti, io.BytesIO(b'z'))
            else: open(p, 'w').close()
        rec('tree', **{'in': dict(names=[n for n, m in tree], members=[m for n, m in tree])})
        for _ in range(2):
            ds.search()
            def entry(e):
                td = None if e.time is None else e.time - BASE
                return dict(name=e.name, time=dict(d=-1, s=-1, u=-1) if td is None else dict(d=td.days, s=td.seconds, u=td.microseconds), tags=list(e.tags))
            rec('search', **{'in': {}, 'out': dict(unmatched=list(ds.non_matching), subsets=[dict(matches=[entry(e) for e in s.matches], errors=list(s.value_errors), unused=[x for q in s.archive_unused for x in q]) for s in ds.subsets])})

def vacuity(traces):
    ev = [e for t in traces for e in t['events'] if e['a'] == 'search']
    return dict(searches=len(ev), entries=sum(len(s['matches']) for e in ev for s in e['out']['subsets']), date_errors=sum(len(s['errors']) for e in ev for s in e['out']['subsets']), unmatched=sum(len(e['out']['unmatched']) for e in ev), archive_members=sum(1 for e in ev for s in e['out']['subsets'] for m in s['matches'] if ':' in m['name']))
