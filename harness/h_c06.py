"""C06: what builds, updates, refusals and crashes leave behind."""
import eum
from eum import execute, MODELS, ASSUMPTIONS
TRACE = 'T_Cat'

def scenarios(rng, tier, model):
    yield from eum.model_scenarios(rng, model, 80 if tier == 'quick' else 1000)
    for i in range(130 if tier == 'quick' else 1200):
        g = eum.Gen(rng)
        g.kind = rng.choice(['daily', 'daily', 'monthly', 'once', 'annual'])
        if rng.random() < 0.7: g.pol = ['allowed', 'skip']
        names = []
        acts = []
        ver = 100
        avail = []
        for k in range(rng.choice([2, 3, 3, 4])):
            ds = [g.dataset(density=rng.choice([1.0, 0.6, 0.3])) for _ in range(rng.choice([0, 1, 1, 2]) if k else 1)]
            if k and ds and rng.random() < 0.15:                  # same name again
                ds[0] = dict(ds[0], name=rng.choice(avail)); g.clean.discard(ds[0]['name'])
            src = avail + [d['name'] for d in ds]
            ops = [g.operation('op%d' % len(names), [rng.choice(src) for _ in range(rng.choice([1, 1, 2]))], outputs=rng.choice([0, 1, 1]), target='vrec.rec.' + rng.choice(['run', 'Module']))] if rng.random() < 0.75 or not ds else []
            new = [o['name'] for o in ops]; outs = [d['name'] for o in ops for d in o['newdatasets']]
            if rng.random() < 0.4: ver += 1
            acts += [['files', {d: list(v) for d, v in g.dirs.items()}], ['code', rng.choice([str(ver)] * 6 + ['mixed']), '1']]
            if rng.random() < 0.3:                                # files vanish, appear
                d = rng.choice(sorted(g.dirs)); g.dirs[d] = g.dirs[d][:rng.randint(0, len(g.dirs[d]))]
            mode = 'update' if k else 'new'
            r = rng.random()
            desc = dict(datasets=ds, operations=ops)
            filt = '' if rng.random() < 0.85 else rng.choice(src + ['nosuch'])
            pd = '$/o' if rng.random() < 0.9 else ''
            via = rng.choice(['function', 'function', 'main'])
            allow = rng.random() < 0.5
            if r < 0.15: acts.append(['build', desc, rng.choice(['new', 'overwrite', 'update']), filt, pd, allow, rng.choice(['json', 'missing', 'class']), via])
            elif r < 0.3: acts.append(['build', desc, 'new', filt, pd, allow, '', via])
            if rng.random() < 0.45: acts.append(['crashbuild', desc, rng.choice([mode, mode, 'overwrite']), filt, pd, allow, [rng.choice([0, 100, 5000, 8192, 9000, 12000, 20000, 30000, 60000, 100000, 10**7]), rng.choice(['kill', 'error'])]])
            acts.append(['build', desc, mode if rng.random() < 0.9 else 'overwrite', filt, pd, allow, '', via])
            names += new; avail = src + outs
            acts += eum.exercise(names, rng, 3, allow=True)
        yield dict(actions=acts)

vacuity = eum.cat_vacuity
