"""C05: counting and running in batches."""
import eum
from eum import execute, MODELS, ASSUMPTIONS
TRACE = 'T_Cat'

def scenarios(rng, tier, model):
    yield from eum.model_scenarios(rng, model, 20 if tier == 'quick' else 500)
    for i in range(150 if tier == 'quick' else 1200):
        g = eum.Gen(rng)
        g.kind = rng.choice(['daily', 'daily', 'once', 'monthly'])
        n = rng.choice([1, 2, 3, 4, 5, 7]); g.period = (g.t0, eum.plus(g.t0, n - 1))
        g.pol = ['allowed', 'skip']; g.dup = 0.01
        ds = [g.dataset(density=rng.choice([1.0, 0.6, 0.9]))]
        names = ['op', 'op2', '']
        ops = []
        for k in range(rng.choice([1, 1, 2, 3])):
            ops.append(g.operation(names[k] if rng.random() < 0.85 else 'op', [ds[0]['name']], outputs=rng.choice([0, 1]), target='vrec.rec.' + rng.choice(['run', 'run2', 'Module', 'Module2'])))
            if ops[-1]['params'] and rng.random() < 0.6: ops[-1]['params'].append(dict(key='ts', kind='timestamp', ds='', sub=0, policy='', value=''))
            if rng.random() < 0.6: ops[-1]['params'].append(dict(key='cid', kind='catalogueid', ds='', sub=0, policy='', value=''))
        rv = rng.choice(['1', '1', '1+2', '1+2+3', ''])
        acts = [['files', g.dirs], ['code', rng.choice(['100', '100', 'mixed']), rv]]
        acts.append(['build', dict(datasets=ds, operations=ops), 'new', '', '$/o', acts[-1][1] == 'mixed', ''])
        qs = ['op', 'op2', 'vrec.rec.run', 'vrec.rec.run2', 'vrec.rec.Module', 'nosuch']
        have = [o['name'] for o in ops] + [o['target'] for o in ops]
        uniq = [q for q in have if q and have.count(q) == 1]
        for _ in range(3):
            q = rng.choice(uniq) if uniq and rng.random() < 0.75 else rng.choice(qs)
            size = rng.choice([1, 2, 3, 4, 6])
            if rng.random() < 0.4: acts.append(['code', rng.choice(['100', '100', '101', 'mixed']), rng.choice([rv, rv, '1', '1', '2', '1+2', '2+1', '1+2+3', '3', ''])])
            allow = rng.random() < 0.4
            acts.append(['count', q, 1]); acts.append(['count', q, size])
            if q in uniq: acts.append(['suite', q, size])
            via = rng.choice(['function', 'function', 'main'])
            acts += [['run', q, k, size, b, allow, False, via] for b in range(n // size + 2) for k in range(size)]
            if rng.random() < 0.5: acts += [['run', q, rng.choice([0, 1, n - 1, n, n + 1, -1, -2]), 0, -1, allow, rng.random() < 0.3, rng.choice(['function', 'main'])] for _ in range(4)]
            if rng.random() < 0.2: acts += [['run', q, 0, 0, 1, allow, False, 'function'], ['run', q, 0, 2, -1, allow, False, 'function']]
            if rng.random() < 0.6: acts += [['multi', q, size, b, allow, rng.random() < 0.2] for b in range(n // size + 1)]
        yield dict(actions=acts)

def vacuity(traces):
    d = eum.cat_vacuity(traces)
    d['suites'] = sum(e['a'] == 'suite' for t in traces for e in t['events'])
    return d
