"""C03: inputs of every step."""
import eum
from eum import execute, MODELS, ASSUMPTIONS
TRACE = 'T_Cat'

def scenarios(rng, tier, model):
    yield from eum.model_scenarios(rng, model, 60 if tier == 'quick' else 800)
    for i in range(220 if tier == 'quick' else 1600):
        g = eum.Gen(rng)
        dense = rng.random() < 0.5
        ds = [g.dataset(density=rng.choice([1.0, 1.0, 0.7]) if dense else None) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.4: g.pol = ['allowed', 'skip']
        ops = [g.operation('op', [rng.choice(ds)['name'] for _ in range(rng.choice([1, 1, 2, 3]))], outputs=rng.choice([0, 1, 1]))]
        desc = dict(datasets=ds, operations=ops)
        acts = [['files', g.dirs], ['code', '100', '1'], ['build', desc, 'new', '', '$/o', False, '']]
        acts += [['count', 'op', 1]] + [['run', 'op', k, 0, -1, False, False, 'function'] for k in range(0, 6)]
        yield dict(actions=acts)

def known():
    def sc(key, files, subset, start, policy):
        step = dict(kind='annual', start=start, end=dict(d=start['d'] + 2, s=start['s'], u=0), n=0)
        par = dict(key='p1', kind='annualdays', ds='in1', sub=0, policy=policy, explicit=True, value='')
        op = dict(name='op', target='vrec.rec.run', step=step, newdatasets=[], params=[par])
        acts = [['files', {'$/in1': files}], ['code', '100', '1'], ['build', dict(datasets=[dict(name='in1', path='$/in1', subsets=[subset])], operations=[op]), 'new', '', '$/o', False, '']]
        return dict(key=key, actions=acts + [['count', 'op', 1], ['run', 'op', 0, 0, -1, False, False, 'function']])
    return [sc('annual_outside_days', ['y2000.nc'], [['y', '%Y', '.nc']], dict(d=54843, s=0, u=0), 'not_allowed'),
            sc('annual_fixed_part_day', ['f.nc'], [['f.nc']], dict(d=54843, s=43200, u=0), 'allowed')]

def vacuity(traces):
    d = eum.cat_vacuity(traces); d.pop('updates'); return d
