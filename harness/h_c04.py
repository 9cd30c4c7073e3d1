"""C04: outputs are declared once and read where they were written."""
import eum
from eum import execute, MODELS, ASSUMPTIONS
TRACE = 'T_Cat'

def scenarios(rng, tier, model):
    yield from eum.model_scenarios(rng, model, 80 if tier == 'quick' else 1000)
    for i in range(180 if tier == 'quick' else 1500):
        g = eum.Gen(rng)
        if rng.random() < 0.7: g.pol = ['allowed', 'skip', 'skip']
        if i % 12 == 0:                                           # long enough for names without a year or month to come round again
            g.cyclic = True; g.kind = rng.choice(['daily', 'monthly']); g.period = (g.t0, eum.plus(g.t0, rng.choice([31, 33]) if g.kind == 'daily' else rng.choice([400, 430])))
        ds = [g.dataset(density=rng.choice([1.0, 0.7, 0.5])) for _ in range(rng.choice([1, 2]))]
        avail = [d['name'] for d in ds]
        ops = []
        for k in range(rng.choice([2, 2, 3, 4]) if not g.cyclic else 2):
            ins = [rng.choice(avail[-3:]) for _ in range(rng.choice([1, 1, 2]))]
            o = g.operation('op%d' % k, ins, outputs=rng.choice([1, 1, 2]), target='vrec.rec.' + ['run', 'run2', 'Module', 'Module2'][k])
            if ops and rng.random() < 0.15:                       # write into somebody else's output
                prev = rng.choice(ops)
                outs = [p for p in prev['params'] if p['kind'] in ('output', 'outputdays')]
                for p in o['params']:
                    if p['kind'] in ('output', 'outputdays') and outs: p['ds'] = rng.choice(outs)['ds']; p['sub'] = rng.choice([0, 0, 1])
            if rng.random() < 0.1:                                # two parameters of one operation that name the same outputs
                outs = [p for p in o['params'] if p['kind'] in ('output', 'outputdays')]
                if len(outs) > 1: outs[1]['ds'] = outs[0]['ds']
            ops.append(o); avail += [d['name'] for d in o['newdatasets']]
        acts = [['files', g.dirs], ['code', '100', '1']]
        cut = rng.randint(1, len(ops))
        acts.append(['build', dict(datasets=ds, operations=ops[:cut]), 'new', '', '$/o', False, ''])
        if cut < len(ops): acts.append(['build', dict(datasets=[], operations=ops[cut:]), 'update', '', '$/o/', False, ''])
        acts += eum.exercise(['op%d' % k for k in range(len(ops))], rng, 4 if not g.cyclic else 33)
        yield dict(actions=acts)

vacuity = eum.cat_vacuity
