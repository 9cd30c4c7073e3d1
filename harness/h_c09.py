"""C09: back-fitting of the additive model by the analysis system."""
import ana
from ana import execute, mutate
MODELS = [dict(module='MC_Analysis.tla', cfg='MC_Analysis.cfg', tier='quick', workers=3), dict(module='MC_Analysis.tla', cfg='MC_AnalysisT.cfg', tier='thorough', workers=6)]
TRACE = 'T_Ana'
BUILD = dict(ext=['qinv'])
NEG = 100
ASSUMPTIONS = ['states are compared as fixed point numbers (1/10000) through the normal equations', 'design coefficients, values and precisions of the driven elements are small integers', 'the batches of times of a component spanning time stay the same between iterations']

def scenarios(rng, tier, model):
    big = tier != 'quick'
    for m in (rng.sample(model, min(len(model), 1500)) if big else rng.sample(model, min(len(model), 160))):
        comps = [ana.component(rng, k) for k in m['kinds']]
        days = {1: 3, 2: 4}
        def src(t): return [[ana.observation(rng, comps) for _ in range(q)] for q in ([2, 1] if t == 1 else [0, 1])]
        parts = {t: src(t) for t in (1, 2)}
        acts = []
        for e in m['log']:
            if e['a'] == 'time': acts.append(dict(a='time', c=e['c'] - 1, parts=[dict(t=days[e['t']], sources=parts[e['t']])]))
            else: acts.append(dict(a='solve', c=e['c'] - 1))
        acts += [dict(a='solve', c=c) for c in range(len(comps))] + [dict(a='eval', t=t, rows=[[ana.row(rng, c) for c in comps] for _ in range(2)], samples=0) for t in (3, 4)]
        yield dict(kind='ana', comps=comps, times=[3, 4], acts=acts, seed=rng.randint(1, 99))
    for i in range(160 if not big else 2500):
        samples = rng.choice([0, 0, 1, 2])
        comps = [ana.component(rng, rng.choice(ana.KINDS), samples=samples) for _ in range(rng.choice([1, 2, 2, 3, 3]))]
        plain = i % 4 == 0                 # sweeps over all components, everything kept in memory
        if plain: comps = [dict(c, store='mem') for c in comps]
        T = rng.sample([0, 1, 2, 3, 59, 365], rng.choice([1, 2, 3]))
        parts = {t: ana.sources(rng, comps) if rng.random() < 0.85 else [[]] * rng.choice([1, 2]) for t in T}
        group = {}
        for c in range(len(comps)):         # fixed batches of times
            l = list(T); rng.shuffle(l); g = []
            while l:
                k = 1 if plain else rng.randint(1, len(l)); g.append(l[:k]); l = l[k:]
            group[c] = g
        acts = []
        for _ in range(rng.randint(2, 7)):
            q = rng.random() if not plain else rng.uniform(0.2, 0.95); c = rng.randrange(len(comps))
            P = lambda ts: [dict(t=t, sources=parts[t]) for t in ts]
            if q < 0.45:
                g = rng.choice(group[c])
                if comps[c]['kind'] != 'st' and rng.random() < 0.5: g = rng.sample(T, rng.randint(1, len(T)))
                acts.append(dict(a='times' if len(g) > 1 or rng.random() < 0.3 else 'time', c=c, parts=P(g)))
            elif q < 0.7: acts.append(dict(a='solve', c=c))
            elif q < 0.8 and all(len(g) == 1 for g in group[c]) and comps[c]['store'] == 'mem': acts.append(dict(a='component', c=c, parts=P(T)))
            elif q < 0.9 and all(c['store'] == 'mem' for c in comps) and all(len(g) == 1 for c in range(len(comps)) for g in group[c]): acts.append(dict(a='sweep', parts=P(T)))
            elif q < 0.93: 
                t = rng.choice(T)
                if not comps[c]['nl'] and comps[c]['store'] == 'mem' and len(parts[t]) > 1 and parts[t][0] and any(parts[t][1:]): acts.append(dict(a='mixed', c=c, parts=P([t])))
            if rng.random() < 0.4: acts.append(dict(a='eval', t=rng.choice(T), rows=[[ana.row(rng, k) for k in comps] for _ in range(rng.randint(1, 3))], samples=samples))
            if rng.random() < 0.15:          # observations of a time are replaced by others
                t = rng.choice(T); parts[t] = ana.sources(rng, comps)
        acts.append(dict(a='eval', t=rng.choice(T), rows=[[ana.row(rng, k) for k in comps] for _ in range(2)], samples=samples))
        yield dict(kind='ana', comps=comps, times=T, acts=acts, seed=rng.randint(1, 99))

def vacuity(traces):
    ev = [e for t in traces for e in t['events']]
    n = lambda f: sum(1 for e in ev if f(e))
    return dict(take=n(lambda e: e['a'] == 'take'), together=n(lambda e: e['a'] == 'take' and e['in']['together'] and len(e['in']['parts']) > 1), solve=n(lambda e: e['a'] == 'solve'), sweep=n(lambda e: e['a'] == 'sweep'),
                component=n(lambda e: e['a'] == 'component'), refused=n(lambda e: e['a'] == 'refused'), eval_values=n(lambda e: e['a'] == 'eval' and any(e['out']['v'])), uncertain=n(lambda e: e['a'] == 'eval' and any(e['out']['u'])),
                sampled=n(lambda e: e['a'] == 'eval' and bool(e['out']['z'])), empty=n(lambda e: e['a'] == 'take' and not any(s for p in e['in']['parts'] for s in p['sources'])))
