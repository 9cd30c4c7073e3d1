"""C11: accumulation of measurements, stored or merged, and what is solved from them."""
import ana
from ana import execute, mutate
MODELS = [dict(module='MC_Analysis.tla', cfg='MC_Analysis.cfg', tier='quick', workers=3), dict(module='MC_Analysis.tla', cfg='MC_AnalysisT.cfg', tier='thorough', workers=6)]
TRACE = 'T_Ana'
BUILD = dict(ext=['qinv'])
NEG = 100
ASSUMPTIONS = ['matrices and vectors of single contributions are small integers, so that sums are exact', 'solutions are compared as fixed point numbers (1/10000) through the normal equations']

def tree(rng, obs, depth=0):
    """a way to add up observations"""
    if depth > 2 or len(obs) < 2 or rng.random() < 0.25: return dict(obs=obs)
    k = rng.randint(1, min(3, len(obs)))
    cuts = sorted(rng.sample(range(1, len(obs)), k - 1)) if k > 1 else []
    pieces = [obs[a:b] for a, b in zip([0] + cuts, cuts + [len(obs)])]
    if rng.random() < 0.2: pieces.insert(rng.randint(0, len(pieces)), [])
    return dict(blank=rng.random() < 0.5, sub=[tree(rng, p, depth + 1) if p else dict(blank=True, sub=[]) for p in pieces])

def scenarios(rng, tier, model):
    big = tier != 'quick'
    for i in range(120 if not big else 2000):
        n = rng.choice([1, 2, 3])
        obs = [dict(y=rng.randint(-9, 9), p=rng.choice([1, 2]), h=[rng.randint(-2, 2) for _ in range(n)]) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        pr = ana.prior(rng, n, 'toy')
        for _ in range(2):                       # the same observations in two orders and groupings
            rng.shuffle(obs); o = [dict(x) for x in obs]; cut = rng.randint(0, len(o))
            yield dict(kind='linsys', n=n, prior=pr, trees=[tree(rng, p) for p in (o[:cut], o[cut:]) if p] if rng.random() < 0.7 else [tree(rng, o)] if o else [])
    for i in range(150 if not big else 2500):
        kind = rng.choice(['st', 'st', 'sp', 'dl'])
        comps = [ana.component(rng, kind, plain=rng.random() < 0.7)]
        if rng.random() < 0.2: comps.append(ana.component(rng, rng.choice(ana.KINDS)))
        T = rng.sample([0, 1, 2, 3, 31, 59, 365], rng.choice([1, 2, 3, 4]))
        parts = {t: ana.sources(rng, comps) if rng.random() < 0.8 else [[]] for t in T}
        def variant():
            """the same observations, divided and ordered in another way"""
            order = list(T); rng.shuffle(order); p = {}
            for t in T:
                flat = [o for s in parts[t] for o in s]; rng.shuffle(flat)
                k = rng.randint(1, 3); p[t] = [[] for _ in range(k)]
                for o in flat: p[t][rng.randrange(k)].append(o)
            groups = []
            while order:
                k = rng.randint(1, len(order)) if rng.random() < 0.6 else 1
                groups.append(order[:k]); order = order[k:]
            acts = [dict(a='times' if len(g) > 1 or rng.random() < 0.3 else 'time', c=0, parts=[dict(t=t, sources=p[t]) for t in g]) for g in groups]
            for j in range(rng.randint(0, 2)): acts.insert(rng.randint(0, len(acts)), dict(a=rng.choice(['merge', 'solve']), c=0))
            return acts + [dict(a='merge', c=0)] * rng.choice([0, 1, 2]) + [dict(a='solve', c=0)] * rng.choice([1, 1, 2]) + [dict(a='merge', c=0)] * rng.choice([0, 1])
        for _ in range(2): yield dict(kind='ana', comps=comps, times=T, acts=variant(), seed=rng.randint(1, 99))

def vacuity(traces):
    ev = [e for t in traces for e in t['events']]
    n = lambda f: sum(1 for e in ev if f(e))
    return dict(systems=n(lambda e: e['a'] == 'system' and len(e['in']['obs']) > 2), empty_systems=n(lambda e: e['a'] == 'system' and not e['in']['obs']), merges=n(lambda e: e['a'] == 'merge' and not e['out']['none']), solves=n(lambda e: e['a'] == 'solve'),
                together=n(lambda e: e['a'] == 'take' and len(e['in']['parts']) > 1), empty=n(lambda e: e['a'] == 'take' and not any(s for p in e['in']['parts'] for s in p['sources'])))
