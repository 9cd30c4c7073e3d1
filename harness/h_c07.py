"""C07: step numbering and time bases."""
from datetime import datetime, timedelta
MODELS = [dict(module='MC_Steps.tla', cfg='MC_Steps.cfg', tier='quick', workers=2), dict(module='MC_Steps.tla', cfg='MC_StepsT.cfg', tier='thorough', workers=4)]
NEG=120
TRACE = 'T_C07'
NEG = 120
ASSUMPTIONS = ['conversions are compared to the precision the code documents: days 5 microseconds, seconds whole seconds, years and months one second']
BASE = datetime(1850, 1, 1)

def t3(t):
    td = t - BASE
    return dict(d=td.days, s=td.seconds, u=td.microseconds)

def scenarios(rng, tier, model):
    n = 240 if tier == 'quick' else 2400
    pts = [(s['y'], s['m'], s['d']) for s in model]
    def when():
        if pts and rng.random() < 0.5: y, m, d = rng.choice(pts)
        else:
            y = rng.choice([1850, 1851, 1899, 1900, 1999, 2000, 2001, 2004, 2015, 2016, 2099, 2100]); m = rng.randint(1, 12)
            d = rng.choice([1, 2, 15, 27, 28])
        s = rng.choice([(0, 0, 0, 0), (0, 0, 0, 1), (23, 59, 59, 999999), (23, 59, 59, 0), (12, 0, 0, 0), (6, 30, 15, 500000), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999))])
        return [y, m, d] + list(s)
    kinds = ['daily', 'annual', 'monthly', 'midmonth', 'once', 'dailyepoch']
    for i in range(n):
        kind = kinds[i % len(kinds)]
        a = when(); b = when()
        if b < a: a, b = b, a
        if kind in ('daily', 'dailyepoch'):
            span = rng.choice([0, 1, 2, 27, 28, 29, 30, 31, 59, 60, 365, 366, 1461])
            t0 = datetime(*a)
            if rng.random() < 0.7 or kind == 'dailyepoch': t0 = t0.replace(hour=0, minute=0, second=0, microsecond=0)
            a = list(t0.timetuple()[:6]) + [t0.microsecond]
            t1 = t0 + timedelta(days=span) + (timedelta(seconds=rng.choice([0, 0, 3600, 86399])) )
            b = list(t1.timetuple()[:6]) + [t1.microsecond]
        if kind in ('monthly', 'annual') and rng.random() < 0.5:
            b = a[:]; b[0] = a[0] + rng.choice([0, 0, 1, 3]); b[2] = 28
            if b < a: b = a[:]
        if kind == 'midmonth': a[1] = 1                       # otherwise known finding midmonth_epoch_month
        yield dict(kind=kind, a=a, b=b, n=rng.choice([1, 2, 12, 13, 25]), others=[when() for _ in range(4)], seed=rng.randint(0, 10**9))

def known():
    return [dict(key='midmonth_epoch_month', kind='midmonth', a=[1850, 6, 1, 0, 0, 0, 0], b=[1850, 7, 1, 0, 0, 0, 0], n=3, others=[], seed=5)]

def execute(sc, rec, tmp):
    import random
    from eumopps.catalogue import step as S
    from eumopps.timeutils import timebase, datetime_numeric, datetime_dictionary
    from eustace.analysis.advanced_standard.examples.step import StepAnnual, StepMonthly
    from eustace.analysis.advanced_standard.examples.stepmidmonth import StepMidMonth
    from eustace.analysis.advanced_standard.fileio.step import StepDailyEpoch
    from eustace.timeutils import epoch
    rng = random.Random(sc['seed'])
    a = datetime(*sc['a']); b = datetime(*sc['b']); kind = sc['kind']
    fmt = lambda t: t.strftime('%Y%m%d%H%M%S')
    assert a.year > 999
    text = rng.random() < 0.5
    if text: a = a.replace(microsecond=0); b = b.replace(microsecond=0)
    given = (lambda t: fmt(t)) if text else (lambda t: t)
    if kind == 'midmonth': st = StepMidMonth(fmt(a), sc['n']); a = a.replace(microsecond=0)
    elif kind == 'once': st = S.StepOnce()
    else: st = dict(daily=S.StepDaily, annual=StepAnnual, monthly=StepMonthly, dailyepoch=StepDailyEpoch)[kind](given(a), given(b))
    rec('step', **{'in': dict(step=dict(kind=kind, start=t3(a), end=t3(b), n=sc['n'])), 'out': {}})
    c = st.count()
    rec('count', **{'in': {}, 'out': dict(n=c)})
    idx = sorted(set([0, c - 1, c // 2] + [rng.randint(0, c - 1) for _ in range(6)]))
    off = (a - BASE).days if kind == 'dailyepoch' else 0
    times = [datetime(*o) for o in sc['others']]
    if kind != 'once':
        for i in idx:
            t = st.time_at_index(i + off)
            rec('time', **{'in': dict(i=i + off), 'out': t3(t)})
            if kind != 'midmonth':
                for dlt in (timedelta(0), timedelta(microseconds=-1), timedelta(seconds=-1), timedelta(microseconds=1), timedelta(seconds=1)): times.append(t + dlt)
                t2 = st.time_at_index(i + off + 1)
                times += [t2 - timedelta(seconds=1), t2 - timedelta(microseconds=1), t2 - timedelta(seconds=2)]
            else: times.append(t)
        times += [a, b, a - timedelta(seconds=1), a - timedelta(microseconds=1), a - timedelta(days=1), a - timedelta(days=400)]
    for t in times:
        if kind == 'monthly': t = t.replace(microsecond=0)   # month fractions are documented to second resolution
        if kind == 'midmonth':
            class E: time = t
            rec('needs', **{'in': t3(t), 'out': dict(steps=[int(x) for x in st.operation_indices_for_input_entry(E)])})
        else: rec('index', **{'in': t3(t), 'out': dict(i=st.index_at_time(t))})
    pats = [[['data_', '%Y', '%m', '%d', '.nc']], [['%Y', '/'], ['x_', '%m', '.bin']], [['%Y', '/'], ['%m', '/', 'f', '%d', '_', '%H', '%M', '%S']], [['fixed.nc']], [['a', '%Y', 'b']], [['p', '%m', '%d'], ['q']]]
    for p in pats:
        ps = [''.join(x) for x in p]
        if kind != 'midmonth': rec('unique', **{'in': dict(patterns=p), 'out': dict(b=bool(st.is_uniquely_defined_by(ps)))})
        for i in rng.sample(idx, min(2, len(idx))):
            e = st.create_output_entry(ps, i + off)
            out = dict(name=e.name, d=0, s=0, u=0)
            if kind != 'once': out.update(t3(e.time))
            rec('name', **{'in': dict(patterns=p, i=i + off), 'out': out})
    e0 = rng.choice([BASE, datetime(1970, 1, 1), a, datetime(2000, 2, 29, 12, 30, 1)])
    D, Sx = timebase.TimeBaseDays(e0), timebase.TimeBaseSeconds(e0)
    for t in rng.sample(times, min(8, len(times))):
        i = dict(t3(t), e=t3(e0))
        n = Sx.datetime_to_number(t)
        rec('to_seconds', **{'in': i, 'out': dict(d=int(n) // 86400, s=int(n) % 86400, u=0)})
        if t.microsecond >= e0.microsecond: 
            back = Sx.number_to_datetime(n)
            rec('seconds_round_trip', **{'in': t3(t - timedelta(microseconds=e0.microsecond)), 'out': t3(back - timedelta(microseconds=e0.microsecond))})
        x = D.datetime_to_number(t)
        us = int(round(x * 86400000000.0)) if abs(x) < 1e5 else int(round((x - int(x)) * 86400000000.0)) + int(x) * 86400000000
        rec('to_days', **{'in': i, 'out': dict(d=us // 86400000000, s=us // 1000000 % 86400, u=us % 1000000)})
        rec('days_round_trip', **{'in': t3(t), 'out': t3(D.number_to_datetime(x))})
        A, M = timebase.TimeBaseAnnual(datetime(e0.year, 1, 1)), timebase.TimeBaseMonthly(datetime(e0.year, e0.month, 1))
        rec('coarse_round_trip', **{'in': t3(t), 'out': t3(A.number_to_datetime(A.datetime_to_number(t)))})
        rec('coarse_round_trip', **{'in': t3(t), 'out': t3(M.number_to_datetime(M.datetime_to_number(t)))})
        ep = dict(t3(t), e=t3(BASE))
        n = epoch.seconds_since_epoch(t)
        rec('to_seconds', **{'in': ep, 'out': dict(d=int(n) // 86400, s=int(n) % 86400, u=0)})
        rec('seconds_round_trip', **{'in': t3(t), 'out': t3(epoch.epoch_plus_seconds(n))})
        rec('days_round_trip', **{'in': t3(t), 'out': t3(epoch.epoch_plus_days(epoch.days_since_epoch(t)))})
        s = datetime_numeric.build(t)
        rec('build', **{'in': t3(t), 'out': dict(text=s)})
        rec('parse', **{'in': dict(text=s), 'out': t3(datetime_numeric.parse(s))})
        tok = rng.choice([['%Y', '/', '%m', '/', 'f', '%d'], ['%d', '%H', '-', '%M', '%S', '%Y'], ['%H', '%', '%S', '%m', '%m']])
        rec('pattern', **{'in': dict(t3(t), tokens=tok), 'out': dict(text=datetime_numeric.build_from_pattern(''.join(tok), t))})
    for _ in range(6):
        f = dict(year=rng.choice([1850, 1900, 2000, 2004, 2015, 2016]), month=rng.choice([-1, 0, 1, 2, 2, 4, 6, 9, 11, 12, 13]), day=rng.choice([-1, 0, 1, 28, 29, 30, 31, 32]), hour=rng.choice([-1, 0, 23, 24]), minute=rng.choice([-1, 0, 59, 60]), second=rng.choice([-1, 0, 59, 60]))
        if rng.random() < 0.1: f = {k: -1 for k in f}
        elif f['month'] == -1: f['day'] = -1
        d = {k: '%02d' % v for k, v in f.items() if v != -1}; d['A'] = 'tag'
        try:
            r = datetime_dictionary.parse(d); out = dict(k='none', d=0, s=0, u=0) if r is None else dict(t3(r), k='time')
        except ValueError: out = dict(k='error', d=0, s=0, u=0)
        rec('dict', **{'in': dict(f=f), 'out': out})

def mutate(s, rng):
    """Alter one observation by more than any documented tolerance."""
    from runner import default_mutate
    for _ in range(20):
        c = default_mutate(s, rng)
        if c is None: return None
        if not any(x['out'] != y['out'] and x['a'] in ('coarse_round_trip', 'to_days', 'days_round_trip') for x, y in zip(c['events'], s['events'])): return c
    return None
