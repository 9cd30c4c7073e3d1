"""C02: parallel checksums under controlled schedules."""
import os, threading, time
MODELS = [dict(module='MC_Checksum.tla', cfg='MC_Checksum.cfg', tier='quick', workers=2), dict(module='MC_Checksum.tla', cfg='MC_ChecksumT.cfg', tier='thorough', workers=8)]
TRACE = 'T_C02'
ASSUMPTIONS = ['the POSIX cksum algorithm is recomputed independently by the harness', 'entries are instrumented by a subclass of CatalogueFileEntry; the schedule is imposed by making entries wait for their turn']
TIMEOUT = 90

def _table():
    t = []
    for i in range(256):
        c = i << 24
        for _ in range(8): c = ((c << 1) ^ 0x04C11DB7) & 0xffffffff if c & 0x80000000 else (c << 1) & 0xffffffff
        t.append(c)
    return t
TAB = _table()
def cksum(data):
    c = 0
    for b in data: c = ((c << 8) & 0xffffffff) ^ TAB[(c >> 24) ^ b]
    n = len(data)
    while n: c = ((c << 8) & 0xffffffff) ^ TAB[(c >> 24) ^ (n & 0xff)]; n >>= 8
    return (~c) & 0xffffffff

def scenarios(rng, tier, model):
    k = 120 if tier == 'quick' else 1200
    for m in rng.sample(model, min(k, len(model))):
        yield dict(subsets=[dict(n=m['n'], bad=sorted(m['bad']), order=m['order'])], threads=m['threads'] or 1)
    for i in range(40 if tier == 'quick' else 300):
        subs = []
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([0, 1, 2, 5, 7, 16, 63, 64, 65, 66, 100, 127, 128, 129, 150])
            bad = [j for j in range(n) if rng.random() < rng.choice([0, 0.1, 0.5])]
            order = list(range(n)); rng.shuffle(order)
            if rng.random() < 0.4: order.reverse()
            subs.append(dict(n=n, bad=bad, order=order))
        yield dict(subsets=subs, threads=rng.choice([0, 0, 1, 2, 3, 7, 64]))

def execute(sc, rec, tmp):
    import random
    from eumopps.catalogue import dataset as D
    if sc['threads'] and hasattr(D, 'CHECKSUM_NUM_THREADS'): D.CHECKSUM_NUM_THREADS = sc['threads']
    elif hasattr(D, 'CHECKSUM_NUM_THREADS'): D.CHECKSUM_NUM_THREADS = 64
    rng = random.Random(len(str(sc)))
    lock = threading.Lock()
    log = []
    class Entry(D.CatalogueFileEntry):
        def compute_checksum(self, *a, **k):
            i = self.vindex
            with lock: log.append(('begin', i))
            # wait for the turn of this entry, but only while others make progress
            rank = self.vrank
            deadline = time.time() + 0.02
            while time.time() < deadline and self.vstate['done'] < rank: time.sleep(0.0005)
            r = super(Entry, self).compute_checksum(*a, **k)
            with lock: log.append(('end', i)); self.vstate['done'] += 1
            return r
    subsets, infos = [], []
    for si, s in enumerate(sc['subsets']):
        state = dict(done=0); es, info = [], []
        for i in range(s['n']):
            name = 's%d/f%03d.bin' % (si, i)
            p = os.path.join(tmp, name); os.makedirs(os.path.dirname(p), exist_ok=True)
            e = Entry(name=name); e.vindex = i + 1; e.vstate = state; e.vrank = s['order'].index(i) if i in s['order'] else 0
            if i in s['bad']:
                how = rng.randint(0, 2)
                if how == 1: os.makedirs(p)
                elif how == 2: e.name = None
                info.append(dict(ok=False, sum='none', size=-1))
            else:
                data = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 300]))) + b'%d' % i
                if rng.random() < 0.1: data = b''
                with open(p, 'wb') as f: f.write(data)
                info.append(dict(ok=True, sum=str(cksum(data)), size=len(data)))
            es.append(e)
        sub = D.CatalogueDataSubset(matches=es); subsets.append(sub); infos.append(info)
    before = threading.active_count()
    ds = D.CatalogueDataSet(name='d', path=tmp, subsets=subsets)
    for sub, info in zip(subsets, infos):
        del log[:]
        with lock: log.append(('call', 0))
        done = threading.Event(); err = []
        def call():
            try: sub.compute_checksum(tmp)
            except Exception as e: err.append(e)
            with lock: log.append(('return', 0))
            done.set()
        t = threading.Thread(target=call, daemon=True); t.start()
        if not done.wait(30): raise RuntimeError('compute_checksum does not return')
        if err: raise err[0]
        time.sleep(0.03)                      # anything still running shows up after the return
        with lock: seen = list(log)
        for a, i in seen:
            if a == 'call': rec('call', **{'in': dict(files=info), 'out': {}})
            else: rec(a, **{'in': dict(i=i), 'out': {}})
        ent = []
        for e in sub.matches:
            c = e.checksum
            if isinstance(c, bytes): c = c.decode()
            ent.append(dict(sum='none' if c is None else str(c), size=-1 if e.size is None else int(e.size)))
        rec('final', **{'in': {}, 'out': dict(entries=ent)})
    for n in sorted(set([s['n'] for s in sc['subsets']] + [rng.randint(0, 400) for _ in range(5)])):
        nt = rng.choice([1, 2, 3, 7, 64, 100])
        if hasattr(D.CatalogueDataSubset, 'compute_checksum_thread_indices'):
            rec('split', **{'in': dict(n=n, t=nt), 'out': dict(ranges=[list(x) for x in D.CatalogueDataSubset.compute_checksum_thread_indices(n, nt)])})

def mutate(s, rng):
    """Drop, repeat or reorder an observation of the schedule, or alter a result."""
    import json
    from runner import default_mutate
    c = json.loads(json.dumps(s)); ev = c['events']
    k = rng.randint(0, 3)
    idx = [i for i, e in enumerate(ev) if e['a'] in ('begin', 'end')]
    if k == 0 and idx: del ev[rng.choice(idx)]
    elif k == 1 and idx: i = rng.choice(idx); ev.insert(i, json.loads(json.dumps(ev[i])))
    elif k == 2 and [i for i, e in enumerate(ev) if e['a'] == 'return' and ev[i - 1]['a'] == 'end']:
        i = rng.choice([i for i, e in enumerate(ev) if e['a'] == 'return' and ev[i - 1]['a'] == 'end']); ev[i - 1], ev[i] = ev[i], ev[i - 1]
    else: return default_mutate(s, rng)
    return c
