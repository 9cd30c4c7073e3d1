"""C17: descriptors of iterations and the jobs that run them."""
import json, os, re, shutil, subprocess
MODELS = [dict(module='MC_Jobs.tla', cfg='MC_Jobs.cfg', tier='quick', workers=2), dict(module='MC_Jobs.tla', cfg='MC_JobsFree.cfg', tier='quick', workers=2),
          dict(module='MC_Jobs.tla', cfg='MC_JobsT.cfg', tier='thorough', workers=6), dict(module='MC_Jobs.tla', cfg='MC_JobsFree.cfg', tier='thorough', workers=2)]
TRACE = 'T_C17'
TIMEOUT = 240
NEG = 100
ASSUMPTIONS = ['the batch system is stood in for by a bsub on PATH that refuses unknown or malformed conditions; done(id) holds when every element of the job array has ended with status 0',
               'job scripts are executed with python, module and mkdir stood in for; /work/scratch in them is replaced by a scratch directory', 'descriptors are compared by the datasets their operations read and write']
TEMPLATES = ['advstd_operation_template.json', 'advstd_batch_operation_template.json', 'advstd_outputgrid_template.json']
FLAGS = ['ci', 'cs', 'li', 'ls', 'lo', 'grid']
STAGES = ['climatology_input', 'climatology_solve', 'climatology_solve_prior_sample', 'large_scale_input', 'large_scale_solve', 'large_scale_solve_prior_sample', 'local_input_and_solve', 'nonstationary_local_input_and_solve', 'output_grid']

def ids(rng):
    style = rng.choice(['prefix', 'seq', 'random'])
    if style == 'prefix': return [int('1' * (1 + k // 10) + str(k % 10)) for k in range(80)]
    if style == 'seq': b = rng.choice([1, 98, 995, 1234000]); return [b + k for k in range(80)]
    return rng.sample(range(1, 10 ** 7), 80)

def counts(rng, names, top):
    return {n: rng.choice([1, 1, 2, 3, rng.randint(1, top)]) for n in names}

SHELL = ('status', 'noid')           # the shell scripts go by the identifier alone

def scenarios(rng, tier, model):
    big = tier != 'quick'; k = 10 if big else 1
    def common(names, top=6, miss=0.12, fault=0.2, hows=('status', 'noid', 'late', 'killed')):
        c = counts(rng, names, top)
        if rng.random() < miss: c[rng.choice(list(names))] = rng.choice([0, -1])          # no runs, or not in the catalogue
        r = rng.random()
        return dict(counts=c, ids=ids(rng), pre=[str(x) for x in rng.sample(range(20000000, 20000999), rng.choice([0, 0, 1, 2]))], fail=dict(at=rng.randint(1, 8), how=rng.choice(hows)) if r < fault else None,
                    failruns=rng.random() < 0.3, seed=rng.randint(0, 10 ** 9))
    full = [s + '_%d' % i for i in range(4) for s in STAGES]
    ps = sorted((p for p in model if 'first' in p), key=lambda p: json.dumps(p, sort_keys=True)); rng.shuffle(ps)
    for p in ps[:60 * k]:
        yield dict(common(full), kind='multi', mod=rng.choice(['lsf_submission', 'lsf_submission_group']), via=rng.choice(['call', 'main']), p=p)
    for i in range(30 * k):
        p = {f: rng.random() < 0.75 for f in FLAGS}; p.update(hyper=False, prior=False, first=rng.randint(0, 2)); p['last'] = rng.randint(p['first'], 3); p['final'] = rng.choice([p['last'], p['last'], p['first'], 0])
        yield dict(common(full), kind='multi', mod=rng.choice(['lsf_submission', 'lsf_submission_group']), via=rng.choice(['call', 'main']), p=p)
    for i in range(30 * k):
        p = {f: rng.random() < 0.7 for f in FLAGS}; p.update(hyper=rng.random() < 0.4, prior=rng.random() < 0.5, it=rng.randint(0, 3))
        yield dict(common(full), kind='iteration', mod=rng.choice(['lsf_submission', 'lsf_submission_group']), p=p)
    for i in range(4 * k):                                                                  # several batches of 366 (2000 when grouped)
        p = dict(ci=True, cs=False, li=False, ls=False, lo=True, grid=False, hyper=False, prior=False, first=0, last=1, final=1)
        s = dict(common(full, miss=0, fault=0.3), kind='multi', mod=['lsf_submission', 'lsf_submission_group'][i % 2], via='call', p=p)
        for n in s['counts']: s['counts'][n] = rng.choice([365, 366, 367, 732, 733, 1100, 2000, 2001, 4001])
        yield s
    for i in range(10 * k):
        it = rng.choice([-1, 0, 3]); names = [n + ('' if it < 0 else '_%d' % it) for n in ('split_local_component', 'input_summaries_create', 'input_summaries_merge')]
        yield dict(common(names), kind='optimise', mod=rng.choice(['lsf_submission', 'lsf_submission_group']), it=it)
    for i in range(30 * k):
        yield dict(common(['a_stage'], top=20, miss=0.05, fault=0.1), kind='direct', mod=rng.choice(['lsf_submission', 'lsf_submission_group']), size=rng.choice([1, 2, 3, 5, 7, 366]))
    for i in range(30 * k):
        yield dict(common(['a_stage'], top=40, miss=0.05, fault=0.1), kind='grouped', mod='lsf_submission_group', jobs=rng.choice([1, 2, 3, 5]), tasks=rng.choice([1, 2, 3, 4]))
    for i in range(12 * k):
        names = [s + '_%d' % j for j in range(3) for s in ('climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve')] + ['output_grid']
        yield dict(common(names, top=4, hows=SHELL), kind='shell', pre=[])
    for i in range(12 * k):
        yield dict(common(['a_stage'], top=12, miss=0.2, hows=SHELL), kind='shellone', script=rng.choice(['runlsf.sh', 'runlsf_solver.sh']))
    for i in range(3 * k):
        s = dict(common(['a_stage'], miss=0, fault=0), kind='shellone', script='runlsf.sh'); s['counts']['a_stage'] = rng.choice([366, 367, 732, 1000]); yield s
    for i in range(24 * k):
        f = rng.randint(0, 3)
        which = rng.choice(['eumopps_batch', 'eumopps_single', 'eustace_batch', 'eustace_batch'])
        if which != 'eustace_batch': f = 0
        yield dict(kind='descriptor', which=which, first=f, last=f + rng.randint(0, 3), grid=True if which != 'eustace_batch' else rng.random() < 0.6, tag=rng.choice(['', 'x_', 'sample_']), start='20%02d1230' % rng.randint(0, 20), end='20301%03d' % rng.choice([101, 231]), seed=0)

BSUB = r'''#!/bin/sh
d="$C17DIR"
n=$(( $(cat "$d/n") + 1 )); echo $n > "$d/n"
cond=''; name=''
while [ $# -gt 0 ]; do case "$1" in -w) cond="$2"; shift;; -J) name="$2"; shift;; -M|-q|-W|-n|-R|-o|-e) shift;; esac; shift; done
cat > "$d/$n.script"
if [ -f "$d/failat" ] && [ "$(cat "$d/failat")" = "$n" ]; then
  if [ "$(cat "$d/failhow")" = status ]; then echo "Request aborted by esub. Job not submitted." >&2; exit 255; fi
  if [ "$(cat "$d/failhow")" = late ]; then echo "Job <$(sed -n "${n}p" "$d/ids")> could not be placed: not submitted."; exit 255; fi
  if [ "$(cat "$d/failhow")" = killed ]; then echo "Job <$(sed -n "${n}p" "$d/ids")>"; kill -9 $$; fi
  echo "Too many pending jobs. Job not submitted."; exit 0
fi
if [ -n "$cond" ]; then
  if ! printf '%s' "$cond" | grep -Eq '^ *done\([0-9]+\)( *&& *done\([0-9]+\))* *$'; then echo "Bad dependency condition. Job not submitted." >&2; exit 255; fi
  for i in $(printf '%s' "$cond" | grep -Eo '[0-9]+'); do grep -qx "$i" "$d/known" || { echo "No matching job found. Job not submitted." >&2; exit 255; }; done
fi
id=$(sed -n "${n}p" "$d/ids"); echo "$id" >> "$d/known"
printf '%s' "$cond" > "$d/$n.cond"; printf '%s' "$name" > "$d/$n.name"; printf '%s' "$id" > "$d/$n.id"
env -0 > "$d/$n.env"
echo "Job <$id> is submitted to queue <short-serial>."
'''
PYTHON = r'''#!/bin/sh
d="$C17DIR"
[ "$1" = -m ] || exit 9
case "$2" in
eumopps.catalogue.commandcount)
  [ -f "$3" ] || exit 1
  b=1; [ "$5" = --batchsize ] && b="$6"
  c=$(sed -n "s/^$4 //p" "$d/counts"); c=${c:-0}
  echo $(( (c + b - 1) / b ));;
eumopps.catalogue.commandrun)
  shift 2; cat="$1"; op="$2"; ix="$3"; shift 3; s=0; b=0
  while [ $# -gt 0 ]; do case "$1" in --use_batch_size) s="$2"; shift;; --batch) b="$2"; shift;; esac; shift; done
  r=$(( b * s + ix )); st=0
  grep -qx "$op $r" "$d/failruns" && st=1
  echo "$op $r $st $cat" >> "$d/runs"; exit $st;;
*) exit 9;;
esac
'''

def walk(x, out):
    if isinstance(x, dict):
        if 'datasetname' in x: out.append((x.get('python_class', '').rsplit('.', 1)[-1], x['datasetname']))
        for k in x: walk(x[k], out)
    elif isinstance(x, list):
        for v in x: walk(v, out)

def descriptor(sc, rec, tmp, here):
    t = sc['tag']
    com = dict(ci='climatology_input', cs='climatology_solve', li='large_scale_input', ls='large_scale_solve', lo='local_input_and_solve', og='output_grid')
    ds = dict(ci=t + 'mc', cs=t + 'sc', li=t + 'ml', ls=t + 'sl', lo=t + 'loc', og=t + 'og', oc=t + 'oc', ol=t + 'ol', oo=t + 'oo')
    tail = [sc['start'], sc['end'], 1, 1, com['ci'], ds['ci'], com['cs'], ds['cs'], com['li'], ds['li'], com['ls'], ds['ls'], com['lo'], ds['lo'], com['og'], ds['og'], ds['oc'], ds['ol'], ds['oo']]
    out = os.path.join(tmp, 'desc'); os.mkdir(out)
    if sc['which'].startswith('eumopps'):
        from eumopps.catalogue.jsonfiller import FullstaceJsonFiller as F
        f = F(sc['last'] + 1, os.path.join(here, 'templates'), out, *(TEMPLATES + tail))
    else:
        from eustace.analysis.advanced_standard.examples.jsonfiller import FullstaceJsonFiller as F
        f = F(sc['first'], sc['last'], int(sc['grid']), os.path.join(here, 'templates'), out, *(TEMPLATES + tail))
    (f.create_descriptor if sc['which'] == 'eumopps_single' else f.create_batch_descriptor)('d.json')
    d = json.load(open(os.path.join(out, 'd.json')))
    ops = []
    for o in d['operations']:
        refs = []; walk(o['runmodule'], refs)
        mine = [r for r in refs if not r[1].startswith(('rawbinary', 'locationlookup'))]
        step = o['step'].get('python_class', '').rsplit('.', 1)[-1]
        ops.append(dict(name=o['name'], reads=sorted(set(n for c, n in mine if 'Output' not in c)), writes=sorted(set(n for c, n in mine if 'Output' in c)), new=[n['name'] for n in o.get('newdatasets', [])],
                        once=step == 'StepOnce', period=o['step'].get('start', '') == sc['start'] + '000000' and o['step'].get('end', '') == sc['end'] + '000000'))
    rec('descriptor', **{'in': dict(which=sc['which'], first=sc['first'], last=sc['last'], grid=sc['grid'], ds=ds), 'out': dict(ops=ops)})

def execute(sc, rec, tmp):
    import importlib.util, random, sys, eumopps
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(eumopps.__file__))), 'roses', 'fullstace', 'advanced_standard')
    if sc['kind'] == 'descriptor': return descriptor(sc, rec, tmp, here)
    tmp = os.path.realpath(tmp); rng = random.Random(sc['seed'])
    d = os.path.join(tmp, 'd'); b = os.path.join(tmp, 'bin'); w = os.path.join(tmp, 'w'); c = os.path.join(tmp, 'roses')
    for x in (d, b, w, c): os.mkdir(x)
    for n in os.listdir(here):
        if n.endswith('.sh'):
            open(os.path.join(c, n), 'w').write(open(os.path.join(here, n)).read().replace('/work/scratch', w))
    for n, text in (('bsub', BSUB), ('python', PYTHON), ('module', '#!/bin/sh\nexit 0\n'), ('mkdir', '#!/bin/sh\nfor x in "$@"; do case "$x" in -*) ;; %s/*) ;; *) exit 1;; esac; done\nexec /bin/mkdir "$@"\n' % tmp)):
        open(os.path.join(b, n), 'w').write(text); os.chmod(os.path.join(b, n), 0o755)
    put = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    put('n', '0\n'); put('ids', ''.join('%d\n' % i for i in sc['ids'])); put('known', ''.join(i + '\n' for i in sc['pre'])); put('runs', '')
    if sc['fail']: put('failat', '%d\n' % sc['fail']['at']); put('failhow', sc['fail']['how'] + '\n')
    # the catalogue
    from eumopps.catalogue.catalogue import Catalogue
    from eumopps.catalogue.operation import Operation
    from eumopps.catalogue.step import StepOnce
    from eumopps.catalogue.fileio.formatnetcdf import CatalogueWriterNetCDF, CatalogueReaderNetCDF
    cat = os.path.join(c, 'catalogue.nc'); there = {n: k for n, k in sc['counts'].items() if k >= 0}
    CatalogueWriterNetCDF().save(cat, Catalogue(operations=[Operation(runmodule={'python_function': 'eumopps.nothing.f%d' % i}, step=StepOnce(), name=n, count=k) for i, (n, k) in enumerate(sorted(there.items()))]))
    put('counts', ''.join('%s %d\n' % (n, CatalogueReaderNetCDF().operationcount(cat, n)) for n in there))
    wait = ' && '.join('done(%s)' % i for i in sc['pre'])
    os.environ.update(PATH=b + ':' + os.environ['PATH'], C17DIR=d, USER='me')
    for k in [k for k in os.environ if k.startswith('EUMOPPS_') or k in ('OUTDIR', 'LSB_JOBINDEX')]: del os.environ[k]
    os.chdir(c)
    status = 'ok'; handed = []
    def module():
        spec = importlib.util.spec_from_file_location('lsfmod', os.path.join(here, sc['mod'] + '.py')); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
    p = sc.get('p', {})
    try:
        if sc['kind'] in ('shell', 'shellone'):
            args = ['bash', 'runlsf_iterations.sh', 'catalogue.nc'] if sc['kind'] == 'shell' else ['bash', sc['script'], 'catalogue.nc', 'a_stage', wait]
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
            if r.returncode != 0: status = 'error'
        else:
            m = module()
            flags = lambda t: dict(climatology_input=t(p['ci']), climatology_solve=t(p['cs']), large_scale_input=t(p['li']), large_scale_solve=t(p['ls']), local_input_and_solve=t(p['lo']))
            if sc['kind'] == 'multi' and sc['via'] == 'call':
                m.eustace_multi_iteration(p['first'], p['last'], p['final'], output_grid=p['grid'], cataloguefilename='catalogue.nc', wait_options=wait, **flags(bool))
            elif sc['kind'] == 'multi':
                old = sys.argv
                sys.argv = ['x', cat, '--first_iteration', str(p['first']), '--last_iteration', str(p['last']), '--final_iteration', str(p['final']), '--output_grid', str(int(p['grid'])), '--wait_options', wait] + [x for k, v in flags(int).items() for x in ('--' + k, str(v))]
                try: m.main()
                finally: sys.argv = old
            elif sc['kind'] == 'iteration':
                handed = m.eustace_iteration(p['it'], cataloguefilename='catalogue.nc', wait_options=wait, grid_output=p['grid'], run_prior_sample=p['prior'], local_hyperparameters=p['hyper'], **flags(bool))
                handed = re.findall(r'done\((\d+)\)', handed)
            elif sc['kind'] == 'optimise':
                handed = m.eustace_optimisation(iteration_number=None if sc['it'] < 0 else sc['it'], cataloguefilename='catalogue.nc', wait_options=wait)
                handed = re.findall(r'done\((\d+)\)', handed)
            elif sc['kind'] == 'direct': handed = m.submit_eumopps_jobs('catalogue.nc', 'a_stage', wait_options=wait, eumopps_batchsize=sc['size'])
            else: handed = m.submit_eumopps_jobs_grouped('catalogue.nc', 'a_stage', wait_options=wait, lsf_script='lsf_commandrun_group.sh', jobs_per_lsfbatch=sc['jobs'], tasks_per_job=sc['tasks'])
    except (SystemExit, Exception) as e:
        if type(e).__name__ == 'Timeout': raise
        status = 'error'; handed = []
    calls = int(open(os.path.join(d, 'n')).read())
    jobs = []
    for n in range(1, calls + 1):
        if not os.path.exists(os.path.join(d, '%d.id' % n)): continue
        get = lambda k: open(os.path.join(d, '%d.%s' % (n, k))).read()
        mm = re.match(r'^(.*)\[(\d+)-(\d+)\]$', get('name')) or re.match(r'^(.*)\[(\d+)()\]$', get('name'))
        env = dict(x.split('=', 1) for x in get('env').split('\0') if '=' in x)
        lo = int(mm.group(2)) if mm else 1; hi = int(mm.group(3) or lo) if mm else 1
        jobs.append(dict(id=get('id'), op=env.get('EUMOPPS_MODULENAME', ''), elements=hi - lo + 1, waits=re.findall(r'\d+', get('cond')), _n=n, _lo=lo, _hi=hi, _env=env, _script=get('script')))
    pub = lambda j: {k: v for k, v in j.items() if k[0] != '_'}
    rec('submit', **{'in': dict(kind=sc['kind'], counts=[dict(op=n, n=k) for n, k in sorted(sc['counts'].items())], pre=sc['pre'], p=p, it=sc.get('it', 0), failat=sc['fail']['at'] if sc['fail'] else 0),
        'out': dict(status=status, calls=calls, jobs=[pub(j) for j in jobs], handed=list(handed))})
    # what the elements of the job arrays run
    total = sum(j['elements'] for j in jobs); most = 60
    whole = total <= most
    fr = []
    if sc['failruns']: fr = ['%s %d' % (j['op'], rng.randrange(max(1, sc['counts'].get(j['op'], 1)))) for j in rng.sample(jobs, min(2, len(jobs)))]
    put('failruns', ''.join(x + '\n' for x in fr))
    els = []
    for j in jobs:
        ix = range(j['_lo'], j['_hi'] + 1)
        if not whole: ix = sorted(set(rng.sample(list(ix), min(3, len(ix))) + [j['_lo'], j['_hi']]))
        for i in ix:
            put('runs', '')
            r = subprocess.run(['bash'], input=j['_script'].encode(), env=dict(j['_env'], LSB_JOBINDEX=str(i), USER='me'), cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            runs = [x.split(' ', 3) for x in open(os.path.join(d, 'runs')).read().splitlines()]
            els.append(dict(job=j['id'], runs=[dict(op=x[0], ix=int(x[1])) for x in runs], failed=any(x[2] == '1' for x in runs), ok=r.returncode == 0, cat=all(x[3] == cat for x in runs)))
    rec('elements', **{'in': dict(whole=whole), 'out': dict(els=els)})

def mutate(s, rng):
    """negative control: a condition lost, a run repeated or lost, a dataset of another iteration"""
    c = json.loads(json.dumps(s))
    ev = [e for e in c['events'] if 'out' in e]
    if not ev: return None
    e = rng.choice(ev); o = e['out']
    if e['a'] == 'descriptor':
        op = rng.choice(o['ops']); k = rng.choice(['reads', 'writes'])
        if not op[k]: return None
        if rng.random() < 0.5: op[k] = op[k][1:]; return c if len(op[k]) or k == 'writes' else c
        op[k][0] = op[k][0] + '9'; return c
    if e['a'] == 'elements':
        x = [q for q in o['els'] if q['runs']]
        if not x or not e['in']['whole']: return None
        q = rng.choice(x); q['runs'][0]['ix'] += 1; return c
    w = rng.choice(['waits', 'waits', 'status', 'gone'])
    if w == 'waits':
        x = [j for j in o['jobs'] if j['waits'] and not any(i['id'] == j['id'] and i is not j for i in o['jobs'])]
        if not x: return None
        j = rng.choice(x)
        if e['in']['kind'] in ('direct', 'grouped', 'shellone') or not e['in']['pre'] or True: j['waits'] = []
        needed = e['in']['pre'] or j['op'].startswith(('climatology_solve_0', 'climatology_solve_1', 'large_scale_solve_0', 'large_scale_solve_1', 'input_summaries_merge'))
        if not needed or 'prior' in j['op']: return None
        if not e['in']['pre'] and not any(x['op'] == j['op'].replace('solve', 'input').replace('merge', 'create') for x in o['jobs']): return None
    elif w == 'status': o['status'] = 'error' if o['status'] == 'ok' else 'ok'
    else:
        if not o['jobs'] or o['status'] != 'ok': return None
        o['jobs'].pop(rng.randrange(len(o['jobs'])))
    return c

def vacuity(traces):
    ev = [e for t in traces for e in t['events']]
    sub = [e for e in ev if e['a'] == 'submit']; n = lambda f: sum(1 for e in sub if f(e))
    return dict(submitted=n(lambda e: e['out']['status'] == 'ok'), refused=n(lambda e: e['out']['status'] == 'error'), several_batches=n(lambda e: len(set(j['op'] for j in e['out']['jobs'])) < len(e['out']['jobs'])),
                iterations=n(lambda e: e['in']['kind'] == 'multi' and e['in']['p']['last'] > e['in']['p']['first']), descriptors=sum(1 for e in ev if e['a'] == 'descriptor'),
                failed_runs=sum(1 for e in ev if e['a'] == 'elements' for x in e['out']['els'] if x['failed']), runs=sum(len(x['runs']) for e in ev if e['a'] == 'elements' for x in e['out']['els']))
