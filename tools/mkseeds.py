#!/usr/bin/env python3
"""mkseeds.py FILE... : write /verif/seeded/<id>/ from python files defining SEEDS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}."""
import json, os, subprocess, sys, runpy, shutil, stat
SH = '''#!/bin/bash
# run with cwd = repository, after the build
here="$(cd "$(dirname "$0")" && pwd)"
export LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export PYTHONPATH=/opt/vp/py3/compat:${DEMO_TREE:-/opt/eustace-py3}/src
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
exec_demo() { DEMO_WORK="$work" LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib timeout 250 /opt/venv/bin/python "$here/demo.py"; }
exec_demo
'''
only = None
args = sys.argv[1:]
if '--only' in args:
    i = args.index('--only'); only = set(args[i+1].split(',')); del args[i:i+2]
for f in args:
    seeds = runpy.run_path(f)['SEEDS']
    for sid, s in seeds.items():
        if only and sid not in only: continue
        w = '/tmp/mkseed'
        if os.path.exists(w): shutil.rmtree(w)
        subprocess.check_call(['git', 'clone', '-q', '--no-checkout', '--shared', '/repo', w])
        files = sorted({e[0] for e in s['edits']})
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', 'HEAD', '--'] + files)
        for name, old, new in s['edits']:
            p = os.path.join(w, name)
            t = open(p, encoding='latin-1', newline='').read()
            if t.count(old) != 1: sys.exit('%s: %d matches in %s of %r' % (sid, t.count(old), name, old))
            open(p, 'w', encoding='latin-1', newline='').write(t.replace(old, new))
        d = subprocess.check_output(['git', '-C', w, 'diff', 'HEAD', '--'] + files)
        out = '/verif/seeded/' + sid
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(d)
        sh = s.get('sh', SH)
        open(out + '/demo.sh', 'w').write(sh)
        os.chmod(out + '/demo.sh', 0o755)
        for n, t in s.get('files', {}).items(): open(os.path.join(out, n), 'w').write(t)
        if 'demo' in s: open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(w)
        print(sid)
