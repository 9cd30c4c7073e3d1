"""Rebuild what the harnesses import, from the current working tree of the repository, into a scratch tree.

The repository is Python 2.7; the sandbox's own translator (/opt/vp/py3/translate.py) is reused unchanged, file by
file, into a private tree, leaving out only test packages and one very slow example module. C/Cython extensions are compiled from the translated
sources when a harness asks for them; the C++ part is compiled directly from /repo/src/cpp together with a driver.
"""
import importlib.util, os, subprocess, sys, time, multiprocessing, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
SUPPORT = '/opt/vp/py3'

EXT = {
    'aggregate': 'eustace/satgrid/aggregate.c',
    'sumcountmaxmin': 'eustace/satgrid_iris/gridbin/operation/sumcountmaxmin.pyx',
    'count': 'eustace/satgrid_iris/gridbin/operation/count.pyx',
    'sumsq': 'eustace/satgrid_iris/gridbin/operation/sumsq.pyx',
    'sumsqdev': 'eustace/satgrid_iris/gridbin/operation/sumsqdev.pyx',
    'diagnosticgrid_aggregate': 'eustace/analysis/diagnosticgrid_aggregate.pyx',
    'locator_search_planes': 'eustace/analysis/mesh/locator_search_planes.pyx',
    'qinv': 'eustace/analysis/advanced_standard/linalg/qinv.pyx',
}

class BuildError(Exception):
    pass

TRANSLATE = r'''
import sys, os, importlib.util
repo, tree = sys.argv[1:3]
sys.argv = ['translate', repo, tree]
spec = importlib.util.spec_from_file_location('vtranslate', '%s/translate.py')
m = importlib.util.module_from_spec(spec); sys.modules['vtranslate'] = m
spec.loader.exec_module(m)
m.LEFT_OUT.add(os.path.join('src','eustace','outputformats','examples','worldmap.py'))
m.LEFT_OUT_DIRS |= {'data','images','docs','bin','test'}
sys.exit(m.main())
''' % SUPPORT

def translate(tree):
    env = dict(os.environ, PYTHONPATH='', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    p = subprocess.run([VENV, '-W', 'ignore', '-c', TRANSLATE, REPO, tree], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode not in (0, 1):
        raise BuildError('translation failed:\n' + p.stdout[-2000:])
    return p.stdout

def _ext(job):
    tree, name, rel = job
    src = os.path.join(tree, 'src', rel)
    inc = subprocess.check_output([VENV, '-c', 'import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_path("include"));print(sysconfig.get_config_var("EXT_SUFFIX"))'], universal_newlines=True, env=dict(os.environ, PYTHONPATH='')).split()
    c = src
    if rel.endswith('.pyx'):
        c = os.path.join(tree, 'cbuild', name + '.c')
        os.makedirs(os.path.dirname(c), exist_ok=True)
        p = subprocess.run([VENV, '-m', 'cython', '-X', 'embedsignature=True', '-o', c, rel], cwd=os.path.join(tree, 'src'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=dict(os.environ, PYTHONPATH=''))
        if p.returncode: return name + ':\n' + p.stdout
    so = os.path.splitext(src)[0] + inc[2]
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-fwrapv', '-w', '-I', inc[0], '-I', inc[1], c, '-o', so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode: return name + ':\n' + p.stdout
    return None

def extensions(tree, names):
    jobs = [(tree, n, EXT[n]) for n in names if os.path.exists(os.path.join(tree, 'src', EXT[n]))]
    if not jobs: return
    with multiprocessing.Pool(8) as pool:
        errs = [e for e in pool.map(_ext, jobs) if e]
    if errs:
        raise BuildError('extension build failed:\n' + '\n'.join(errs)[-3000:])

def cpp(tree, driver, sources, out, libs=()):
    """Compile sources of /repo/src/cpp with a driver into one program."""
    os.makedirs(os.path.join(tree, 'cbuild'), exist_ok=True)
    objs, procs = [], []
    root = os.path.join(REPO, 'src', 'cpp')
    for s in sources + [driver]:
        path = s if os.path.isabs(s) else os.path.join(root, s)
        o = os.path.join(tree, 'cbuild', os.path.basename(path).replace('.cpp', '.o'))
        objs.append(o)
        procs.append((path, subprocess.Popen(['g++', '-std=c++14', '-O1', '-w', '-I', root, '-I', os.path.join(root, 'eustace'), '-c', path, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)))
    for path, p in procs:
        text, _ = p.communicate()
        if p.returncode: raise BuildError('g++ %s:\n%s' % (path, text[-2000:]))
    p = subprocess.run(['g++'] + objs + ['-o', out] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode: raise BuildError('link:\n' + p.stdout[-2000:])

def run_env(tree, extra=()):
    env = dict(os.environ)
    env.update(LC_ALL='C.UTF-8', TZ='UTC', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               PYTHONPATH=':'.join([SUPPORT + '/compat', tree + '/src', '/verif/harness' if os.path.isdir('/verif/harness') else '']),
               LD_LIBRARY_PATH=SUPPORT + '/lib:/opt/venv/lib', VERIF_TREE=tree, VERIF_REPO=REPO)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env['PYTHONPATH'] = ':'.join([SUPPORT + '/compat', tree + '/src', here + '/harness'])
    env['VERIF_HOME'] = here
    env.update(dict(extra))
    return env

if __name__ == '__main__':
    t = time.time(); translate(sys.argv[1]); print('translate', time.time() - t)
    t = time.time(); extensions(sys.argv[1], list(EXT)); print('ext', time.time() - t)
