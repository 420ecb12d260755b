"""Development aid for planted bugs (no check uses it).
seed.py verify ID...        demo and stable tests with and without the patch, in scratch copies
seed.py catch ID PID...     run checks against a patched scratch copy"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu')


def copy(i):
    d = tempfile.mkdtemp(prefix=f'seed.{i}.', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def demo(i, d):
    with tempfile.TemporaryDirectory(prefix='demo') as t:
        x = os.path.join(t, 'x')
        shutil.copytree(os.path.join(ROOT, 'seeded', i), x, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = subprocess.run(['bash', os.path.join(x, 'demo.sh')], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]


def verify(i):
    d = copy(i)
    try:
        a, o = demo(i, d)
        if a:
            return i, False, f'demo fails on the clean tree: {o}'
        r = subprocess.run(['git', 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff')], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, False, 'patch: ' + r.stderr
        b, o = demo(i, d)
        if not b:
            return i, False, 'demo passes with the patch'
        x = os.path.join(d, 'junit.xml')
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--randomly-seed=0', '--randomly-dont-reorganize', '--timeout=300', '-o', 'junit_family=xunit2', f'--junitxml={x}'], cwd=d, env=ENV, capture_output=True)
        subprocess.run(['python3', '/opt/vp/results.py', d + '/out.json', 'junit:' + x], cwd=d, env=ENV, capture_output=True)
        res = json.load(open(d + '/out.json'))
        passed = set(res.get('passed', []))
        miss = STABLE - passed
        return i, not miss, ('tests fail: ' + ', '.join(sorted(miss)) if miss else 'ok; demo said: ' + o.strip()[-200:])
    finally:
        shutil.rmtree(d)


def catch(i, pids):
    d = copy(i)
    try:
        subprocess.run(['git', 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff')], cwd=d, check=True)
        for p in pids:
            r = subprocess.run([os.path.join(ROOT, 'harness', 'check'), p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if 'violation' in l.lower()]
            print(i, p, 'exit', r.returncode, (v[0][:300] if v else r.stdout[-200:] + r.stderr[-300:]), flush=True)
    finally:
        shutil.rmtree(d)


if sys.argv[1] == 'verify':
    with ThreadPoolExecutor(4) as ex:
        for i, ok, t in ex.map(verify, sys.argv[2:]):
            print('OK ' if ok else 'BAD', i, t, flush=True)
else:
    i = sys.argv[2]
    catch(i, sys.argv[3:] or [json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))['property']])
