"""plant2.py BUGS.py [ID...]: like plant.py, but in scratch copies of /repo (several at a time), so that /repo stays untouched.
BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]; old == "" appends."""
import json, os, subprocess, sys, runpy, pathlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
S = pathlib.Path('/verif/seeded')
N = int(os.environ.get('PLANT_N', '3'))
def sh(cmd, t=900, env=None):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = set(sys.argv[2:])
pool = []
lock = threading.Lock()
for i in range(N):
    r = pathlib.Path(f'/tmp/plant_repo{i}')
    shutil.rmtree(r, ignore_errors=True)
    sh(f'cp -a /repo {r}')
    pool.append(r)
def one(b):
    with lock: R = pool.pop()
    try: return one_(b, R)
    except Exception as e: return f'{b["id"]} ERROR {e!r}'[:400]
    finally:
        sh(f'git -C {R} checkout -- .')
        with lock: pool.append(R)
def one_(b, R):
    d = pathlib.Path(tempfile.mkdtemp(prefix='plant_'))
    env = {'PYTHONPATH': f'{R}/src', 'PYTHONDONTWRITEBYTECODE': '1'}
    (d/'demo.py').write_text(b['demo'])
    (d/'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d/'demo.sh', 0o755)
    (d/'meta.json').write_text(json.dumps({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1)+'\n')
    c = sh(f'cd {R} && bash {d}/demo.sh', env=env)
    if c.returncode != 0:
        return b['id'] + ' DEMO FAILS ON CLEAN ' + (c.stdout+c.stderr)[-900:]
    for f, o, n in b['edits']:
        t = (R/f).read_text()
        if o == '': (R/f).write_text(t + n); continue
        if t.count(o) != 1: return f'{b["id"]} EDIT {f} matches {t.count(o)}: {o[:80]}'
        (R/f).write_text(t.replace(o, n))
    (d/'patch.diff').write_text(sh(f'git -C {R} diff').stdout)
    c = sh(f'cd {R} && bash {d}/demo.sh', 300, env)
    if c.returncode == 0: return b['id'] + ' DEMO PASSES PATCHED'
    demo_out = (c.stdout + c.stderr).strip().splitlines()[-1:]
    w = tempfile.mkdtemp(prefix='plantw_')
    sh(f'cd {R} && /opt/venv/bin/python -m pytest -q -n 4 -p no:cacheprovider --timeout=300 --tb=line --continue-on-collection-errors '
       f'--basetemp={w}/tmp -o junit_family=xunit2 --junitxml={w}/junit.xml', env=env)
    sh(f'python3 /opt/vp/results.py {w}/out.json junit:{w}/junit.xml')
    passed = set(json.load(open(f'{w}/out.json'))['passed'])
    shutil.rmtree(w)
    lost = base - passed
    if lost: return f'{b["id"]} TESTS LOST {len(lost)} {sorted(lost)[:3]}'
    k = sh(f'cd /tmp/plant_verif && python3 -m sa {b["prop"]}', env={'VERIF_REPO': str(R)})
    hit = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
    t = S / b['id']
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t); shutil.rmtree(d)
    return f'{b["id"]} {b["prop"]} KEPT ' + ('CAUGHT' if k.returncode == 1 and hit else f'MISSED rc={k.returncode} {k.stderr[-200:]}') + f' {demo_out}'[:200]
sh('rm -rf /tmp/plant_verif; mkdir /tmp/plant_verif; cp -a /verif/sa /verif/spec /verif/props /verif/known_findings.json /verif/properties.jsonl /tmp/plant_verif/')
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, [b for b in bugs if not want or b['id'] in want]):
        print(r, flush=True)
for i in range(N): shutil.rmtree(f'/tmp/plant_repo{i}', ignore_errors=True)
