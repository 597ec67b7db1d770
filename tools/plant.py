"""plant.py BUGS.py [ID...]: BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=str, needs, breaks)].
Applies each to /repo, builds, runs tests, demo, the check; keeps it under /verif/seeded/<id> when it counts."""
import json, os, subprocess, sys, runpy, pathlib, tempfile
R = pathlib.Path('/repo'); S = pathlib.Path('/verif/seeded')
def sh(cmd, t=900): 
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t)
def reset(): sh('git -C /repo checkout -- .')
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = set(sys.argv[2:])
assert not sh('git -C /repo status --porcelain -uno').stdout.strip()
for b in bugs:
    if want and b['id'] not in want: continue
    d = S / b['id']; keep = False
    try:
        d.mkdir(parents=True, exist_ok=True)
        (d/'demo.py').write_text(b['demo'])
        (d/'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d/'demo.sh', 0o755)
        (d/'meta.json').write_text(json.dumps({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1)+'\n')
        c = sh(f'cd /repo && bash {d}/demo.sh')
        if c.returncode != 0:
            print(b['id'], 'DEMO FAILS ON CLEAN', (c.stdout+c.stderr)[-600:]); continue
        for f, o, n in b['edits']:
            t = (R/f).read_text()
            assert t.count(o) == 1, (b['id'], f, t.count(o), o)
            (R/f).write_text(t.replace(o, n))
        (d/'patch.diff').write_text(sh('git -C /repo diff').stdout)
        bl = sh('bash /opt/vp/build.sh')
        if bl.returncode: print(b['id'], 'BUILD', bl.stderr[-300:]); continue
        c = sh(f'cd /repo && bash {d}/demo.sh', 300)
        if c.returncode == 0: print(b['id'], 'DEMO PASSES PATCHED'); continue
        out = tempfile.mktemp()
        sh(f'bash /opt/vp/test.sh {out}')
        r = json.load(open(out)); passed = set(r['passed']); 
        lost = base - passed
        if lost: print(b['id'], 'TESTS LOST', len(lost), sorted(lost)[:3]); continue
        k = sh(f'cd /verif && python3 -m sa {b["prop"]}')
        hit = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
        print(b['id'], b['prop'], 'KEPT', 'CAUGHT' if k.returncode == 1 and hit else f'MISSED rc={k.returncode}', flush=True)
        keep = True
    finally:
        reset()
        if not keep and d.exists():
            for f in d.iterdir(): f.unlink()
            d.rmdir()
