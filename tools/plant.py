#!/usr/bin/env python3
"""plant.py FILE...: FILE is python with ID, PROP, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (C++). Writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys
REPO = os.environ.get('PLANT_REPO', '/repo')
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = '/verif/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', REPO, 'status', '--short'], capture_output=True, text=True).stdout == ''
    try:
        for path, old, new in g['EDITS']:
            p = REPO + '/' + path
            s = open(p).read()
            n = g.get('COUNT', 1)
            assert s.count(old) == n, (f, path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    if 'DEMO' in g:
        open(d + '/demo.cc', 'w').write(g['DEMO'].lstrip())
        here = os.path.dirname(os.path.abspath(__file__)) + '/demo/'
        shutil.copy(here + 'mini.h', d)
        sh = open(here + 'demo.sh').read()
        if 'PROCESSES' in g:
            sh = sh.replace('./demo "$repo"', 'mpirun -np %d --oversubscribe --mca btl self,vader,tcp ./demo "$repo"' % g['PROCESSES'])
        open(d + '/demo.sh', 'w').write(sh)
    if 'DEMO_SH' in g:
        open(d + '/demo.sh', 'w').write(g['DEMO_SH'].lstrip())
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print('planted', g['ID'])
