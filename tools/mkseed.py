#!/usr/bin/env python3
"""mkseed.py FILE.py: FILE.py defines SEEDS=[(id, property, [(file, old, new)...], demo_cpp, needs, breaks)]; each is applied to a scratch copy of the repository (see seed.sh), confirmed and undone."""
import sys, os, re, json, shutil, subprocess
R = os.environ.get('SEED_REPO', '/tmp/w/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for (i, prop, edits, demo, needs, breaks) in ns['SEEDS']:
    if only and i not in only: continue
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    ok = True
    for (f, a, b) in edits:
        p = R + '/' + f
        s = open(p).read()
        if s.count(a) != 1:
            print(i, 'text found', s.count(a), 'times in', f); ok = False; break
        open(p, 'w').write(s.replace(a, b))
    if not ok:
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.']); continue
    open(d + '/demo.cpp', 'w').write(demo)
    for h in re.findall(r'#include "(demo_\w+\.h)"', demo):
        shutil.copy('/verif/tools/demo/' + h, d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('=====', i, flush=True)
    subprocess.call(['bash', '/verif/tools/seed.sh', 'new', i])
