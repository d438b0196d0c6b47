# seed(id, property, [(file, old, new)], needs, breaks, demo): write /verif/seeded/<id>
import os, subprocess, json, shutil
SC = '/tmp/plant_sc'
def seed(i, prop, edits, needs, breaks, demo):
    if not os.path.exists(SC): subprocess.run(['cp', '-a', '/repo', SC], check=True)
    g = lambda *a: subprocess.run(['git', '-C', SC] + list(a), check=True, stdout=subprocess.PIPE, text=True).stdout
    g('fetch', '-q', '/repo', 'main'); g('checkout', '-q', '-f', 'FETCH_HEAD')
    for f, old, new in edits:
        p = SC + '/' + f; s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(g('diff')); g('checkout', '-q', '--', '.')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for f in ('demo.sh', 'demo.h'): shutil.copy('/verif/lib/seedkit/' + f, d)
    open(d + '/demo.cc', 'w').write('#include "demo.h"\n' + demo)
