#!/usr/bin/env python3
"""Verify a planted bug in a scratch copy of /repo (mounted over /repo in a
private mount namespace): builds, passes the stable tests, demo fails with and
passes without it; then run the check of its property against it.
  plant.py verify ID...      plant.py check ID...   (check only)"""
import sys, os, subprocess, json, shutil
V = '/verif'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(sc, cmd, t=1500):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (sc, cmd), timeout=t)
def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    sc = '/tmp/plant_sc'
    if not os.path.exists(sc): sh('cp -a /repo ' + sc)
    sh('git -C %s fetch -q /repo main && git -C %s checkout -q -f FETCH_HEAD' % (sc, sc))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        meta = json.load(open(d + '/meta.json'))
        sh('git -C %s checkout -q -- .' % sc)
        res = {}
        try:
            if mode == 'verify':
                r = ns(sc, 'bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-2000:]
                r = ns(sc, 'bash %s/demo.sh' % d, 320); res['demo_clean'] = r.returncode
                if r.returncode: print(r.stdout[-1500:])
            r = sh('git -C %s apply %s/patch.diff' % (sc, d)); assert r.returncode == 0, r.stdout
            if mode == 'verify':
                r = ns(sc, 'bash /opt/vp/test.sh /tmp/plant_o.json')
                o = json.load(open('/tmp/plant_o.json'))
                miss = stable - set(o['passed']); res['tests'] = 'ok' if not miss else sorted(miss)[:5]
                if not o['passed']: print(r.stdout[-2500:])
                r = ns(sc, 'bash %s/demo.sh' % d, 320); res['demo_bug'] = r.returncode
                res['demo_out'] = r.stdout[-200:]
            r = ns(sc, 'cd /verif && python3 run.py --property %s --tier quick' % meta['property'])
            res['check'] = r.returncode
            res['viol'] = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'error' in l or 'native' in l][:3]
        except Exception as x:
            res['error'] = str(x)[-1500:]
        sh('git -C %s checkout -q -- .' % sc)
        ok = mode == 'check' or (res.get('demo_clean') == 0 and res.get('tests') == 'ok' and res.get('demo_bug', 0) != 0)
        print(i, meta['property'], 'VALID' if ok else 'INVALID', 'CAUGHT' if res.get('check') == 1 else 'MISSED', res, flush=True)
main()
