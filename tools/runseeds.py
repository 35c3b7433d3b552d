#!/usr/bin/env python3
"""runseeds.py [ids...]: run the check of each seeded bug's property against a scratch copy of /repo with the bug."""
import os, sys, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(os.listdir(os.path.join(V, 'seeded')))
sel = sys.argv[1:]
for i in ids:
    d = os.path.join(V, 'seeded', i)
    if sel and not any(x in i for x in sel):
        continue
    m = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='rs')
    try:
        c = os.path.join(w, 'repo')
        subprocess.run(['cp', '-a', '/repo', c])
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=c, capture_output=True, text=True)
        if r.returncode:
            print(i, 'patch does not apply', r.stderr)
            continue
        env = dict(os.environ, VF_REPO=c, VERIF_SEED='1')
        ev = os.path.join(V, 'evidence', m['property'] + '.json')
        keep = open(ev).read() if os.path.exists(ev) else None
        r = subprocess.run(['python3-vt', '-m', 'vf.check', m['property']], cwd=V, env=env, capture_output=True, text=True)
        if keep is not None:
            open(ev, 'w').write(keep)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  refuted') or l.startswith('  undec') or 'native driver' in l or 'held' in l]
        print('%-8s rc=%d %s' % (i, r.returncode, 'CAUGHT' if r.returncode == 1 and any(l.startswith('VIOLATION property=%s ' % m['property']) for l in v) else 'MISSED'))
        for l in v[:6] + v[-2:]:
            print('      ', l[:200])
        if r.returncode not in (0, 1):
            print(r.stderr[-1000:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
