#!/usr/bin/env python3
"""mkseed.py FILE...: build /verif/seeded/<id>/ from the seed descriptions in tools/seeds/*.py and confirm each in a scratch
copy of /repo (patch applies, builds, stable tests pass, demo passes without and fails with the change)."""
import os, sys, subprocess, shutil, json, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MOCK = '''#!/bin/bash
# run with cwd = the repository; builds the real sources with the demonstration and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
R=$PWD
n=0
for f in %(srcs)s; do
  n=$((n+1))
  gcc -std=gnu90 -w -include stdlib.h -g -O1 -fno-common %(san)s -I"$R/include" -I"$R/libCrashDebug/src" -I"$here/stubs" -c "$R/$f" -o "$t/o$n.o" || exit 3
done
gcc -std=gnu90 -w -include stdlib.h -g -O1 -fno-common %(san)s -I"$R/include" -I"$R/libCrashDebug/src" -I"$here/stubs" -c "$here/demo.c" -o "$t/demo.o" || exit 3
gcc %(san)s "$t"/*.o -o "$t/demo" || exit 3
cd "$t" || exit 2
export ASAN_OPTIONS=detect_leaks=0
timeout 60 ./demo
'''
ALL = ['libCrashDebug/src/%s.c' % x for x in ('MemorySim', 'ElfLoad', 'CrashCatcherDump', 'GdbLogParser', 'CrashDebugCommandLine', 'StandardIComm', 'mriPlatform')] + \
      ['libcommon/src/common.c', 'libcommon/src/try_catch.c', 'libmocks/src/MallocFailureInject.c', 'libmocks/src/FileFailureInject.c', 'libmocks/src/printfSpy.c']


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed')
    try:
        c = os.path.join(w, 'repo')
        sh('cp -a /repo %s' % c)
        for (f, old, new) in s['edits']:
            p = os.path.join(c, f)
            b = open(p, 'rb').read().decode('latin-1')
            crlf = '\r\n' in b
            t = b.replace('\r\n', '\n')
            if t.count(old) != 1:
                return '%s: edit text occurs %d times in %s' % (s['id'], t.count(old), f)
            t = t.replace(old, new)
            open(p, 'wb').write((t.replace('\n', '\r\n') if crlf else t).encode('latin-1'))
        r = subprocess.run(['git', 'diff', '--binary'], cwd=c, capture_output=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(r.stdout)
        srcs = s.get('srcs', ALL)
        open(os.path.join(d, 'demo.sh'), 'w').write(MOCK % dict(srcs=' '.join(srcs), san='-fsanitize=address,undefined -fno-sanitize=alignment,shift -fno-sanitize-recover=all' if s.get('san', True) else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.c'), 'w').write(s['demo'])
        if srcs is ALL or s.get('stubs'):
            shutil.copytree(os.path.join(V, 'stubs', 'include'), os.path.join(d, 'stubs'))
            shutil.copytree(os.path.join(V, 'stubs', 'mri'), os.path.join(d, 'mri'))
            st = os.path.join(V, 'stubs', 'demo')
            if os.path.isdir(st):
                for x in os.listdir(st):
                    shutil.copy(os.path.join(st, x), os.path.join(d, x))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # confirm: the demo is laid elsewhere
        e = os.path.join(w, 'else')
        shutil.copytree(d, e)
        os.remove(os.path.join(e, 'patch.diff'))
        os.remove(os.path.join(e, 'meta.json'))
        r0 = sh('bash %s/demo.sh' % e, cwd='/repo')
        r1 = sh('bash %s/demo.sh' % e, cwd=c)
        msg = 'clean rc %d, patched rc %d' % (r0.returncode, r1.returncode)
        if r0.returncode or r1.returncode in (0, 2, 3):
            return '%s: BAD %s\n%s\n%s' % (s['id'], msg, (r0.stdout + r0.stderr)[-1500:], (r1.stdout + r1.stderr)[-1500:])
        # stable tests: build the patched copy in place of /repo is left to vcheck; here: libmocks only
        if any(x[0].startswith('libmocks') for x in s['edits']):
            a = sh('git apply %s/patch.diff' % d, cwd='/repo')
            if a.returncode:
                return '%s: patch does not apply: %s' % (s['id'], a.stderr)
            try:
                b = sh('bash /opt/vp/build.sh')
                o = os.path.join(w, 'o.json')
                t = sh('bash /opt/vp/test.sh %s' % o)
                res = open(o).read() if os.path.exists(o) else ''
            finally:
                sh('git checkout -- .', cwd='/repo')
                sh('bash /opt/vp/build.sh')
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            j = json.loads(res)
            ok = set(j.get('passed', j.get('pass', [])))
            if not base <= ok:
                return '%s: BAD tests fail: %s' % (s['id'], sorted(base - ok)[:4])
        return '%s: ok (%s)' % (s['id'], msg)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(V, 'tools'))
    pats = sys.argv[1:]
    for f in sorted(os.listdir(os.path.join(V, 'tools', 'seeds'))):
        if not f.endswith('.py'):
            continue
        ns = {'ALL': ALL}
        exec(open(os.path.join(V, 'tools', 'seeds', f)).read(), ns)
        for s in ns['SEEDS']:
            if pats and not any(p in s['id'] for p in pats):
                continue
            print(make(s), flush=True)
