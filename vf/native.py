"""Native driver: the real sources of /repo, compiled with sanitizers, against an executable oracle.  Used to replay refuted
obligations with a concrete input and as a bounded stand-in for undecided ones."""
import os, subprocess, tempfile, shutil, glob, concurrent.futures

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ['-U_FORTIFY_SOURCE', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift', '-fno-sanitize-recover=all']
# driver -> (glob patterns of the sources of /repo, extra compile flags, extra link flags, workers)
LIB = ['libCrashDebug/src/*.c', 'libcommon/src/*.c', 'libmocks/src/*.c']
DRV = {
    'mocks': (['libmocks/src/*.c'], [], ['-Wl,--wrap=malloc,--wrap=realloc,--wrap=free,--wrap=fopen,--wrap=fclose,--wrap=fseek,--wrap=ftell,--wrap=fwrite,--wrap=fread,--wrap=fgets,--wrap=printf,--wrap=fprintf']),
    'platform': (['libCrashDebug/src/mriPlatform.c', 'libCrashDebug/src/StandardIComm.c', 'libCrashDebug/src/MemorySim.c', 'libcommon/src/*.c', 'main/MockDefaults.c'], [],
                 ['-Wl,--wrap=read,--wrap=write,--wrap=select']),
    'memsim': (['libCrashDebug/src/MemorySim.c', 'libcommon/src/try_catch.c', 'main/MockDefaults.c'], [], []),
    'loaders': (['libCrashDebug/src/MemorySim.c', 'libCrashDebug/src/ElfLoad.c', 'libCrashDebug/src/CrashCatcherDump.c', 'libCrashDebug/src/GdbLogParser.c', 'libCrashDebug/src/CrashDebugCommandLine.c', 'libcommon/src/*.c', 'main/*.c'], [], []),
    'trycatch': (['libcommon/src/try_catch.c'], [], []),
}


def build(drv, d):
    pats, cf, lf = DRV[drv]
    inc = ['-I%s/include' % REPO, '-I%s/libCrashDebug/src' % REPO, '-I%s/stubs/include' % VERIF, '-I%s/drivers' % VERIF]
    srcs = []
    for p in pats:
        srcs += sorted(glob.glob(os.path.join(REPO, p)))
    jobs = []
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, 'o%d.o' % i)
        objs.append(o)
        jobs.append(['gcc', '-std=gnu90', '-w', '-include', 'stdlib.h', '-fno-common', '-c', s, '-o', o] + SAN + cf + inc + (['-Dmain=program_main'] if s.endswith('/main.c') else []))
    o = os.path.join(d, 'drv.o')
    objs.append(o)
    jobs.append(['g++', '-std=gnu++17', '-w', '-fno-builtin', '-c', os.path.join(VERIF, 'drivers', drv + '.cpp'), '-o', o] + SAN + inc)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
    for c, r in zip(jobs, rs):
        if r.returncode:
            return 'compile: %s\n%s' % (' '.join(c[:8]), r.stderr[-3000:])
    exe = os.path.join(d, 'drv')
    r = subprocess.run(['g++', '-o', exe] + objs + SAN + lf, capture_output=True, text=True)
    if r.returncode:
        return 'link: ' + r.stderr[-3000:]
    return None


def run(prop, drv, seed, tier, secs, workers=6):
    d = tempfile.mkdtemp(prefix='vfdrv')
    try:
        err = build(drv, d)
        if err:
            return dict(status='builderror', summary='the driver does not build: ' + err, output=err)
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:symbolize=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
        ps = []
        for w in range(workers):
            wd = os.path.join(d, 'w%d' % w)
            os.mkdir(wd)
            ps.append(subprocess.Popen([os.path.join(d, 'drv'), prop, str(seed * 1000 + w), str(int(secs))], cwd=wd, env=env,
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        outs = []
        bad = None
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            def wait(p):
                try:
                    o, _ = p.communicate(timeout=secs + 60)
                    return p.returncode, o.decode('latin-1')
                except subprocess.TimeoutExpired:
                    p.kill()
                    o, _ = p.communicate()
                    return 'timeout', o.decode('latin-1')
            rs = list(ex.map(wait, ps))
        cases = 0
        for rc, o in rs:
            for l in o.splitlines():
                if l.startswith('CASES '):
                    cases += int(l.split()[1])
            if rc != 0 and bad is None:
                bad = (rc, o)
        if bad is None:
            return dict(status='ok', summary='%d cases, no violation' % cases, output='', cases=cases)
        rc, o = bad
        if rc == 'timeout':
            # a hang is a violation only when the driver says which case it was in
            return dict(status='fail', summary='the code does not terminate on a case', output=o[-6000:])
        first = next((l for l in o.splitlines() if l.startswith('FAIL') or 'ERROR: AddressSanitizer' in l or 'runtime error' in l), 'exit code %s' % rc)
        return dict(status='fail', summary=first, output=o[-8000:] + '\nreplay: driver %s, property %s, seed %d\n' % (drv, prop, seed))
    finally:
        shutil.rmtree(d, ignore_errors=True)
