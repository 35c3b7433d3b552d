"""Check runner: python3-vt -m vf.check <property> [--thorough]

1. every proof unit of the property is run (each in its own process): clang compiles the sources of /repo to IR, the
   generator produces the obligations and the solvers discharge them;
2. all discharged -> exit 0.  An obligation refuted by a solver -> the native driver (real sources, sanitizers, executable
   oracle) looks for a concrete failing input; VIOLATION either way.  Undecided obligations (unsupported construct, solver
   timeout) -> the native driver runs as a bounded stand-in and decides, labelled bounded in the evidence."""
import os, sys, time, json, traceback, multiprocessing, importlib, signal, queue

from . import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)


def work(mod, unit, q, budget):
    """run one proof unit; the result is plain data"""
    out = dict(unit='%s.%s' % (mod, unit), obs=[], error=None, loops=[], funcs=[], assumptions=[], stats={}, covers=0, build=False)
    t = time.time()
    try:
        import z3
        from . import smt, target, core
        from .core import Unsupported
        m = importlib.import_module('vf.specs.' + mod)
        fn = dict((u[0], u[2]) for u in m.UNITS)[unit]
        runs = target.RUNS
        try:
            fn()
        except target.BuildError as e:
            out['error'] = ('build', str(e))
        except Unsupported as e:
            out['error'] = ('unsupported', '%s [%s]' % (e, tb_where()))
        except Exception as e:
            out['error'] = ('internal', '%s: %s [%s]' % (type(e).__name__, e, tb_where()))
            if os.environ.get('VF_V'):
                traceback.print_exc()
        for r in runs:
            for o in r.ex.obs:
                out['obs'].append((o.name, o.props, o.status, round(o.time, 4), o.backend, o.model))
            out['loops'] += [list(map(str, l)) for l in r.ex.loops_done]
            out['funcs'] += ['%s.c:%s' % x for x in r.ex.seen_funcs]
            out['covers'] += getattr(r.ex, 'covers', 0)
            out['assumptions'] += sorted(r.ex.assumed)
        out['assumptions'] += getattr(m, 'ASSUMPTIONS', [])
        out['stats'] = dict(queries=smt.STATS.queries, time=smt.STATS.time, maxt=smt.STATS.maxt, by=smt.STATS.by)
    except Exception as e:
        out['error'] = ('internal', '%s: %s' % (type(e).__name__, e))
    out['wall'] = time.time() - t
    q.put(out)


def tb_where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(tb[-4:]))


def run_units(units, budget, jobs):
    """[(mod, unit)] -> results"""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    todo = list(units)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < jobs:
            mod, u = todo.pop(0)
            p = ctx.Process(target=work, args=(mod, u, q, budget))
            p.start()
            live['%s.%s' % (mod, u)] = (p, time.time())
        try:
            o = q.get(timeout=0.5)
            res[o['unit']] = o
            p, _ = live.pop(o['unit'], (None, 0))
            if p:
                p.join(5)
        except queue.Empty:
            pass
        for k, (p, t0) in list(live.items()):
            if time.time() - t0 > budget:
                p.kill()
                p.join()
                live.pop(k)
                res[k] = dict(unit=k, obs=[], error=('timeout', 'time budget of %d s exhausted' % budget), loops=[], funcs=[], assumptions=[],
                              stats={}, covers=0, wall=budget)
            elif not p.is_alive() and q.empty():
                time.sleep(0.3)
                if not q.empty():
                    continue
                live.pop(k)
                res[k] = dict(unit=k, obs=[], error=('internal', 'unit process died (exit %s)' % p.exitcode), loops=[], funcs=[],
                              assumptions=[], stats={}, covers=0, wall=time.time() - t0)
    return [res['%s.%s' % u] for u in units]


def main(argv):
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if tier == 'thorough':
        os.environ.setdefault('VF_TIMEOUT_MS', '60000')
    units = registry.units(prop)
    jobs = int(os.environ.get('VF_JOBS', '8'))
    res = run_units(units, int(os.environ.get('VF_UNIT_BUDGET', '420' if tier == 'quick' else '3000')), jobs)
    obs = []
    for r in res:
        for o in r['obs']:
            if prop in o[1] or r.get('error') and False:
                obs.append(o + (r['unit'],))
    errors = [(r['unit'],) + tuple(r['error']) for r in res if r['error']]
    failed = [o for o in obs if o[2] == 'failed']
    undecided = [o for o in obs if o[2] in ('unknown', 'vacuous')]
    discharged = [o for o in obs if o[2] == 'proved']
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided, %d units (%d not completed), %.1f s' % (
        prop, len(obs), len(discharged), len(failed), len(undecided), len(res), len(errors), time.time() - t0))
    for e in errors:
        print('  undecided unit %s: %s: %s' % e)
    for o in undecided[:20]:
        print('  undecided obligation %s' % o[0])
    if os.environ.get('VF_V'):
        for o in failed[:10]:
            print('  refuted %s\n%s' % (o[0], o[5]))
    names = []
    for o in failed:
        if o[0] not in names:
            names.append(o[0])
    for n in names[:20]:
        print('  refuted obligation %s' % n)
    code = 0
    standin = None
    violations = 0
    drv = registry.driver(prop)
    builderr = [e for e in errors if e[1] == 'build']
    if failed or errors or undecided or not discharged or tier == 'thorough':
        from . import native
        left = 840 - (time.time() - t0) if tier == 'quick' else 3600
        standin = native.run(prop, drv, seed, tier, max(20, min(left - 60, 240 if tier == 'quick' else 900)))
        print('  native driver %s: %s' % (drv, standin['summary']))
    replay = None
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    if failed or (standin and standin['status'] == 'fail'):
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, '%s.txt' % prop)
        with open(replay, 'w') as f:
            f.write('property %s\n' % prop)
            for o in failed[:30]:
                f.write('\nfailed obligation: %s\nsolver: %s\n%s\n' % (o[0], o[4], o[5] or ''))
            if standin:
                f.write('\nnative driver: %s\n%s\n' % (standin['summary'], standin.get('output', '')))
        found = standin and standin['status'] == 'fail'
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found else ' no-failing-input-found'))
        violations = 1
        code = 1
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        l = l.strip()
        if l and not l.startswith('#') and not l.startswith('fixed:') and ('property=%s ' % prop) in l:
            print('KNOWN-FINDING: ' + l)
    by = {}
    for o in discharged:
        by[o[4]] = by.get(o[4], 0) + 1
    uniq = sorted(set(o[0] for o in obs))
    cov = dict(
        obligations=len(obs), discharged=len(discharged),
        distinct_obligation_names=len(uniq),
        discharged_by_backend=by,
        solver_queries=sum(r['stats'].get('queries', 0) for r in res),
        solver_time_s=round(sum(r['stats'].get('time', 0) for r in res), 2),
        slowest_query_s=round(max([r['stats'].get('maxt', 0) for r in res] or [0]), 2),
        vacuity_covers=sum(r['covers'] for r in res),
        checker_cmd='python3-vt -m vf.check %s' % prop,
        trusted_base=registry.TRUSTED,
        functions_under_contract=sorted(set(f for r in res for f in r['funcs'])),
        loops=sorted(set('%s: %s' % tuple(l) for r in res for l in r['loops'])),
        units=[dict(unit=r['unit'], wall_s=round(r['wall'], 1), obligations=len(r['obs']), error=r['error']) for r in res],
        undecided=[o[0] for o in undecided][:50] + ['%s: %s' % (e[0], e[2]) for e in errors],
        refuted=names[:50],
        samples=uniq[:12])
    if standin:
        cov['bounded_standin' if (errors or undecided) else 'native_cross_check'] = dict(
            driver=drv, status=standin['status'], summary=standin['summary'],
            bound='randomised and directed inputs for the stated number of cases; never counted as proved')
    ev = dict(property=prop, tier=tier, seed=seed, level=registry.level(prop), coverage=cov,
              assumptions=sorted(set(a for r in res for a in r['assumptions'])) + registry.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    nothing = code == 0 and not discharged and standin is not None and standin['status'] not in ('ok', 'fail')
    if nothing:
        # neither a single obligation nor the stand-in said anything (the sources do not compile): no answer
        code = 2
    print('%s: %s (%.1f s)' % (prop, 'NO ANSWER' if nothing else 'VIOLATED' if code else 'held', time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
