"""C19: MallocFailureInject.c.

Data invariant INV of the module (established by the initialisers, preserved by every function, checked for both):
  (hook_malloc, hook_realloc) is (defaultMalloc, defaultRealloc) or (mock_malloc, mock_realloc); hook_free = defaultFree.
Contracts, for every c = allocations left before the failing one (0 = none):
  not armed:  malloc/realloc/free forward all arguments once to the real function and return its result
  armed(c):   c = 1 -> NULL, nothing forwarded, armed(0);  otherwise forwarded once, armed(c ? c-1 : 0)
  FailAllocation(n) -> armed(n);  Restore -> not armed;  free is forwarded always and never changes the countdown."""
from ..target import *

P = ('C19',)
T = 'MallocFailureInject'


def real(name):
    def h(ex, st, a, ins):
        o = Obj(fresh_name('real_' + name), 'ext', 1)
        r = Ptr(o, 0)
        log(st, name, tuple(a), r)
        return [(st, r)]
    return h


def real_free(ex, st, a, ins):
    log(st, 'free', tuple(a), None)
    return [(st, None)]


CON = {'malloc': real('malloc'), 'realloc': real('realloc'), 'free': real_free}
HOOKS = ('hook_malloc', 'hook_realloc', 'hook_free')


def mk():
    return Run('mallocinject', [T], CON, P)


def config(r, st, kind, c):
    """put the module into an abstract state"""
    names = {'default': ('defaultMalloc', 'defaultRealloc'), 'armed': ('mock_malloc', 'mock_realloc')}[kind]
    r.gset(st, 'hook_malloc', r.fptr(names[0]), 8)
    r.gset(st, 'hook_realloc', r.fptr(names[1]), 8)
    r.gset(st, 'hook_free', r.fptr('defaultFree'), 8)
    r.gset(st, 'g_allocationToFail', c)


def hookname(r, st, h):
    p = r.gget(st, h, 8, 0, True)
    return p.b.name if isinstance(p, Ptr) and p.off == 0 else None


def expect_inv(r, s, kind, what):
    names = {'default': ('defaultMalloc', 'defaultRealloc'), 'armed': ('mock_malloc', 'mock_realloc')}[kind]
    ok = (hookname(r, s, 'hook_malloc'), hookname(r, s, 'hook_realloc'), hookname(r, s, 'hook_free')) == names + ('defaultFree',)
    r.check(s, ok, '%s: hooks designate the %s functions' % (what, kind), P)


def run(budget=300):
    runs = []
    # initial state satisfies the invariant
    r = mk()
    r.ex.use_init = frozenset(HOOKS + ('g_allocationToFail',))
    runs.append(r)
    s = r.state()
    expect_inv(r, s, 'default', 'initially')
    arg = Ptr(Obj('block', 'ext', 1), 0)
    n = z3.BitVec('size', 64)
    c = z3.BitVec('countdown', 32)

    for kind in ('default', 'armed'):
        for fn, args in (('malloc', [n]), ('realloc', [arg, n]), ('realloc', [NULL, n]), ('free', [arg]), ('free', [NULL])):
            r = mk()
            runs.append(r)
            st = r.state()
            config(r, st, kind, c)
            p = r.gget(st, 'hook_' + fn, 8, 0, True)
            outs = r.callp(st, p, list(args))
            r.cover(outs, fn)
            for s in outs:
                lg = s.ghost['log']
                what = '%s %s' % (kind, fn)
                fwd = len(lg) == 1 and lg[0][0] == fn and len(lg[0][1]) == len(args) and all(same_val(x, y) for x, y in zip(lg[0][1], args))
                ret = s.done[1]
                c2 = r.gget(s, 'g_allocationToFail')
                if s.done[0] != 'ret':
                    r.check(s, False, what + ' returns', P)
                    continue
                if kind == 'default' or fn == 'free':
                    r.check(s, fwd, what + ' is forwarded once with its arguments', P)
                    if fwd and fn != 'free':
                        r.check(s, same_val(ret, lg[0][2]), what + ' returns the real result', P)
                    r.check(s, Eq(c2, c, 32), what + ' leaves the countdown alone', P)
                else:
                    isnull = isinstance(ret, Ptr) and ret.b is NULLOBJ
                    if isnull:
                        r.check(s, And(Eq(c, 1, 32), len(lg) == 0), what + ' fails only the requested allocation and forwards nothing', P)
                        r.check(s, Eq(c2, 0, 32), what + ' disarms after failing', P)
                    else:
                        r.check(s, Not(Eq(c, 1, 32)), what + ' fails the requested allocation', P)
                        r.check(s, fwd, what + ' is forwarded once with its arguments', P)
                        if fwd:
                            r.check(s, same_val(ret, lg[0][2]), what + ' returns the real result', P)
                        r.check(s, Eq(c2, If(Eq(c, 0, 32), 0, Sub(c, 1, 32), 32), 32), what + ' counts down by one', P)
                expect_inv(r, s, kind, what)
    for kind in ('default', 'armed'):
        m = z3.BitVec('requested', 32)
        r = mk()
        runs.append(r)
        st = r.state()
        config(r, st, kind, c)
        for s in r.call(st, 'MallocFailureInject_FailAllocation', [m]):
            expect_inv(r, s, 'armed', 'FailAllocation')
            r.check(s, Eq(r.gget(s, 'g_allocationToFail'), m, 32), 'FailAllocation(n) arms the n-th allocation', P)
            r.check(s, not s.ghost['log'], 'FailAllocation allocates nothing', P)
        r = mk()
        runs.append(r)
        st = r.state()
        config(r, st, kind, c)
        for s in r.call(st, 'MallocFailureInject_Restore', []):
            expect_inv(r, s, 'default', 'Restore')
            r.check(s, not s.ghost['log'], 'Restore allocates nothing', P)
    return runs


ASSUMPTIONS = [
    'the real malloc, realloc and free are recorded calls with arbitrary results',
]

UNITS = [('all', P, run)]
