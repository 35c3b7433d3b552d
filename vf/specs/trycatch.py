"""C17: include/try_catch.h (the macros themselves, used by contracts/tc.c) and try_catch.c.

Contract of code that may throw (body): it returns with the handler chain as at its entry and the code as it was (0 inside a
try), or it transfers control to the handler at the head of the chain, with the chain still as at its entry, the code the larger
of its own and the pending one, and its message in the message buffer.
Proved: a throw satisfies it; every construct built from the macros out of bodies satisfying it satisfies it again (this is the
induction step over the nesting depth, the outer chain being arbitrary), runs exactly the handler of the innermost construct, and
runs none when nothing was thrown."""
from ..target import *
from ..exc import *
from ..libc import cstr

P = ('C17',)


class TC:
    def __init__(self, name, outer=True):
        def mark(ex, st, a, ins):
            st.ghost['ev'] = st.ghost['ev'] + ((a[0], self.snap(st)),)
            return [(st, None)]

        def body(ex, st, a, ins):
            # contract of arbitrary code that may throw
            s2 = st.copy()
            c = z3.BitVec('thrown%d' % a[0], 32)
            s2.assume(c > 0)
            m = uf_store('message%d' % a[0], 8, 64)
            st.ghost['ev'] = st.ghost['ev'] + (('ret', a[0]),)
            s2.ghost['ev'] = s2.ghost['ev'] + (('throw', a[0], c, m, code(r, s2)),)
            out = [(st, None)]
            x = ex.throw(s2, c, msg='keep')
            s2.mem[ex.gmsg] = Content({}, m)
            return out + [x]

        def snprintf(ex, st, a, ins):
            buf, n = a[0], a[1]
            same = isinstance(buf, Ptr) and buf.b is ex.gmsg and buf.off == 0
            if not same or not isinstance(n, int):
                raise Unsupported('formatting elsewhere')
            ex.oblige(st, 0 < n, 'the message is terminated')
            L = z3.BitVec('formattedLength', 64)
            txt = z3.Function('formatted', z3.BitVecSort(64), z3.BitVecSort(8))
            k = z3.BitVec('n', 64)
            m = z3.If(z3.ULT(L, n - 1), L, z3.BitVecVal(n - 1, 64))
            rest = z3.Function('rest', z3.BitVecSort(64), z3.BitVecSort(8))
            f = lambda i: S(z3.If(z3.ULT(bv(i, 64), m), txt(bv(i, 64)), z3.If(bv(i, 64) == m, z3.BitVecVal(0, 8), rest(bv(i, 64)))))
            if n == buf.b.size:
                ex.access_range(st, buf, n, 'store')
                st.mem[buf.b] = Content({}, Store(f, 8, 'formatted'))
            else:
                ex.write_range(st, buf, n, f)
            st.ghost['ev'] = st.ghost['ev'] + (('fmt', n, tuple(a[2:])),)
            return [(st, S(z3.Extract(31, 0, L)))]
        self.r = r = Run('trycatch/' + name, ['try_catch'], {'mark': mark, 'body': body, 'snprintf': snprintf,
                         'nd_code': lambda ex, st, a, ins: [(st, self.nd(st))]},
                         P, extra={'tc': extra_module(os.path.join(VERIF, 'contracts', 'tc.c'), 'tc')})
        self.ex = r.ex
        st = self.st = r.state()
        st.ghost['ev'] = ()
        self.c0 = setup(r, st, outer)
        st.mem[r.ex.gmsg] = Content({}, uf_store('message0', 8, 64))

    def nd(self, st):
        c = z3.BitVec('ownCode', 32)
        st.assume(c > 0)
        return c

    def snap(self, st):
        return (code(self.r, st), chain_ok(self.r, st))

    def msg_is(self, st, m):
        """the message buffer holds the message of a body"""
        i = z3.BitVec('anyIndex', 64)
        c = self.ex.content(st, self.ex.gmsg)
        j = z3.ULT(i, 1024)
        if c.flds is None and not c.cells and c.bg is not None:
            v = c.bg.read(i)
            return Implies(j, Eq(v, m.read(i), 8))
        rd = self.ex.byte_reader(st, Ptr(self.ex.gmsg, 0))
        return Implies(j, Eq(rd(i), m.read(i), 8))

    def run(self, fn, args=()):
        outs = self.r.call(self.st, fn, list(args))
        self.r.cover(outs, fn)
        return outs


def maxs(a, b):
    return If(S(bv(a, 32) > bv(b, 32)), a, b, 32)


def throws():
    """a throw reaches the head of the chain with the larger code and its message"""
    e = z3.BitVec('e', 32)
    n = z3.BitVec('number', 32)
    for fn, args in (('t_throw', [e]), ('t_throw_msg', [e, Ptr(Obj('text', 'ext', 1), 0)]), ('t_throw_msg2', [e, Ptr(Obj('text', 'ext', 1), 0), n])):
        t = TC(fn)
        t.st.assume(e > 0)
        for o in t.run(fn, args):
            r = t.r
            r.check(o, o.done[0] == 'throw', 'a throw never returns', P)
            if o.done[0] != 'throw':
                continue
            o.done = None
            r.check(o, chain_ok(r, o), 'the handler chain is left for the handler', P)
            r.check(o, Eq(code(r, o), maxs(e, t.c0), 32), 'the larger of the thrown and the pending code is seen', P)
            ev = o.ghost['ev']
            if fn == 't_throw':
                r.check(o, ev == (), 'a throw without message formats none', P)
                r.check(o, t.msg_is(o, uf_store('message0', 8, 64)), 'a throw without message keeps the message', P)
            else:
                ok = len(ev) == 1 and ev[0][0] == 'fmt'
                r.check(o, ok, 'the message is formatted once', P)
                if ok:
                    f = cstr(r.ex, o, ev[0][2][0])
                    want = (b'%s', [args[1]]) if fn == 't_throw_msg' else (b'Failed %s %d', [args[1], n])
                    r.check(o, f == want[0] and len(ev[0][2]) == 1 + len(want[1]) and And(*[same_val(x, y) for x, y in zip(ev[0][2][1:], want[1])]),
                            'the message is the one given', P)
                    r.check(o, ev[0][1] <= 1024, 'the message fits its buffer', P)
                    L = z3.BitVec('formattedLength', 64)
                    i = z3.BitVec('anyIndex', 64)
                    rd = r.ex.byte_reader(o, Ptr(r.ex.gmsg, 0))
                    txt = z3.Function('formatted', z3.BitVecSort(64), z3.BitVecSort(8))
                    o.assume(z3.ULT(i, 1024))
                    m = z3.If(z3.ULT(L, 1023), L, z3.BitVecVal(1023, 64))
                    r.check(o, Implies(S(z3.ULT(i, m)), Eq(rd(i), txt(i), 8)), 'the message holds the text, truncated to the buffer', P)
                    r.check(o, Eq(rd(S(m)), 0, 8), 'the message is terminated', P)


def scenario(fn, expect, args=()):
    """expect(t, choice) -> (outcome, code, [marks with the code visible there]); choice = body -> returned?"""
    t = TC(fn)
    r = t.r
    for o in t.run(fn, args):
        ev = o.ghost['ev']
        took = {}
        calls = []
        for e in ev:
            if e[0] in ('ret', 'throw'):
                took[e[1]] = e
                calls.append(e[1])
        outcome, cd, marks, mg, order = expect(t, took)
        got = [e for e in ev if e[0] not in ('ret', 'throw', 'fmt')]
        r.check(o, calls == order, '%s: exactly the due blocks run' % fn, P)
        r.check(o, [e[0] for e in got] == [m[0] for m in marks], '%s: exactly the due handlers run' % fn, P)
        if [e[0] for e in got] == [m[0] for m in marks]:
            for e, m in zip(got, marks):
                if m[1] is not None:
                    r.check(o, Eq(e[1][0], m[1], 32), '%s: the code seen at %d' % (fn, m[0]), P)
                if m[2]:
                    r.check(o, e[1][1], '%s: the chain at %d is the one before the construct' % (fn, m[0]), P)
                elif m[2] is False:
                    r.check(o, Not(e[1][1]), '%s: inside the block its own handler is active' % fn, P)
        r.check(o, o.done[0] == outcome, '%s: outcome' % fn, P)
        v = o.done[1] if o.done[0] == 'ret' and len(o.done) > 1 else None
        o.done = None
        r.check(o, chain_ok(r, o), '%s: the handler chain is as before' % fn, P)
        if cd is not None:
            r.check(o, Eq(code(r, o), cd, 32), '%s: the code afterwards' % fn, P)
        if mg is not None:
            r.check(o, t.msg_is(o, uf_store('message%d' % mg, 8, 64)), '%s: the message is that of the throw' % fn, P)
        yield o, t, took, v


def T(k, n):
    """code thrown by body n"""
    return z3.BitVec('thrown%d' % n, 32)


def thrown(k, n):
    return n in k and k[n][0] == 'throw'


def catches():
    def e_try(t, k):
        if thrown(k, 1):
            return 'ret', T(k, 1), [(1, T(k, 1), True), (2, None, True)], 1, [1]
        return 'ret', 0, [(2, 0, True)], None, [1]

    def e_block(t, k):
        if thrown(k, 1):
            return 'ret', 0, [(0, 0, False), (1, T(k, 1), True), (2, 0, True)], None, [1]
        return 'ret', 0, [(0, 0, False), (3, 0, False), (2, 0, True)], None, [1]

    def e_rethrow(t, k):
        if thrown(k, 1):
            return 'throw', T(k, 1), [(1, T(k, 1), True)], 1, [1]
        return 'ret', 0, [(2, 0, True)], None, [1]

    def e_tic(t, k):
        if thrown(k, 1):
            if thrown(k, 2):
                return 'throw', maxs(T(k, 2), T(k, 1)), [(1, T(k, 1), True)], 2, [1, 2]
            return 'ret', T(k, 1), [(1, T(k, 1), True), (2, None, True)], None, [1, 2]
        return 'ret', 0, [(2, 0, True)], None, [1]

    def e_nested(t, k):
        if thrown(k, 1):
            return 'ret', T(k, 1), [(1, T(k, 1), False), (4, T(k, 1), True), (5, None, True)], 1, [1]
        if thrown(k, 2):
            return 'ret', T(k, 2), [(2, 0, False), (4, T(k, 2), True), (5, None, True)], 2, [1, 2]
        return 'ret', 0, [(2, 0, False), (3, 0, False), (5, 0, True)], None, [1, 2]

    def e_seq(t, k):
        m = ([(1, T(k, 1), True)] if thrown(k, 1) else []) + [(2, None, True)]
        m += ([(3, T(k, 2), True)] if thrown(k, 2) else []) + [(4, None, True)]
        return 'ret', T(k, 2) if thrown(k, 2) else 0, m, None, [1, 2]

    def e_nothrow(t, k):
        if thrown(k, 1):
            return 'ret', 0, [], None, [1]
        return 'ret', 0, [(2, 0, True)], None, [1]

    def e_through(t, k):
        own = z3.BitVec('ownCode', 32)
        if thrown(k, 1):
            return 'ret', T(k, 1), [(1, T(k, 1), True), (2, None, True)], 1, [1]
        return 'ret', own, [(3, 0, False), (1, own, True), (2, None, True)], None, [1]
    for fn, ex_ in (('t_try', e_try), ('t_try_block', e_block), ('t_rethrow', e_rethrow), ('t_throw_in_catch', e_tic), ('t_nested', e_nested),
                    ('t_sequence', e_seq), ('t_nothrow', e_nothrow), ('t_through', e_through)):
        for _ in scenario(fn, ex_):
            pass
    v = z3.BitVec('value', 32)
    for o, t, k, x in scenario('t_nothrow_and_return', e_nothrow, [v]):
        t.r.check(o, Eq(x, v if thrown(k, 1) else S(v + 1), 32), 'the value returned from the handler', P)


def accessors():
    t = TC('accessors')
    r = t.r
    for o in t.run('t_code'):
        r.check(o, o.done[0] == 'ret' and Eq(o.done[1], t.c0, 32), 'the code is the pending one', P)
        r.check(o, unchanged(r, t.st, o), 'asking changes nothing', P)
    for o in t.run('t_message'):
        p = o.done[1]
        r.check(o, isinstance(p, Ptr) and p.b is r.ex.gmsg and p.off == 0, 'the message is the pending one', P)
        r.check(o, unchanged(r, t.st, o), 'asking changes nothing', P)
    for o in t.run('t_clear'):
        o.done = None
        r.check(o, Eq(code(r, o), 0, 32), 'clearing leaves no code', P)
        r.check(o, chain_ok(r, o), 'clearing keeps the chain', P)


ASSUMPTIONS = [
    'setjmp/longjmp behave as the C standard says; thrown codes are positive; a handler exists when a throwing function is called',
    'bodies leave the exception code 0 when nothing was thrown',
    'the macros are exercised through the harness functions in contracts/ that expand them (the header /repo/include/try_catch.h itself is compiled)',
]

UNITS = [('throws', P, throws), ('catches', P, catches), ('accessors', P, accessors)]
