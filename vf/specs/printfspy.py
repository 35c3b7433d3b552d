"""C20: printfSpy.c.

INV(hooked): every history slot is NULL or a live block of g_bufferSize bytes, no block twice; slot index < 4.
INV(unhooked): every slot NULL; hooks designate the real functions.
The effect of a captured call is stated through the public getters (n = 1..4) before and after."""
from ..target import *
from ..fams import HeapFam

P = ('C20',)
T = 'printfSpy'


class Spy:
    def __init__(self):
        self.runs = []

    def real(self, name):
        def h(ex, st, a, ins):
            r = fresh(32, 'real_' + name)
            log(st, name, tuple(a), r)
            return [(st, r)]
        return h

    def vsnprintf(self, ex, st, a, ins):
        buf, n, fmt, va = a
        L = self.L
        log(st, 'vsnprintf', tuple(a), st.ghost.get(('va', va.b)) if isinstance(va, Ptr) else None)
        lim = Sub(n, 1, 64)
        end = If(ULT(L, lim, 64), L, lim, 64)
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and ex.feasible(st, Eq(n, 0, 64)):
            s0 = st.copy()
            s0.assume(Eq(n, 0, 64))
            st.assume(Not(Eq(n, 0, 64)))
            out = [(s0, TR(L, 64, 32))]
        else:
            out = []
        ex.access(st, buf, n, 'store')
        t = self.text
        ex.write_range(st, buf, Add(end, 1, 64), lambda k: If(Eq(k, end, 64), 0, t(bv(k, 64)), 8))
        return out + [(st, TR(L, 64, 32))]

    def mk(self, hooked=True):
        con = {'printf': self.real('printf'), 'fprintf': self.real('fprintf'), 'vsnprintf': self.vsnprintf}
        r = Run('printfspy', [T], con, P)
        self.runs.append(r)
        ex = r.ex
        ex.no_alloc_fail = True
        st = r.state()
        self.text = z3.Function('text', z3.BitVecSort(64), z3.BitVecSort(8))
        self.L = z3.BitVec('fullLength', 64)
        st.assume(z3.ULT(self.L, 1 << 31))
        self.bs = z3.BitVec('bufferSize', 64)
        st.assume(z3.And(z3.UGE(self.bs, 1), z3.ULT(self.bs, 1 << 62)))
        nn = z3.Function('slot_used', z3.BitVecSort(32), z3.BoolSort())
        self.fam = fam = HeapFam('slot', lambda ex, st, i: self.bs,
                                 (lambda ex, st, i: nn(bv(i, 32))) if hooked else (lambda ex, st, i: False))
        fam.init(st)
        for k in range(4):
            r.gset(st, 'g_stdoutBuffers', Ptr(fam, 0, k) if hooked else NULL, 8, 8 * k)
            r.gset(st, 'g_stderrBuffers', Ptr(fam, 0, 4 + k) if hooked else NULL, 8, 8 * k)
        self.idx = z3.BitVec('slotIndex', 64)
        st.assume(z3.ULT(self.idx, 4))
        self.calls0 = z3.BitVec('callCount', 64)
        r.gset(st, 'g_bufferIndex', self.idx, 8)
        r.gset(st, 'g_bufferSize', self.bs if hooked else 0, 8)
        r.gset(st, 'g_callCount', self.calls0, 8)
        for h in ('printf', 'fprintf'):
            r.gset(st, 'hook_' + h, r.fptr('mock_' + h) if hooked else ex.func_ptr(h), 8)
        self.files = {}
        for n in ('stdout', 'stderr'):
            self.files[n] = Ptr(Obj(n + '_file', 'ext', 1), 0)
            r.gset(st, n, self.files[n], 8)
        return r, st

    def nth(self, r, s, err, n):
        """[(state, pointer)] of the n-th output"""
        outs = r.call(s, 'printfSpy_GetNthErrorOutput' if err else 'printfSpy_GetNthOutput', [n])
        res = []
        for o in outs:
            if o.done[0] == 'ret':
                res.append((o, r.again(o)[1]))
            else:
                r.check(o, False, 'getter returns', P)
        return res

    def hooks(self, r, s, mock):
        for h in ('printf', 'fprintf'):
            p = r.gget(s, 'hook_' + h, 8, 0, True)
            r.check(s, isinstance(p, Ptr) and p.b.kind == 'func' and p.b.name == (('mock_' if mock else '') + h),
                    'hook_%s is %s' % (h, 'captured' if mock else 'the real function'), P)


def ptr_same(a, b):
    """condition: two pointer values are equal (NULL aware)"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.b is b.b:
            return And(True if a.i is None else Eq(a.i, b.i, 32), Eq(off64(a.off), off64(b.off), 64))
        if isinstance(a.b, HeapFam) and b.b is NULLOBJ or isinstance(b.b, HeapFam) and a.b is NULLOBJ:
            f = a if isinstance(a.b, HeapFam) else b
            return Not(f.b.nonnull(None, None, f.i))
    return False


def run(budget=300):
    S_ = Spy()
    # initial state
    r = Run('printfspy', [T], {}, P)
    S_.runs.append(r)
    r.ex.use_init = frozenset(('hook_printf', 'hook_fprintf', 'g_stdoutBuffers', 'g_stderrBuffers'))
    st = r.state()
    S_.hooks(r, st, False)
    for n in ('g_stdoutBuffers', 'g_stderrBuffers'):
        for k in range(4):
            p = r.gget(st, n, 8, 8 * k, True)
            r.check(st, isinstance(p, Ptr) and p.b is NULLOBJ, 'initially no buffer is held', P)
    # captured call
    for via, err in (('printf', False), ('fprintf', False), ('fprintf', True)):
        r, st = S_.mk()
        ex = r.ex
        fmt = Ptr(Obj('format', 'ext', 1), 0)
        extra = [z3.BitVec('vararg0', 32), z3.BitVec('vararg1', 64)]
        args = ([S_.files['stderr' if err else 'stdout']] if via == 'fprintf' else []) + [fmt] + extra
        # pre-state outputs
        pre = [(st, {})]
        for e in (False, True):
            for n in (1, 2, 3):
                nxt = []
                for (s, d) in pre:
                    for (s2, p) in S_.nth(r, s, e, n):
                        d2 = dict(d)
                        d2[(e, n)] = p
                        nxt.append((s2, d2))
                pre = nxt
        for (s, d) in pre:
            bytes0 = s.stores['byte:slot']
            alive0 = s.stores['alive:slot']
            p = r.gget(s, 'hook_' + via, 8, 0, True)
            outs = r.callp(s, p, args)
            r.cover(outs, via)
            for o in outs:
                if o.done[0] != 'ret':
                    r.check(o, False, 'captured call returns', P)
                    continue
                v = r.again(o)[1]
                r.check(o, Eq(v, TR(S_.L, 64, 32), 32), 'the full formatted length is returned', P)
                lg = o.ghost['log']
                ok = len(lg) == 1 and lg[0][0] == 'vsnprintf' and same_val(lg[0][1][2], fmt) and lg[0][2] is not None and \
                    len(lg[0][2]) == len(extra) and all(same_val(x, y) for x, y in zip(lg[0][2], extra))
                r.check(o, ok, 'the text is formatted once from the given format and arguments, nothing is printed', P)
                cc = r.call(o, 'printfSpy_GetCallCount', [])
                for c in cc:
                    r.check(c, Eq(c.done[1], Add(S_.calls0, 1, 64), 64), 'the call counter increases by one', P)
                for (o2, q) in S_.nth(r, o, err, 1):
                    if not isinstance(q, Ptr) or (q.b is NULLOBJ) or (not isinstance(q.b, Fam) and q.b.kind != 'heap'):
                        r.check(o2, False, 'the latest output is recorded', P)
                        continue
                    if isinstance(q.b, Fam):
                        r.check(o2, q.b.alive(ex, o2, q.i), 'the latest output is live', P)
                    else:
                        r.check(o2, Eq(q.b.size, S_.bs, 64), 'a new buffer has the requested size', P)
                    rd = ex.byte_reader(o2, q)
                    k = z3.BitVec('k', 64)
                    lim = Sub(S_.bs, 1, 64)
                    end = If(ULT(S_.L, lim, 64), S_.L, lim, 64)
                    b = rd(k)
                    r.check(o2, Implies(ULT(k, end, 64), Eq(b, S_.text(k), 8)), 'the latest output is the text truncated to the size', P)
                    r.check(o2, Implies(Eq(k, end, 64), Eq(b, 0, 8)), 'the latest output is terminated', P)
                for (e, n), p0 in d.items():
                    for (o2, q) in S_.nth(r, o, e, n + 1):
                        r.check(o2, ptr_same(p0, q), 'previous outputs shift back by one', P)
                        if isinstance(q, Ptr) and isinstance(q.b, HeapFam):
                            kk = z3.BitVec('k', 64)
                            r.check(o2, Implies(q.b.nonnull(ex, o2, q.i), And(Eq(o2.stores['byte:slot'].read(q.i, kk), bytes0.read(q.i, kk), 8),
                                        Eq(o2.stores['alive:slot'].read(q.i), 1, 8))), 'previous outputs keep their text', P)
                S_.hooks(r, o, True)
                # invariant: size unchanged, index in range
                r.check(o, Eq(r.gget(o, 'g_bufferSize', 8), S_.bs, 64), 'buffer size unchanged', P)
                r.check(o, ULT(r.gget(o, 'g_bufferIndex', 8), 4, 64), 'slot index in range', P)
    # hook / unhook
    for fn in ('printfSpy_Hook', 'printfSpy_Unhook'):
        for hooked in (True, False):
            r, st = S_.mk(hooked)
            nbs = z3.BitVec('newSize', 64)
            st.assume(z3.ULT(nbs, 1 << 62))
            outs = r.call(st, fn, [nbs] if fn == 'printfSpy_Hook' else [])
            r.cover(outs, fn)
            for o in outs:
                if o.done[0] != 'ret':
                    r.check(o, False, fn + ' returns', P)
                    continue
                r.again(o)
                S_.hooks(r, o, fn == 'printfSpy_Hook')
                for k in range(8):
                    if hooked:
                        r.check(o, Implies(S_.fam.nonnull(r.ex, o, k), Eq(o.stores['alive:slot'].read(k), 0, 8)), 'every buffer is released', P)
                    n = 'g_stdoutBuffers' if k < 4 else 'g_stderrBuffers'
                    p = r.gget(o, n, 8, 8 * (k % 4), True)
                    r.check(o, isinstance(p, Ptr) and p.b is NULLOBJ and p.off == 0, 'no slot refers to a released buffer', P)
                for e in (False, True):
                    for n in (1, 2, 3, 4):
                        for (o2, q) in S_.nth(r, o, e, n):
                            r.check(o2, isinstance(q, Ptr) and q.b is NULLOBJ and q.off == 0, 'the history is empty', P)
                r.check(o, ULT(r.gget(o, 'g_bufferIndex', 8), 4, 64), 'slot index in range', P)
                if fn == 'printfSpy_Hook':
                    for c in r.call(o, 'printfSpy_GetCallCount', []):
                        r.check(c, Eq(c.done[1], 0, 64), 'the call counter is reset', P)
                    r.check(o, Eq(r.gget(o, 'g_bufferSize', 8), Add(nbs, 1, 64), 64), 'the buffers will have the new size', P)
                r.check(o, not o.ghost['log'], fn + ' prints nothing', P)
    # convenience getters
    for fn, base, n in (('printfSpy_GetLastOutput', False, 1), ('printfSpy_GetPreviousOutput', False, 2),
                        ('printfSpy_GetLastErrorOutput', True, 1), ('printfSpy_GetPreviousErrorOutput', True, 2)):
        r, st = S_.mk()
        for (s, p) in S_.nth(r, st, base, n):
            for o in r.call(s, fn, []):
                r.check(o, o.done[0] == 'ret' and ptr_same(o.done[1], p), '%s is output %d' % (fn, n), P)
    return S_.runs


ASSUMPTIONS = [
    'malloc in the spy succeeds (the code asserts it); vsnprintf is used through its contract; buffer size below 2^62',
]

UNITS = [('all', P, run)]
