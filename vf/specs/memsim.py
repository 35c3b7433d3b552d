"""C01-C07, C09, C13, C23: MemorySim.c.

Every public function is executed symbolically from an arbitrary state that satisfies the representation invariant of
vf/memmodel.py (any number of regions, aliases, points; any contents) and its result is compared with its contract; the
invariant holds for the empty memory and is re-established, so the contracts hold after every history."""
import os
from ..target import *
from ..exc import *
from ..memmodel import *

_lay = []


def layout():
    if not _lay:
        _lay.append(Layout(extra_module(os.path.join(VERIF, 'contracts', 'memsim.c'), 'memsim_layout')))
    return _lay[0]


class M:
    def __init__(self, name, props, contracts=None):
        self.P = props
        smt.INT_FIRST[0] = True
        self.r = r = Run('memsim/' + name, ['MemorySim', 'try_catch'], contracts or {}, props)
        self.ex = ex = r.ex
        r.internals('MemorySim')
        st = r.state()
        self.code0 = setup(r, st)
        self.lay = lay = layout()
        for h in ('malloc', 'realloc', 'free'):
            r.gset(st, 'hook_' + h, ex.func_ptr(h), 8)
        outs = r.call(st, 'MemorySim_Init', [])
        outs = [o for o in outs if o.done[0] == 'ret']
        if len(outs) != 1:
            raise Unsupported('MemorySim_Init does not return once')
        p = outs[0].done[1]
        if not isinstance(p, Ptr) or p.off != 0 or p.b.kind != 'global':
            raise Unsupported('MemorySim_Init does not return its static object')
        st = outs[0]
        r.again(st)
        self.init = st
        self.sim = p.b
        self.p = p
        vt = ex.rd(st, p.b, ex.content(st, p.b), lay.s['pVTable'][0], 8, True)
        self.vt = vt
        st = st.copy()
        self.ms = ms = Mem(r, st, lay)
        ms.sim = p.b
        ms.install(st, vt)
        self.st0 = st

    def vfn(self, name):
        k = ['read32', 'read16', 'read8', 'write32', 'write16', 'write8'].index(name)
        c = self.ex.content(self.st0, self.vt.b)
        p = self.ex.rd(self.st0, self.vt.b, c, self.vt.off + 8 * k, 8, True)
        if not isinstance(p, Ptr) or p.b.kind != 'func':
            raise Unsupported('no method ' + name)
        return p

    # ---- outcome helpers
    def thrown(self, s):
        return code(self.r, s)

    def chk(self, s, c, name, props=None, extra=()):
        return self.r.check(s, c, name, props or self.P, extra)

    def no_leak(self, s, what):
        extra = [o.name for o in s.mem if o.kind == 'heap' and o not in self.st0.mem]
        self.chk(s, not extra, '%s: no block is leaked' % what, ('C13',))

    def same_store(self, s0, s, n):
        """condition (over fresh keys) that store n is unchanged"""
        a, b = s0.stores[n], s.stores[n]
        if a is b or a.same(b):
            return True
        if isinstance(a, PStore):
            k = fresh(32, 'any')
            s.term('node', k)
            r = True
            for (c1, v1) in a.alts(self.ex, s, k):
                for (c2, v2) in b.alts(self.ex, s, k):
                    r = And(r, Implies(And(c1, c2), self.ex.ptr_eq(s, v1, v2)))
            return Implies(ULT(k, s0.ghost['N'], 32), r)
        ks = [fresh(w, 'any') for w in a.ks]
        s.term('node', ks[0])
        return Implies(ULT(ks[0], s0.ghost['N'], 32), Eq(a.read(*ks), b.read(*ks), a.w))

    def frame(self, s, what, but=(), props=None, sim=()):
        """nothing but the named stores / simulator members changes"""
        s0 = self.st0
        for n in s0.stores:
            if n in but:
                continue
            self.chk(s, self.same_store(s0, s, n), '%s: %s unchanged' % (what, n), props)
        for f in SFLD:
            if f in sim:
                continue
            a, b = self.ms.sget(s0, f), self.ms.sget(s, f)
            e = self.ex.ptr_eq(s, a, b) if isinstance(a, Ptr) and isinstance(b, Ptr) else Eq(a, b, 32)
            self.chk(s, e, '%s: %s unchanged' % (what, f), props)


def access_cands(m, ctx):
    """invariants of the loop over the points"""
    ms = m.ms
    flag0 = ms.flag0

    def flag(s):
        return ms.sget(s, 'watchpointEncountered')
    wide = lambda x: ZX(x, 32, 64)
    return [
        lambda ex, s, K: ULE(wide(flag(s)), Add(wide(flag0), wide(K), 64), 64),
        lambda ex, s, K: ULE(flag0, flag(s), 32),
        lambda ex, s, K: Implies(Not(ctx['hasW']), Eq(flag(s), flag0, 32)),
        lambda ex, s, K: Implies(And(ctx['hasW'], ULT(ctx['qW'], wide(K), 64)), ULT(flag0, flag(s), 32)),
        lambda ex, s, K: Implies(ctx['hasB'], ULE(wide(K), ctx['qB'], 64)),
    ]


def access(name, w, d):
    def go():
        m = M('access/' + name, ('C01', 'C02', 'C03', 'C04', 'C06', 'C23', 'C13'))
        ms, ex, r = m.ms, m.ex, m.r
        L = ms.lay.c
        st = m.st0
        n = w // 8
        a = z3.BitVec('address', 32)
        v = z3.BitVec('value', w)
        x, found = ms.first(st, a, n)
        T = ms.target(x)
        st.term('node', T)
        ta, off = ms.toff(x, a)
        err = Or(Not(found), And(d == 'write', ms.ro0(T)))
        cnt = ZX(ms.u['watchpointCount'](bv(T, 32)), 32, 64)
        W = lambda f, j: ms.w0[f](bv(T, 32), bv(j, 64))

        def inside(j):
            s64 = ZX(W('startAddress', j), 32, 64)
            l64 = ZX(Sub(W('endAddress', j), W('startAddress', j), 32), 32, 64)
            t64 = ZX(ta, 32, 64)
            return And(ULE(s64, t64, 64), ULE(Add(t64, n, 64), Add(s64, l64, 64), 64))
        isbp = lambda j: Eq(W('type', j), L['BP'], 32)
        dirbit = L['READ'] if d == 'read' else L['WRITE']
        matchW = lambda j: And(Not(isbp(j)), Not(Eq(W('type', j) & dirbit, 0, 32)), inside(j))
        matchB = lambda j: And(isbp(j), inside(j)) if (d == 'read' and w == 16) else False
        # either a matching point exists, with a witness, or no element matches
        ctx = {}
        st.term2('elem:watch', (T, 0))
        for nm, f in (('W', matchW), ('B', matchB)):
            q = fresh(64, 'q' + nm)
            h = fresh_bool('has' + nm)
            st.assume(Implies(h, And(ULT(q, cnt, 64), f(q))))
            st.facts.append(Fact('elem:watch', (lambda h, f: lambda e: Implies(And(Not(h), Eq(e[0], T, 32), ULT(e[1], cnt, 64)), Not(f(e[1]))))(h, f)))
            st.facts.append(Fact('elem:watch', (lambda q: lambda e: Implies(Eq(e[0], T, 32), ms.wpair((T, q, e[1]))))(q)))
            st.term2('elem:watch', (T, q))
            ctx['q' + nm], ctx['has' + nm] = q, h
        st.assume(ULT(ms.flag0, LIMIT, 32))
        ex.cands = access_cands(m, ctx)
        m.st0 = st
        outs = r.callp(st, m.vfn(name), [m.p, a] + ([v] if d == 'write' else []))
        kinds = {}
        for s in outs:
            kinds.setdefault(s.done[0], []).append(s)
            m.no_leak(s, name)
            m.chk(s, chain_ok(r, s), name + ': handler chain', ('C13',))
            hw = S(If(Eq(TR(off, 64, 32), 0, 32), 0, 0, 32))
            half = S(z3.LShR(off, 1))
            if s.done[0] == 'throw':
                c = m.thrown(s)
                isbus = Eq(c, If(ms.r and S(m.code0 > L['busError']), m.code0, L['busError'], 32), 32)
                ishw = Eq(c, If(S(m.code0 > L['hardwareBreakpoint']), m.code0, L['hardwareBreakpoint'], 32), 32)
                m.chk(s, Or(err, And(ctx['hasB'], Not(err))), name + ': fails only on an error or at a breakpoint', ('C01', 'C06', 'C03'))
                m.chk(s, Implies(err, isbus), name + ': the error is a bus error', ('C01', 'C03'))
                m.chk(s, Implies(Not(err), ishw), name + ': the exception is the breakpoint', ('C06',))
                # on a bus error nothing at all changes, at a breakpoint at most the count and the flag
                if d == 'read' and w == 16 and not (s.stores['rcv'].same(st.stores['rcv'])):
                    m.chk(s, Not(err), name + ': counted only when served', ('C23', 'C01'))
                    k, j = fresh(32, 'any'), fresh(64, 'any')
                    m.chk(s, Implies(And(ULT(k, ms.N0, 32), Not(And(Eq(k, T, 32), Eq(j, half, 64)))), Eq(s.stores['rcv'].read(k, j), st.stores['rcv'].read(k, j), 32)),
                          name + ': no other count', ('C23',))
                m.frame(s, name + ' failing', ('rcv',), ('C01', 'C02', 'C03', 'C04', 'C23'), ('watchpointEncountered',))
                m.chk(s, Implies(err, Eq(ms.sget(s, 'watchpointEncountered'), ms.flag0, 32)), name + ': flag unchanged on a bus error', ('C01', 'C06'))
                continue
            m.chk(s, And(Not(err), Not(ctx['hasB'])), name + ': completes only when allowed', ('C01', 'C03', 'C06', 'C04'))
            fl = ms.sget(s, 'watchpointEncountered')
            m.chk(s, Iff(Not(Eq(fl, 0, 32)), Or(ctx['hasW'], Not(Eq(ms.flag0, 0, 32)))), name + ': watchpoint flag exactly when covered', ('C06', 'C04'))
            m.frame(s, name, ('rcv', 'byte:data') if d == 'write' else ('rcv',), ('C02', 'C03', 'C04'), ('watchpointEncountered',))
            if d == 'read':
                want = concat_bytes([st.stores['byte:data'].read(T, Add(off, i, 64)) for i in range(n)])
                m.chk(s, Eq(s.done[1], want, w), name + ': little-endian bytes of the span', ('C02', 'C04'))
            else:
                k, j = fresh(32, 'any'), fresh(64, 'any')
                rel = Sub(j, off, 64)
                old = st.stores['byte:data'].read(k, j)
                want = If(And(Eq(k, T, 32), ULT(rel, n, 64)), ex.pick(v, n, rel), old, 8)
                m.chk(s, Implies(ULT(k, ms.N0, 32), Eq(s.stores['byte:data'].read(k, j), want, 8)), name + ': exactly the span is stored', ('C02', 'C04'))
            k, j = fresh(32, 'any'), fresh(64, 'any')
            old = st.stores['rcv'].read(k, j)
            want = If(And(d == 'read' and w == 16, Eq(k, T, 32), ms.ro0(T), Eq(j, half, 64)), Add(old, 1, 32), old, 32)
            m.chk(s, Implies(And(ULT(k, ms.N0, 32), ms.ro0(k), Not(ms.al0(k))), Eq(s.stores['rcv'].read(k, j), want, 32)), name + ': read counts', ('C23', 'C04'))
        r.cover(kinds.get('ret', []), name + ' completes')
        r.cover(kinds.get('throw', []), name + ' fails')
    return go


ACC = ('C01', 'C02', 'C03', 'C04', 'C06', 'C23', 'C13')

# ------------------------------------------------------------------------------------------------ helpers
def outcome(m, s, outs_kinds):
    outs_kinds.setdefault(s.done[0], []).append(s)


def thrown_is(m, s, name):
    c = m.ms.lay.c[name]
    # the code itself, or the higher one of an exception that was pending
    return Or(Eq(m.thrown(s), c, 32), Eq(m.thrown(s), If(S(m.code0 > c), m.code0, c, 32), 32))


def newobjs(m, s):
    return [o for o in s.mem if o.kind == 'heap' and o not in m.st0.mem]


def isobj(p, o):
    return isinstance(p, Ptr) and p.b is o and p.off == 0


def nullp(ex, s, p):
    return ex.ptr_eq(s, p, NULL) if isinstance(p, Ptr) else False


def mapping(wr):
    nm = 'map for ' + ('write' if wr else 'read')
    fn = 'MemorySim_MapSimulatedAddressToHostAddressFor' + ('Write' if wr else 'Read')

    def go():
        m = M('map/' + ('write' if wr else 'read'), ACC)
        ms, ex, r, st = m.ms, m.ex, m.r, m.st0
        a, n = z3.BitVec('address', 32), z3.BitVec('size', 32)
        x, found = ms.first(st, a, n)
        T = ms.target(x)
        st.term('node', T)
        ta, off = ms.toff(x, a)
        err = Or(Not(found), And(wr, ms.ro0(T)))
        outs = r.call(st, fn, [m.p, a, n])
        kinds = {}
        for s in outs:
            outcome(m, s, kinds)
            m.no_leak(s, nm)
            m.chk(s, chain_ok(r, s), nm + ': handler chain', ('C13',))
            if s.done[0] == 'throw':
                m.chk(s, err, nm + ': fails only on an error', ('C01', 'C03', 'C06'))
                m.chk(s, thrown_is(m, s, 'busError'), nm + ': the error is a bus error', ('C01', 'C03'))
                m.frame(s, nm + ' failing', (), ('C01', 'C02', 'C03', 'C04', 'C23', 'C06'))
                continue
            m.chk(s, Not(err), nm + ': completes only when allowed', ('C01', 'C03', 'C04'))
            p = s.done[1]
            ok = isinstance(p, Ptr) and p.b is ms.data
            m.chk(s, ok, nm + ': the pointer designates region data', ('C01', 'C04'))
            if not ok:
                continue
            m.chk(s, And(Eq(p.i, T, 32), Eq(off64(p.off), off, 64)), nm + ': the pointer designates the first byte of the span', ('C01', 'C02', 'C04'))
            sz = ms.data.size(ex, s, p.i)
            m.chk(s, And(ULE(off64(p.off), sz, 64), ULE(ZX(n, 32, 64), Sub(sz, off64(p.off), 64), 64)), nm + ': the span lies inside the buffer', ('C01',))
            m.frame(s, nm, ('rcv',), ('C02', 'C03', 'C04', 'C06'))
            k, j = fresh(32, 'any'), fresh(64, 'any')
            old = st.stores['rcv'].read(k, j)
            half = S(z3.LShR(off, 1))
            want = If(And(not wr, Eq(n, 2, 32), Eq(k, T, 32), ms.ro0(T), Eq(j, half, 64)), Add(old, 1, 32), old, 32)
            m.chk(s, Implies(And(ULT(k, ms.N0, 32), ms.ro0(k), Not(ms.al0(k))), Eq(s.stores['rcv'].read(k, j), want, 32)), nm + ': read counts', ('C23', 'C04'))
        r.cover(kinds.get('ret', []), nm + ' completes')
        r.cover(kinds.get('throw', []), nm + ' fails')
    return go


def appended(m, s, what, props):
    """the new last region record (a heap object), checked to be linked at the tail and nowhere else"""
    ms, ex, st = m.ms, m.ex, m.st0
    t = ms.sget(s, 'pTailRegion')
    ok = isinstance(t, Ptr) and not isinstance(t.b, Fam) and t.b.kind == 'heap' and t.b not in st.mem and t.off == 0
    m.chk(s, ok, what + ': the tail is the new region', props)
    if not ok:
        return None
    nw = t.b
    h0, h = ms.sget(st, 'pHeadRegion'), ms.sget(s, 'pHeadRegion')
    empty = Eq(ms.N0, 0, 32)
    m.chk(s, And(Implies(empty, isobj(h, nw)), Implies(Not(empty), ex.ptr_eq(s, h, h0) if not isobj(h, nw) else False)), what + ': the head is kept', props)
    # links of the old records
    k = fresh(32, 'any')
    s.term('node', k)
    last = Sub(ms.N0, 1, 32)
    c = True
    for (g, v) in s.stores['n.pNext'].alts(ex, s, k):
        if isinstance(v, Ptr) and v.b is nw:
            e = And(v.off == 0, Eq(k, last, 32))
        else:
            e = And(Not(Eq(k, last, 32)), Or(*[And(g0, ex.ptr_eq(s, v, v0)) for (g0, v0) in st.stores['n.pNext'].alts(ex, s, k)]))
        c = And(c, Implies(g, e))
    m.chk(s, Implies(ULT(k, ms.N0, 32), c), what + ': the list is extended at its end', props)
    return nw


def fld(m, s, o, f):
    off, n = m.ms.lay.r[f]
    return m.ex.rd(s, o, m.ex.content(s, o), off, n, f in PTRS)


def zeroed(m, s, o, size, what, props):
    j = fresh(64, 'any')
    c = m.ex.content(s, o)
    if c.flds is not None:
        e = And(*[Eq(st_.read(j), 0, st_.w) for st_ in c.flds.values()])
    else:
        s2 = s.copy()
        v = m.ex.flush(s2, o).bg.read(j)
        e = Eq(v, 0, 8)
    m.chk(s, And(Eq(o.size, size, 64), Implies(ULT(j, size, 64), e)), what, props)


def create_region():
    P = ('C02', 'C01', 'C04', 'C07', 'C09', 'C13')
    m = M('CreateRegion', P)
    ms, ex, r, st = m.ms, m.ex, m.r, m.st0
    b, n = z3.BitVec('base', 32), z3.BitVec('size', 32)
    kinds = {}
    for s in r.call(st, 'MemorySim_CreateRegion', [m.p, b, n]):
        outcome(m, s, kinds)
        what = 'CreateRegion'
        m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
        if s.done[0] == 'throw':
            m.chk(s, s.ghost['oom'], what + ': fails only when an allocation fails', ('C13', 'C02'))
            m.chk(s, thrown_is(m, s, 'outOfMemory'), what + ': the error is out-of-memory', ('C13',))
            m.no_leak(s, what)
            m.frame(s, what + ' failing', (), P)
            continue
        m.chk(s, not s.ghost['oom'], what + ': completes only when no allocation fails', ('C13',))
        m.frame(s, what, ('n.pNext',), P, ('pHeadRegion', 'pTailRegion'))
        nw = appended(m, s, what, P)
        if nw is None:
            continue
        no = newobjs(m, s)
        d = fld(m, s, nw, 'pData')
        ok = isinstance(d, Ptr) and d.off == 0 and d.b in no and d.b is not nw
        m.chk(s, ok and len(no) == 2, what + ': exactly the record and its data are allocated', ('C13', 'C02'))
        if not ok:
            continue
        m.chk(s, And(Eq(fld(m, s, nw, 'baseAddress'), b, 32), Eq(fld(m, s, nw, 'size'), n, 32)), what + ': geometry', P)
        zeroed(m, s, d.b, ZX(n, 32, 64), what + ': the data is as large as the region and zero', ('C02', 'C01', 'C09'))
        for f in ('pNext', 'pRedirect', 'pWatchpoints', 'pReadCounts'):
            m.chk(s, nullp(ex, s, fld(m, s, nw, f)), what + ': %s is null' % f, P)
        for f in ('watchpointCount', 'watchpointAlloc', 'isReadOnly', 'isAlias'):
            m.chk(s, Eq(fld(m, s, nw, f), 0, 32), what + ': %s is zero' % f, P)
    r.cover(kinds.get('ret', []), 'CreateRegion completes')
    r.cover(kinds.get('throw', []), 'CreateRegion fails')


def create_alias():
    P = ('C04', 'C07', 'C13', 'C01', 'C03')
    m = M('CreateAlias', P)
    ms, ex, r, st = m.ms, m.ex, m.r, m.st0
    b, d, n = z3.BitVec('alias', 32), z3.BitVec('redirect', 32), z3.BitVec('size', 32)
    x, found = ms.first(st, d, 1)
    T = ms.target(x)
    st.term('node', T)
    ta, off = ms.toff(x, d)
    kinds = {}
    for s in r.call(st, 'MemorySim_CreateAlias', [m.p, b, d, n]):
        outcome(m, s, kinds)
        what = 'CreateAlias'
        m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
        if s.done[0] == 'throw':
            if s.ghost['oom']:
                m.chk(s, Or(thrown_is(m, s, 'outOfMemory'), And(Not(found), thrown_is(m, s, 'busError'))), what + ': error kind', ('C13', 'C04'))
            else:
                m.chk(s, And(Not(found), thrown_is(m, s, 'busError')), what + ': fails with a bus error only when nothing is there', ('C13', 'C04'))
            m.no_leak(s, what)
            m.frame(s, what + ' failing', (), P)
            continue
        m.chk(s, not s.ghost['oom'], what + ': completes only when no allocation fails', ('C13',))
        m.chk(s, found, what + ': completes only when the redirect address lies in a region', ('C04',))
        m.frame(s, what, ('n.pNext',), P, ('pHeadRegion', 'pTailRegion'))
        nw = appended(m, s, what, P)
        if nw is None:
            continue
        g = lambda f: fld(m, s, nw, f)
        room = Sub(ms.u['size'](bv(T, 32)), TR(off, 64, 32), 32)
        m.chk(s, And(Eq(g('baseAddress'), b, 32), Eq(g('size'), If(ULT(room, n, 32), room, n, 32), 32)), what + ': base and clipped size', ('C04', 'C07', 'C01'))
        m.chk(s, And(Not(Eq(g('isAlias'), 0, 32)), Iff(Not(Eq(g('isReadOnly'), 0, 32)), ms.ro0(T))), what + ': alias flag and read-only status', ('C04', 'C07', 'C03'))
        p = g('pRedirect')
        ok = isinstance(p, Ptr) and p.b is ms.node and p.off == 0
        m.chk(s, And(Eq(p.i, T, 32), ULT(T, ms.N0, 32), Not(ms.al0(T))) if ok else False, what + ': the target is the region that serves the redirect address', ('C04', 'C01', 'C03'))
        m.chk(s, Eq(g('redirectAddress'), ta, 32), what + ': the redirect address is the one in the target', ('C04', 'C01'))
        # the representation invariant for the new record
        o2 = ZX(Sub(g('redirectAddress'), ms.u['baseAddress'](bv(T, 32)), 32), 32, 64)
        m.chk(s, ULE(Add(o2, ZX(g('size'), 32, 64), 64), ZX(ms.u['size'](bv(T, 32)), 32, 64), 64),
              what + ': never reaches past the end of its target', ('C04', 'C01'))
        for f in ('pNext', 'pWatchpoints', 'pReadCounts'):
            m.chk(s, nullp(ex, s, g(f)), what + ': %s is null' % f, P)
        for f in ('watchpointCount', 'watchpointAlloc'):
            m.chk(s, Eq(g(f), 0, 32), what + ': %s is zero' % f, P)
        no = newobjs(m, s)
        dp = g('pData')
        own = [o for o in no if o is not nw and not isobj(dp, o)]
        m.chk(s, not own and (isobj(dp, NULLOBJ) or dp.b in no), what + ': every new block belongs to the record', ('C13',))
    r.cover(kinds.get('ret', []), 'CreateAlias completes')
    r.cover(kinds.get('throw', []), 'CreateAlias fails')


def make_read_only():
    P = ('C03', 'C23', 'C13', 'C07', 'C04', 'C01')
    m = M('MakeRegionReadOnly', P)
    ms, ex, r, st = m.ms, m.ex, m.r, m.st0
    a = z3.BitVec('address', 32)
    x, found = ms.first(st, a, 1)
    T = ms.target(x)
    st.term('node', T)
    kinds = {}
    what = 'MakeRegionReadOnly'
    for s in r.call(st, 'MemorySim_MakeRegionReadOnly', [m.p, a]):
        outcome(m, s, kinds)
        m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
        if s.done[0] == 'throw':
            if s.ghost['oom']:
                m.chk(s, And(found, Not(ms.ro0(T)), thrown_is(m, s, 'outOfMemory')), what + ': out of memory', ('C13', 'C03'))
            else:
                m.chk(s, And(Not(found), thrown_is(m, s, 'busError')), what + ': bus error only when nothing is there', ('C03',))
            m.no_leak(s, what)
            m.frame(s, what + ' failing', (), P)
            continue
        m.chk(s, And(found, not s.ghost['oom']), what + ': completes only on a region', P)
        m.frame(s, what, ('n.isReadOnly', 'n.pReadCounts', 'n.readCounts'), P)
        k = fresh(32, 'any')
        s.term('node', k)
        inN = ULT(k, ms.N0, 32)
        hit = Eq(k, T, 32)
        ro1 = Not(Eq(ms.i(s, 'isReadOnly', k), 0, 32))
        m.chk(s, Implies(inN, Iff(ro1, Or(ms.ro0(k), hit))), what + ': exactly the region of the address becomes read-only', ('C03', 'C07', 'C04'))
        m.chk(s, Implies(And(inN, Not(And(hit, Not(ms.ro0(T))))), Eq(ms.i(s, 'readCounts', k), ms.i(st, 'readCounts', k), 32)), what + ': number of counters kept', ('C23',))
        no = newobjs(m, s)
        c = True
        for (g, v) in s.stores['n.pReadCounts'].alts(ex, s, k):
            if isinstance(v, Ptr) and v.b in no:
                e = And(v.off == 0, hit, Not(ms.ro0(T)))
            else:
                e = And(Not(And(hit, Not(ms.ro0(T)))), Or(*[And(g0, ex.ptr_eq(s, v, v0)) for (g0, v0) in st.stores['n.pReadCounts'].alts(ex, s, k)]))
            c = And(c, Implies(g, e))
        m.chk(s, Implies(inN, c), what + ': counters are new only when the region becomes read-only', ('C23', 'C13', 'C03'))
        m.chk(s, len(no) <= 1, what + ': at most one block is allocated', ('C13',))
        for o in no:
            zeroed(m, s, o, Mul(ZX(S(z3.LShR(ms.u['size'](bv(T, 32)), 1)), 32, 64), 4, 64), what + ': one zero counter per half-word', ('C23', 'C01', 'C03'))
            m.chk(s, Eq(ms.i(s, 'readCounts', T), S(z3.LShR(ms.u['size'](bv(T, 32)), 1)), 32), what + ': number of counters', ('C23',))
        if not no:
            m.chk(s, ms.ro0(T), what + ': a region that becomes read-only gets counters', ('C23', 'C01'))
    r.cover(kinds.get('ret', []), what + ' completes')
    r.cover(kinds.get('throw', []), what + ' fails')


def was_encountered():
    P = ('C06',)
    m = M('WasWatchpointEncountered', P)
    ms, ex, r, st = m.ms, m.ex, m.r, m.st0
    st.assume(ULT(ms.flag0, LIMIT, 32))
    what = 'WasWatchpointEncountered'
    for s in r.call(st, 'MemorySim_WasWatchpointEncountered', [m.p]):
        m.chk(s, s.done[0] == 'ret', what + ': returns')
        m.chk(s, Iff(Not(Eq(s.done[1], 0, 32)), Not(Eq(ms.flag0, 0, 32))), what + ': reports whether a watchpoint was hit')
        m.chk(s, Eq(ms.sget(s, 'watchpointEncountered'), 0, 32), what + ': the report is cleared')
        m.frame(s, what, (), P, ('watchpointEncountered',))
        m.no_leak(s, what)
    r.cover([s], what)


def read_count():
    P = ('C23', 'C13', 'C04')
    m = M('GetFlashReadCount', P)
    ms, ex, r, st = m.ms, m.ex, m.r, m.st0
    a = z3.BitVec('address', 32)
    x, found = ms.first(st, a, 2)
    T = ms.target(x)
    st.term('node', T)
    ta, off = ms.toff(x, a)
    ok = And(found, ms.ro0(T))
    kinds = {}
    what = 'GetFlashReadCount'
    for s in r.call(st, 'MemorySim_GetFlashReadCount', [m.p, a]):
        outcome(m, s, kinds)
        m.no_leak(s, what)
        m.frame(s, what, (), P)
        m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
        if s.done[0] == 'throw':
            m.chk(s, And(Not(ok), thrown_is(m, s, 'busError')), what + ': bus error outside read-only regions only')
            continue
        m.chk(s, ok, what + ': completes only in a read-only region')
        m.chk(s, Eq(s.done[1], st.stores['rcv'].read(T, S(z3.LShR(off, 1))), 32), what + ': the counter of the half-word')
    r.cover(kinds.get('ret', []), what + ' completes')
    r.cover(kinds.get('throw', []), what + ' fails')


def points(kind, setting):
    """set/clear of a break or watchpoint: the array as a set"""
    fn = 'MemorySim_%sHardware%s' % ('Set' if setting else 'Clear', 'Breakpoint' if kind == 'b' else 'Watchpoint')

    def go():
        P = ('C05', 'C13', 'C04')
        m = M(fn, P)
        ms, ex, r, st = m.ms, m.ex, m.r, m.st0
        L = ms.lay.c
        a, n = z3.BitVec('address', 32), z3.BitVec('size', 32)
        if kind == 'b':
            ty = L['BP']
            args = [m.p, a, n]
        else:
            ty = z3.BitVec('type', 32)
            st.assume(And(ULE(1, ty, 32), ULE(ty, 3, 32)))
            args = [m.p, a, n, ty]
        x, found = ms.first(st, a, n)
        T = ms.target(x)
        st.term('node', T)
        ta, off = ms.toff(x, a)
        key = {'type': ty, 'startAddress': ta, 'endAddress': Add(ta, n, 32)}
        c32 = ms.u['watchpointCount'](bv(T, 32))
        cnt = ZX(c32, 32, 64)
        W = lambda f, j: ms.w0[f](bv(T, 32), bv(j, 64))
        iskey = lambda rd, j: And(*[Eq(rd(f, j), key[f], 32) for f in WFLD])
        # skolem: the position of the key, when it is there
        q, has = fresh(64, 'q'), fresh_bool('has')
        st.assume(Implies(has, And(ULT(q, cnt, 64), iskey(W, q))))
        st.facts.append(Fact('elem:watch', lambda e: Implies(And(Not(has), Eq(e[0], T, 32), ULT(e[1], cnt, 64)), Not(iskey(W, e[1])))))
        st.facts.append(Fact('elem:watch', lambda e: Implies(Eq(e[0], T, 32), ms.wpair((T, q, e[1])))))
        st.term2('elem:watch', (T, q))
        st.assume(ULT(c32, LIMIT - 1, 32))
        kk = lambda s, K: K
        ex.cands = [
            lambda ex, s, K: Implies(has, ULE(ZX(K, 32, 64), q, 64)),
            lambda ex, s, K: ULE(ZX(K, 32, 64), cnt, 64),
        ]
        kinds = {}
        for s in r.call(st, fn, args):
            outcome(m, s, kinds)
            what = fn[10:]
            m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
            if s.done[0] == 'throw':
                if s.ghost['oom']:
                    m.chk(s, And(found, thrown_is(m, s, 'outOfMemory')), what + ': out of memory', ('C05', 'C13'))
                else:
                    m.chk(s, And(Not(found), thrown_is(m, s, 'busError')), what + ': bus error only outside any region', ('C05',))
                m.no_leak(s, what)
                m.frame(s, what + ' failing', (), P)
                continue
            m.chk(s, found, what + ': completes only inside a region', ('C05',))
            m.chk(s, not s.ghost['oom'], what + ': completes only when no allocation fails', ('C05', 'C13'))
            m.frame(s, what, ('w.type', 'w.startAddress', 'w.endAddress', 'n.watchpointCount', 'n.watchpointAlloc', 'n.pWatchpoints', 'alive:watch'), P)
            # everything outside the target region is as it was
            k, j = fresh(32, 'any'), fresh(64, 'any')
            s.term('node', k)
            other = And(ULT(k, ms.N0, 32), Not(Eq(k, T, 32)))
            m.chk(s, Implies(other, And(*[Eq(s.stores['w.' + f].read(k, j), ms.w0[f](bv(k, 32), bv(j, 64)), 32) for f in WFLD])), what + ': points of other regions unchanged', P)
            m.chk(s, Implies(other, And(*[Eq(ms.i(s, f, k), ms.i(st, f, k), 32) for f in ('watchpointCount', 'watchpointAlloc')])), what + ': number of points of other regions unchanged', P)
            m.chk(s, Implies(other, And(*[Or(*[And(g0, ex.ptr_eq(s, v, v0)) for (g0, v0) in st.stores['n.pWatchpoints'].alts(ex, s, k)])
                                          if not (isinstance(v, Ptr) and not isinstance(v.b, Fam) and v.b.kind == 'heap') else Not(g)
                                          for (g, v) in s.stores['n.pWatchpoints'].alts(ex, s, k)])), what + ': arrays of other regions unchanged', P)
            m.chk(s, Implies(other, Eq(s.stores['alive:watch'].read(k), st.stores['alive:watch'].read(k), 8)), what + ': other arrays stay allocated', ('C13', 'C05'))
            # the array afterwards
            no = newobjs(m, s)
            alts = [(g, v) for (g, v) in s.stores['n.pWatchpoints'].alts(ex, s, T) if ex.feasible(s, g)]
            if len(alts) != 1:
                raise Unsupported('the array of points is not determined')
            v = alts[0][1]
            c1 = ZX(ms.i(s, 'watchpointCount', T), 32, 64)
            al1 = ZX(ms.i(s, 'watchpointAlloc', T), 32, 64)
            if isinstance(v.b, Fam):
                m.chk(s, And(v.b is ms.watch, v.off == 0, Eq(v.i, T, 32), not no), what + ': the array is kept', P)
                m.chk(s, Eq(s.stores['alive:watch'].read(T), 1, 8), what + ': the array stays allocated', ('C13', 'C05'))
                m.chk(s, Eq(al1, ZX(ms.u['watchpointAlloc'](bv(T, 32)), 32, 64), 64), what + ': capacity', P)
                rd = lambda f, j: s.stores['w.' + f].read(T, j)
            else:
                ok = v.b in no and len(no) == 1 and v.off == 0 and v.b.stride == ms.lay.wsize
                m.chk(s, ok, what + ': one new array', ('C13', 'C05'))
                if not ok:
                    continue
                m.chk(s, Eq(v.b.size, Mul(al1, ms.lay.wsize, 64), 64), what + ': the array is as large as its capacity', ('C13', 'C05'))
                m.chk(s, Implies(ms.watch.nonnull(ex, st, T), Eq(s.stores['alive:watch'].read(T), 0, 8)), what + ': the old array is released', ('C13',))
                cc = ex.content(s, v.b)
                byoff = {f: cc.flds[o] for f, (o, _) in ms.lay.w.items()}
                rd = lambda f, j: byoff[f].read(j)
            m.chk(s, And(ULE(c1, al1, 64), ULT(al1, LIMIT, 64)), what + ': the capacity suffices', P)
            i, j = fresh(64, 'i'), fresh(64, 'j')

            def el(st_, j):
                st_.term('idx', j)
                for d in (0, 1, -1):
                    st_.term2('elem:watch', (T, Add(j, mask(d, 64), 64)))

            def chk(c, name, js=(i, j)):
                s2 = s.copy()
                for t in js:
                    el(s2, t)
                # pairs of neighbouring terms
                for t in js:
                    for u in js:
                        for d in (0, 1, -1):
                            for e in (0, 1, -1):
                                s2.assume(S(tb(ms.wpair((T, Add(t, mask(d, 64), 64), Add(u, mask(e, 64), 64))))))
                m.chk(s2, c, what + ': ' + name, P)
            same2 = lambda r1, a1, r2, a2: And(*[Eq(r1(f, a1), r2(f, a2), 32) for f in WFLD])
            if setting:
                chk(Implies(ULT(i, cnt, 64), Or(*[And(ULT(Add(i, d, 64), c1, 64), same2(W, i, rd, Add(i, d, 64))) for d in (0, 1)])), 'every point that was set stays set', (i,))
                chk(Implies(ULT(j, c1, 64), Or(iskey(rd, j), And(ULT(j, cnt, 64), same2(rd, j, W, j)), And(Not(Eq(j, 0, 64)), ULE(j, cnt, 64), same2(rd, j, W, Sub(j, 1, 64))))), 'nothing but the requested point is added', (j,))
                m.chk(s, Eq(c1, If(has, cnt, Add(cnt, 1, 64), 64), 64), what + ': one point more unless it was there', P)
                # the key is somewhere: otherwise a contradiction
                s2 = s.copy()
                for t in list(s2.terms.get('idx', {}).values()):
                    if isinstance(t, int) or t.size() == 64:
                        s2.assume(S(tb(Not(And(ULT(t, c1, 64), iskey(rd, t))))))
                s2.assume(S(tb(Not(And(has, ULT(q, c1, 64), iskey(rd, q))))))
                m.chk(s2, False, what + ': the requested point is set', P)
            else:
                chk(Implies(ULT(j, c1, 64), Not(iskey(rd, j))), 'the requested point is no longer set', (j,))
                chk(Implies(And(ULT(i, cnt, 64), Not(iskey(W, i))), Or(And(ULT(i, c1, 64), same2(W, i, rd, i)), And(Not(Eq(i, 0, 64)), ULE(i, c1, 64), same2(W, i, rd, Sub(i, 1, 64))))),
                    'every other point stays set', (i,))
                chk(Implies(ULT(j, c1, 64), Or(*[And(ULT(Add(j, d, 64), cnt, 64), same2(rd, j, W, Add(j, d, 64))) for d in (0, 1)])), 'nothing is added', (j,))
            chk(Implies(And(ULT(i, j, 64), ULT(j, c1, 64)), And(ULE(rd('startAddress', i), rd('startAddress', j), 32), Not(same2(rd, i, rd, j)))), 'the array stays sorted without duplicates')
            t = rd('type', j)
            chk(Implies(ULT(j, c1, 64), Or(*[Eq(t, v_, 32) for v_ in (1, 2, 3, L['BP'])])), 'kinds stay valid', (j,))
        r.cover(kinds.get('ret', []), fn + ' completes')
        r.cover(kinds.get('throw', []), fn + ' fails')
    return go

class Def:
    """proposed contents of a store at iteration K"""
    def __init__(self, tag, fn):
        self.tag = tag
        self.fn = fn

    def __call__(self, K):
        return self.fn(K)


def uninit(xml):
    def go():
        P = ('C13',)
        m = M('Uninit/' + ('xml' if xml else 'noxml'), P)
        ms, ex, r, st = m.ms, m.ex, m.r, m.st0
        xo = None
        if xml:
            xo = Obj('xmlDocument', 'heap', z3.BitVec('xmlSize', 64))
            st.mem[xo] = Content({}, uf_store('xmlBytes', 8, 64))
            r.ex.wr(st, ms.sim, ms.lay.s['pMemoryMapXML'][0], 8, Ptr(xo, 0))
        fams = {'alive:data': ms.data, 'alive:watch': ms.watch, 'alive:rc': ms.rc}

        def summ(cut, loc):
            if loc[0] != 'st' or not loc[1].startswith('alive:'):
                return ()
            o = cut.st.stores[loc[1]]
            f = fams.get(loc[1])
            nn = (lambda k: f.nonnull(ex, cut.st, k)) if f else (lambda k: True)
            return [Def('freed', lambda K: o.layer(lambda k: And(ULT(k, K, 32), nn(k)), lambda k: 0))]
        ex.summarizers = [summ]
        what = 'Uninit'
        outs = r.call(st, 'MemorySim_Uninit', [m.p])
        for s in outs:
            m.chk(s, s.done[0] == 'ret', what + ': returns')
            k = fresh(32, 'any')
            s.term('node', k)
            inN = ULT(k, ms.N0, 32)
            m.chk(s, Implies(inN, Eq(s.stores['alive:node'].read(k), 0, 8)), what + ': every region is released')
            for n, f in fams.items():
                m.chk(s, Implies(And(inN, f.nonnull(ex, s, k)), Eq(s.stores[n].read(k), 0, 8)), what + ': every block of every region is released (%s)' % n[6:])
            m.chk(s, xo is None or xo not in s.mem, what + ': the document is released')
            m.chk(s, not newobjs(m, s), what + ': nothing is allocated')
            for f in ('pHeadRegion', 'pTailRegion', 'pMemoryMapXML'):
                m.chk(s, nullp(ex, s, ms.sget(s, f)), what + ': %s is null' % f)
        r.cover(outs, what)
        # without an object nothing happens
        for s in r.call(m.st0, 'MemorySim_Uninit', [NULL]):
            m.chk(s, s.done[0] == 'ret', what + ' of nothing returns')
            m.frame(s, what + ' of nothing')
    return go


def init_empty():
    """MemorySim_Init establishes the empty memory, whatever was there"""
    P = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C13', 'C23')
    m = M('Init', P)
    for s in [m.init]:
        for f in ('pHeadRegion', 'pTailRegion', 'pMemoryMapXML'):
            off, n = m.lay.s[f]
            m.chk(s, nullp(m.ex, s, m.ex.rd(s, m.sim, m.ex.content(s, m.sim), off, n, True)), 'Init: %s is null' % f)
        off, n = m.lay.s['watchpointEncountered']
        m.chk(s, Eq(m.ex.rd(s, m.sim, m.ex.content(s, m.sim), off, n, False), 0, 32), 'Init: no watchpoint was hit')
        m.chk(s, not [o for o in s.mem if o.kind == 'heap'], 'Init: nothing is allocated')
    m.r.cover([m.init], 'Init')


def image(m, st, n):
    """an image of exactly n bytes"""
    o = Obj('image', 'ext', ZX(n, 32, 64))
    f = uf_store('img', 8, 64)
    st.mem[o] = Content({}, f)
    return o, f


def load_summary(m, img, f, st0, T, off0):
    """after K iterations exactly the bytes read so far have been stored at the target"""
    def summ(cut, loc):
        if loc != ('st', 'byte:data'):
            return ()
        base = st0.stores['byte:data']
        out = []
        for (l, sh, p), fm in cut.forms.items():
            if sh[0] == 'ptr' and sh[1] is img and p == 'off' and fm[0] == 'lin':
                def fn(K, fm=fm):
                    K = bv(K, 32)
                    pos = Add(off64(fm[1]), Mul(mask(fm[2], 64), ZX(K, 32, 64), 64), 64)
                    return base.layer(lambda k, o: And(Eq(k, T, 32), ULT(Sub(o, off0, 64), pos, 64)), lambda k, o: f.read(Sub(o, off0, 64)))
                out.append(Def(('load', loc_id(l)), fn))
        return out
    return summ


def loc_id(l):
    return tuple(str(x) for x in l)


def load_image(general):
    def go():
        P = ('C09', 'C02', 'C23', 'C06', 'C13') if not general else ('C09', 'C13', 'C23', 'C06')
        m = M('LoadFromFlashImage/' + ('any' if general else 'inside'), P)
        ms, ex, r, st = m.ms, m.ex, m.r, m.st0
        b, n = z3.BitVec('base', 32), z3.BitVec('size', 32)
        img, f = image(m, st, n)
        what = 'LoadFromFlashImage'
        if not general:
            x = fresh(32, 'm')
            st.term('node', x)
            st.assume(And(ULT(x, ms.N0, 32), ms.contains(st, x, b, n), ULE(Add(ZX(b, 32, 64), ZX(n, 32, 64), 64), 1 << 32, 64)))
            s0 = st.copy()
            b64, e64 = ZX(b, 32, 64), Add(ZX(b, 32, 64), ZX(n, 32, 64), 64)

            def apart(t):
                g = ZX(ms.u['baseAddress'](bv(t, 32)), 32, 64)
                h = Add(g, ZX(ms.u['size'](bv(t, 32)), 32, 64), 64)
                return Implies(ULT(t, x, 32), Or(ULE(h, b64, 64), ULE(e64, g, 64)))
            st.facts.append(Fact('node', apart))
            T = ms.target(x)
            st.term('node', T)
            ta, off0 = ms.toff(x, b)
            ex.summarizers = [load_summary(m, img, f, st, T, off0)]
        m.st0 = st
        kinds = {}
        for s in r.call(st, 'MemorySim_LoadFromFlashImage', [m.p, b, Ptr(img, 0), n]):
            outcome(m, s, kinds)
            m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
            m.no_leak(s, what)
            m.frame(s, what, ('byte:data',), ('C09', 'C23', 'C06', 'C02'))
            if s.done[0] == 'throw':
                m.chk(s, general, what + ': succeeds inside a region', ('C09',))
                m.chk(s, thrown_is(m, s, 'busError'), what + ': fails only with a bus error', ('C09',))
                continue
            if general:
                continue
            k, j = fresh(32, 'any'), fresh(64, 'any')
            rel = Sub(j, off0, 64)
            want = If(And(Eq(k, T, 32), ULT(rel, ZX(n, 32, 64), 64)), f.read(rel), st.stores['byte:data'].read(k, j), 8)
            m.chk(s, Implies(ULT(k, ms.N0, 32), Eq(s.stores['byte:data'].read(k, j), want, 8)), what + ': byte i of the image is stored at base + i, nothing else changes', ('C09', 'C02'))
        r.cover(kinds.get('ret', []), what + ' completes')
        if general:
            r.cover(kinds.get('throw', []), what + ' fails')
    return go


def create_region_contract(m):
    """the contract proved for MemorySim_CreateRegion: the new region becomes record N"""
    ms, ex = m.ms, m.ex

    def h(ex, st, a, ins):
        p, b, n = a
        if not (isinstance(p, Ptr) and p.b is ms.sim and p.off == 0):
            ex.oblige(st, False, 'the region is created in this memory')
        s2 = st.copy()
        s2.ghost['oom'] = True
        outs = [ex.throw(s2, ms.lay.c['outOfMemory'])]
        N = st.ghost['N']
        ex.oblige(st, ULT(N, LIMIT + 4, 32), 'fewer than 2^30 regions')
        put = {'baseAddress': b, 'size': n, 'watchpointCount': 0, 'watchpointAlloc': 0, 'isReadOnly': 0, 'isAlias': 0, 'readCounts': 0, 'redirectAddress': 0}
        for f, v in put.items():
            st.stores['n.' + f] = st.stores['n.' + f].point((N,), v)
        for f in ('pRedirect', 'pWatchpoints', 'pReadCounts'):
            st.stores['n.' + f] = st.stores['n.' + f].set(N, NULL)
        for k, v in (('alive:node', 1), ('alive:data', 1), ('nn:data', 1), ('sz:data', ZX(n, 32, 64))):
            st.stores[k] = st.stores[k].point((N,), v)
        for k in ('nn:watch', 'nn:rc'):
            st.stores[k] = st.stores[k].point((N,), 0)
        st.stores['byte:data'] = st.stores['byte:data'].layer(lambda k, o: Eq(k, N, 32), lambda k, o: 0)
        st.ghost['N'] = Add(N, 1, 32)
        ex.wr(st, ms.sim, ms.lay.s['pTailRegion'][0], 8, Ptr(ms.node, 0, N))
        st.term('node', N)
        return outs + [(st, None)]
    return h


def flash_image():
    P = ('C09', 'C13', 'C03', 'C23', 'C02')
    m = M('CreateRegionsFromFlashImage', P)
    ms, ex, r, st = m.ms, m.ex, m.r, m.st0
    L = ms.lay.c
    n = z3.BitVec('size', 32)
    img, f = image(m, st, n)
    what = 'CreateRegionsFromFlashImage'
    N0 = ms.N0
    st.assume(ULE(n, 1 << 31, 32))
    # the regions that exist lie outside the flash image
    F0 = L['FLASH']

    def apart(t):
        g = ZX(ms.u['baseAddress'](bv(t, 32)), 32, 64)
        h = Add(g, ZX(ms.u['size'](bv(t, 32)), 32, 64), 64)
        return Implies(ULT(t, N0, 32), Or(ULE(h, F0, 64), ULE(Add(F0, ZX(n, 32, 64), 64), g, 64)))
    st.facts.append(Fact('node', apart))
    st.assume(ULT(N0, LIMIT, 32))
    ex.contracts['MemorySim_CreateRegion'] = create_region_contract(m)
    ex.summarizers = [load_summary(m, img, f, st, N0, bv(0, 64))]
    base0 = st.stores['byte:data'].layer(lambda k, o: Eq(k, N0, 32), lambda k, o: 0)
    stz = State()
    stz.stores = {'byte:data': base0}
    ex.summarizers = [load_summary(m, img, f, stz, N0, 0)]
    m.st0 = st
    sp = concat_bytes([f.read(i) for i in range(4)])
    base = sp & L['RAM_MASK'] if not isinstance(sp, int) else sp
    kinds = {}
    for s in r.call(st, 'MemorySim_CreateRegionsFromFlashImage', [m.p, Ptr(img, 0), n]):
        outcome(m, s, kinds)
        m.chk(s, chain_ok(r, s), what + ': handler chain', ('C13',))
        k, j = fresh(32, 'any'), fresh(64, 'any')
        s.term('node', k)
        old = ULT(k, N0, 32)
        for g in RFLD:
            if g not in PTRS:
                m.chk(s, Implies(old, Eq(ms.i(s, g, k), ms.i(st, g, k), 32)), what + ': %s of the old regions unchanged' % g, ('C09', 'C13'))
        m.chk(s, Implies(old, And(Eq(s.stores['byte:data'].read(k, j), st.stores['byte:data'].read(k, j), 8), Eq(s.stores['rcv'].read(k, j), st.stores['rcv'].read(k, j), 32),
                                  *[Eq(s.stores['w.' + g].read(k, j), st.stores['w.' + g].read(k, j), 32) for g in WFLD])), what + ': contents of the old regions unchanged', ('C09', 'C13', 'C02'))
        m.chk(s, Implies(old, And(*[Eq(s.stores['alive:' + g].read(k), 1, 8) for g in ('node', 'data', 'watch', 'rc')])), what + ': the old regions stay allocated', ('C13', 'C09'))
        for g in PTRS - {'pNext'}:
            m.chk(s, Implies(old, And(*[Implies(c, Or(*[And(c0, ex.ptr_eq(s, v, v0)) for (c0, v0) in st.stores['n.' + g].alts(ex, s, k)])) for (c, v) in s.stores['n.' + g].alts(ex, s, k)])),
                  what + ': %s of the old regions unchanged' % g, ('C09', 'C13'))
        head, tail = ms.sget(s, 'pHeadRegion'), ms.sget(s, 'pTailRegion')
        nx = s.stores['n.pNext'].alts(ex, s, k)
        nd = lambda p, i: And(p.b is ms.node, p.off == 0, Eq(p.i, i, 32)) if isinstance(p.b, Fam) else False
        isnull = lambda p: And(p.b is NULLOBJ, p.off == 0) if not isinstance(p.b, Fam) else Not(p.b.nonnull(ex, s, p.i))
        m.chk(s, Implies(ULT(Add(k, 1, 32), N0, 32), And(*[Implies(c, nd(v, Add(k, 1, 32))) for (c, v) in nx])), what + ': the old regions stay in order', ('C09', 'C13'))
        if s.done[0] == 'throw':
            short = ULT(n, 4, 32)
            if s.ghost['oom']:
                m.chk(s, And(Not(short), thrown_is(m, s, 'outOfMemory')), what + ': out of memory', ('C09', 'C13'))
            else:
                m.chk(s, And(short, thrown_is(m, s, 'bufferOverrun')), what + ': images shorter than a word, and only they, are rejected', ('C09',))
            m.no_leak(s, what)
            # the list is the old one
            last = Eq(Add(k, 1, 32), N0, 32)
            grown = Eq(s.ghost['N'], N0, 32)
            if ex.valid(s, grown):
                m.frame(s, what + ' failing', (), ('C09', 'C13'))
            else:
                m.chk(s, Implies(And(old, last), And(*[Implies(c, And(v.b is NULLOBJ, v.off == 0)) for (c, v) in nx])), what + ': the list ends with the last old region', ('C09', 'C13'))
                e = Eq(N0, 0, 32)
                m.chk(s, And(Implies(e, isnull(head)), Implies(Not(e), nd(head, 0))), what + ': head after a failure', ('C09', 'C13'))
                m.chk(s, And(Implies(e, isnull(tail)), Implies(Not(e), nd(tail, Sub(N0, 1, 32)))), what + ': tail after a failure', ('C09', 'C13'))
                m.chk(s, And(Eq(s.stores['alive:node'].read(N0), 0, 8), Eq(s.stores['alive:data'].read(N0), 0, 8), Eq(s.ghost['N'], Add(N0, 1, 32), 32)), what + ': the new region is released', ('C13', 'C09'))
            continue
        m.chk(s, And(not s.ghost['oom'], ULE(4, n, 32)), what + ': completes only with a full image and memory', ('C09', 'C13'))
        N1 = Add(N0, 1, 32)
        m.chk(s, Eq(s.ghost['N'], Add(N0, 2, 32), 32), what + ': two regions are added', ('C09',))
        m.chk(s, And(nd(head, 0), nd(tail, N1)), what + ': head and tail', ('C09', 'C13'))
        m.chk(s, Implies(ULE(k, N0, 32), And(*[Implies(c, nd(v, Add(k, 1, 32))) for (c, v) in nx])), what + ': the new regions follow the old ones', ('C09', 'C13'))
        m.chk(s, And(Eq(ms.i(s, 'baseAddress', N0), F0, 32), Eq(ms.i(s, 'size', N0), n, 32), Not(Eq(ms.i(s, 'isReadOnly', N0), 0, 32)), Eq(ms.i(s, 'isAlias', N0), 0, 32)),
              what + ': the flash region', ('C09', 'C03'))
        m.chk(s, Implies(ULT(j, ZX(n, 32, 64), 64), Eq(s.stores['byte:data'].read(N0, j), f.read(j), 8)), what + ': flash bytes', ('C09', 'C02'))
        m.chk(s, And(Eq(ms.i(s, 'baseAddress', N1), base, 32), Eq(ms.i(s, 'size', N1), Sub(sp, base, 32), 32), Eq(ms.i(s, 'isReadOnly', N1), 0, 32), Eq(ms.i(s, 'isAlias', N1), 0, 32)),
              what + ': the RAM region ends at the initial stack pointer', ('C09',))
        m.chk(s, Eq(s.stores['byte:data'].read(N1, j), 0, 8), what + ': RAM is zero', ('C09', 'C02'))
        no = newobjs(m, s)
        alts = [(c, v) for (c, v) in s.stores['n.pReadCounts'].alts(ex, s, N0) if ex.feasible(s, c)]
        ok = len(alts) == 1 and len(no) == 1 and isobj(alts[0][1], no[0])
        m.chk(s, ok, what + ': the flash region has its counters', ('C23', 'C09', 'C13'))
        if ok:
            zeroed(m, s, no[0], Mul(ZX(S(z3.LShR(n, 1)), 32, 64), 4, 64), what + ': one zero counter per half-word', ('C23', 'C09'))
        fl = ms.sget(s, 'watchpointEncountered')
        m.chk(s, Eq(fl, ms.flag0, 32), what + ': no watchpoint is reported', ('C09', 'C06'))
    r.cover(kinds.get('ret', []), what + ' completes')
    r.cover(kinds.get('throw', []), what + ' fails', lambda s: Eq(s.ghost['N'], N0, 32))
    r.cover(kinds.get('throw', []), what + ' fails late', lambda s: Not(Eq(s.ghost['N'], N0, 32)))


UNITS = [('%s%d' % (d, w), ACC, access('%s%d' % (d, w), w, d)) for d in ('read', 'write') for w in (32, 16, 8)]
UNITS += [('map_write', ACC, mapping(True)), ('map_read', ACC, mapping(False)),
          ('CreateRegion', ('C02', 'C01', 'C04', 'C07', 'C09', 'C13'), create_region),
          ('CreateAlias', ('C04', 'C07', 'C13', 'C01', 'C03'), create_alias),
          ('MakeRegionReadOnly', ('C03', 'C23', 'C13', 'C07', 'C04', 'C01'), make_read_only),
          ('WasWatchpointEncountered', ('C06',), was_encountered), ('GetFlashReadCount', ('C23', 'C13', 'C04'), read_count)]
UNITS += [('%s%s' % ('set' if st else 'clear', k), ('C05', 'C13', 'C04'), points(k, st)) for st in (True, False) for k in 'bw']
UNITS += [('Init', ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C13', 'C23'), init_empty),
          ('Uninit', ('C13',), uninit(False)), ('UninitXml', ('C13',), uninit(True)),
          ('Load', ('C09', 'C02', 'C23', 'C06', 'C13'), load_image(False)), ('LoadAny', ('C09', 'C13', 'C23', 'C06'), load_image(True)),
          ('FlashImage', ('C09', 'C13', 'C03', 'C23', 'C02'), flash_image)]
ASSUMPTIONS = [
    'fewer than 2^30 regions, points per region and unqueried watchpoint hits; region sizes and addresses are arbitrary 32-bit values',
    'watchpoint types are those of the enumeration (read, write, both)',
]
