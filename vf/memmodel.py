"""The simulated memory as indexed families: region records node(k), k < N, in creation order, each with its data, break/watch
point and read count blocks.  N and all contents are arbitrary subject to the representation invariant below (wf), which
every public operation is proved to preserve; so the proofs cover every history of operations."""
import z3
from .core import *
from .smt import *
from . import ir
from .fams import HeapFam

RFLD = ['pNext', 'pRedirect', 'pData', 'pWatchpoints', 'pReadCounts', 'baseAddress', 'redirectAddress', 'size', 'watchpointCount',
        'watchpointAlloc', 'readCounts', 'isReadOnly', 'isAlias']
SFLD = ['pVTable', 'pHeadRegion', 'pTailRegion', 'pMemoryMapXML', 'watchpointEncountered']
WFLD = ['type', 'startAddress', 'endAddress']
CONST = ['busError', 'outOfMemory', 'hardwareBreakpoint', 'bufferOverrun', 'BP', 'READ', 'WRITE', 'FLASH', 'RAM_MASK']
PTRS = {'pNext', 'pRedirect', 'pData', 'pWatchpoints', 'pReadCounts'}
NOIDX = 0xffffffff
LIMIT = 1 << 30


class Layout:
    def __init__(self, mod):
        def vals(n):
            g = mod.globals[n]
            return [v[1] for (t, v) in g['init'][1]]
        a = [mask(x, 64) for x in vals('vf_region')]
        self.rsize = a[0]
        self.r = {f: (a[1 + 2 * i], a[2 + 2 * i]) for i, f in enumerate(RFLD)}
        self.roff = {o: (f, n) for f, (o, n) in self.r.items()}
        a = [mask(x, 64) for x in vals('vf_sim')]
        self.ssize = a[0]
        self.s = {f: (a[1 + 2 * i], a[2 + 2 * i]) for i, f in enumerate(SFLD)}
        a = [mask(x, 64) for x in vals('vf_watch')]
        self.wsize = a[0]
        self.w = {f: (a[1 + 2 * i], a[2 + 2 * i]) for i, f in enumerate(WFLD)}
        self.c = dict(zip(CONST, [mask(x, 64) for x in vals('vf_const')]))


class NodeFam(Fam):
    tag = 'node'

    def __init__(self, ms):
        super().__init__('region')
        self.ms = ms

    def size(self, ex, st, i):
        return self.ms.lay.rsize

    def nonnull(self, ex, st, i):
        st.term('node', i)
        return ULT(i, st.ghost['N'], 32)

    def alive(self, ex, st, i):
        return And(self.nonnull(ex, st, i), Eq(st.stores['alive:node'].read(i), 1, 8))

    def fld(self, st, p, n):
        if not isinstance(p.off, int):
            raise Unsupported('region record accessed at a symbolic offset')
        f = self.ms.lay.roff.get(p.off)
        if f is None:
            # a member this model does not know: an arbitrary integer
            f = ('x%d' % p.off, n)
            if 'n.' + f[0] not in st.stores:
                raise Unsupported('unknown member of the region record')
        if f[1] != n:
            raise Unsupported('partial access to a region record')
        return f[0]

    def load(self, ex, st, p, n, isptr):
        f = self.fld(st, p, n)
        st.term('node', p.i)
        s = st.stores['n.' + f]
        if f in PTRS:
            alts = s.alts(ex, st, p.i)
            return [(c, v) for (c, v) in alts]
        return [(True, s.read(p.i))]

    def store(self, ex, st, p, n, v):
        f = self.fld(st, p, n)
        st.term('node', p.i)
        s = st.stores['n.' + f]
        if f in PTRS:
            if not isinstance(v, Ptr):
                raise Unsupported('integer stored to a pointer member')
            st.stores['n.' + f] = s.set(p.i, v)
            return
        if isinstance(v, Poison):
            v = fresh(8 * n, 'poison')
        st.stores['n.' + f] = s.point((p.i,), v)

    def free(self, ex, st, p):
        s = st.stores['alive:node']
        st.stores['alive:node'] = s.point((p.i,), 0)


class StrideFam(Fam):
    """blocks of elements: one 32-bit store per member, keyed by (block, element)"""

    def __init__(self, name, stride, flds):
        super().__init__(name)
        self.stride = stride
        self.fl = flds           # {offset: store name}

    def size(self, ex, st, i):
        return st.stores['sz:' + self.name].read(i)

    def nonnull(self, ex, st, i):
        return Eq(st.stores['nn:' + self.name].read(i), 1, 8)

    def alive(self, ex, st, i):
        return And(self.nonnull(ex, st, i), Eq(st.stores['alive:' + self.name].read(i), 1, 8))

    def free(self, ex, st, p):
        s = st.stores['alive:' + self.name]
        st.stores['alive:' + self.name] = s.point((p.i,), If(self.nonnull(ex, st, p.i), 0, s.read(p.i), 8))

    def pos(self, p, n):
        r = div_exact(off64(p.off), self.stride)
        if r is None or r[1] not in self.fl or n != 4:
            raise Unsupported('access to %s does not follow its elements' % self.name)
        return r

    def load(self, ex, st, p, n, isptr):
        idx, f = self.pos(p, n)
        st.term('idx', idx)
        st.term2('elem:' + self.name, (p.i, idx))
        return [(True, st.stores[self.fl[f]].read(p.i, idx))]

    def store(self, ex, st, p, n, v):
        idx, f = self.pos(p, n)
        st.term('idx', idx)
        st.term2('elem:' + self.name, (p.i, idx))
        nm = self.fl[f]
        if isinstance(v, Poison):
            v = fresh(32, 'poison')
        st.stores[nm] = st.stores[nm].point((p.i, idx), v)

    def fields(self, ex, st, i):
        out = {}
        for f, nm in self.fl.items():
            s = st.stores[nm]
            out[f] = Store((lambda s: lambda j: s.read(i, j))(s), 32, nm)
        return out

    def set_fields(self, ex, st, i, new):
        for f, nm in self.fl.items():
            x = new[f]
            st.stores[nm] = st.stores[nm].layer(lambda k, j: Eq(k, i, 32), (lambda x: lambda k, j: x.read(j))(x))

    def realloc(self, ex, st, p, n):
        """the block grows (or is new when there was none); its elements are kept"""
        ex.oblige(st, Eq(off64(p.off), 0, 64), 'realloc of the start of a block')
        ex.oblige(st, Or(Not(self.nonnull(ex, st, p.i)), self.alive(ex, st, p.i)), 'realloc of a live block')
        q = ex.malloc(st, n, self.name)
        if q.b.stride != self.stride:
            if isinstance(n, int) and n % self.stride == 0:
                q.b.stride = self.stride
            else:
                raise Unsupported('realloc changes the element layout of ' + self.name)
        flds = self.fields(ex, st, p.i)
        # beyond the old size the contents are arbitrary
        old = self.size(ex, st, p.i)
        nn = self.nonnull(ex, st, p.i)
        new = {}
        for f, s in flds.items():
            u = uf_store(fresh_name('uninit_%s' % self.name), 32, 64)
            new[f] = Store((lambda s, u: lambda j: If(And(nn, ULT(Mul(j, self.stride, 64), old, 64)), s.read(j), u.read(j), 32))(s, u), 32)
        st.mem[q.b] = Content({}, None, new)
        self.free(ex, st, p)
        return [(st, q)]


class ByteFam(HeapFam):
    tag = 'blk'

    def __init__(self, name):
        super().__init__(name, lambda ex, st, i: st.stores['sz:' + name].read(i), lambda ex, st, i: Eq(st.stores['nn:' + name].read(i), 1, 8))


def F(name, *ks):
    return z3.Function(name, *[z3.BitVecSort(k) for k in ks])


class Mem:
    """model of MemorySim's state inside an engine run"""

    def __init__(self, r, st, lay, count_flag=True):
        self.r = r
        self.ex = r.ex
        self.lay = lay
        ex = r.ex
        self.node = NodeFam(self)
        self.data = ByteFam('data')
        self.watch = StrideFam('watch', lay.wsize, {o: 'w.' + f for f, (o, n) in lay.w.items()})
        self.rc = StrideFam('rc', 4, {0: 'rcv'})
        N = z3.BitVec('N', 32)
        self.N0 = N
        st.ghost['N'] = N
        st.assume(ULT(N, LIMIT, 32))
        # integers of the records
        self.u = {}
        for f in RFLD:
            if f in PTRS:
                continue
            if lay.r[f][1] != 4:
                raise Unsupported('width of ' + f)
            self.u[f] = F('r_' + f, 32, 32)
            st.stores['n.' + f] = Store((lambda u: lambda k: u(bv(k, 32)))(self.u[f]), 32, f, (), (32,))
        # members unknown to this model
        known = set()
        for f, (o, n) in lay.r.items():
            known |= set(range(o, o + n))
        o = 0
        while o < lay.rsize:
            if o not in known:
                st.stores['n.x%d' % o] = uf_store('r_x%d' % o, 32, 32)
                o += 4
            else:
                o += 1
        self.redir = F('r_redirect', 32, 32)
        self.dsz = F('alias_block', 32, 64)
        self.dnn = F('alias_block_present', 32, 8)
        self.bytes0 = F('mem', 32, 64, 8)
        self.rc0 = F('count', 32, 64, 32)
        self.w0 = {f: F('wp_' + f, 32, 64, 32) for f in WFLD}
        u = self.u
        al = lambda k: Not(Eq(u['isAlias'](bv(k, 32)), 0, 32))
        ro = lambda k: Not(Eq(u['isReadOnly'](bv(k, 32)), 0, 32))
        self.al0, self.ro0 = al, ro
        sz = lambda k: ZX(u['size'](bv(k, 32)), 32, 64)
        one = lambda fam: (lambda ex, st, k: [(True, Ptr(fam, 0, k))])
        st.stores['n.pNext'] = PStore(lambda ex, st, k: [(True, Ptr(self.node, 0, Add(k, 1, 32)))], 'pNext')
        st.stores['n.pRedirect'] = PStore(lambda ex, st, k: [(True, Ptr(self.node, 0, If(al(k), self.redir(bv(k, 32)), NOIDX, 32)))], 'pRedirect')
        st.stores['n.pData'] = PStore(one(self.data), 'pData')
        st.stores['n.pWatchpoints'] = PStore(one(self.watch), 'pWatchpoints')
        st.stores['n.pReadCounts'] = PStore(one(self.rc), 'pReadCounts')
        for n in ('node', 'data', 'watch', 'rc'):
            st.stores['alive:' + n] = const_store(1, 8, 'alive', (32,))
        st.stores['byte:data'] = Store(lambda k, o: self.bytes0(bv(k, 32), bv(o, 64)), 8, 'mem', (), (32, 64))
        st.stores['rcv'] = Store(lambda k, o: self.rc0(bv(k, 32), bv(o, 64)), 32, 'rcv', (), (32, 64))
        for f in WFLD:
            st.stores['w.' + f] = Store((lambda w: lambda k, o: w(bv(k, 32), bv(o, 64)))(self.w0[f]), 32, f, (), (32, 64))

        def S1(fn, w):
            return Store(fn, w, '', (), (32,))
        st.stores['sz:data'] = S1(lambda k: If(al(k), self.dsz(bv(k, 32)), sz(k), 64), 64)
        st.stores['nn:data'] = S1(lambda k: If(al(k), self.dnn(bv(k, 32)), 1, 8), 8)
        st.stores['sz:watch'] = S1(lambda k: Mul(ZX(u['watchpointAlloc'](bv(k, 32)), 32, 64), lay.wsize, 64), 64)
        st.stores['nn:watch'] = S1(lambda k: If(Eq(u['watchpointAlloc'](bv(k, 32)), 0, 32), 0, 1, 8), 8)
        st.stores['sz:rc'] = S1(lambda k: Mul(S(z3.LShR(sz(k), 1)), 4, 64), 64)
        st.stores['nn:rc'] = S1(lambda k: If(And(ro(k), Not(al(k))), 1, 0, 8), 8)
        st.facts.append(Fact('node', lambda k: Implies(ULT(k, N, 32), self.wf(k)), 'wf'))
        st.facts.append(Fact('elem:watch', lambda e: Implies(And(ULT(e[0], N, 32), ULT(e[1], ZX(u['watchpointCount'](bv(e[0], 32)), 32, 64), 64)),
                                                             self.wfw(e[0], e[1])), 'wfw'))
        st.facts.append(Fact('wpair', self.wpair, 'sorted'))
        # the object itself
        self.sim = r.g('g_object') if any('g_object' in m.globals for m in r.mods.values()) else None
        self.xml = Obj('xmlBuffer', 'heap', z3.BitVec('xmlSize', 64))
        self.flag0 = z3.BitVec('flag0', 32)

    # ---- invariant
    def wf(self, k):
        k = bv(k, 32)
        u = self.u
        t = self.redir(k)
        off = ZX(Sub(u['redirectAddress'](k), u['baseAddress'](t), 32), 32, 64)
        al = And(ULT(t, k, 32), Not(self.al0(t)),
                 ULE(Add(off, ZX(u['size'](k), 32, 64), 64), ZX(u['size'](t), 32, 64), 64), self.wf0(t))
        return And(self.wf0(k), Implies(self.al0(k), al))

    def wf0(self, k):
        u = self.u
        return And(ULE(u['watchpointCount'](k), u['watchpointAlloc'](k), 32), ULT(u['watchpointAlloc'](k), LIMIT, 32),
                   Implies(self.ro0(k), Eq(u['readCounts'](k), S(z3.LShR(u['size'](k), 1)), 32)),
                   ULE(self.dnn(k), 1, 8))

    def wfw(self, k, j):
        k, j = bv(k, 32), bv(j, 64)
        t = self.w0['type'](k, j)
        return Or(*[Eq(t, x, 32) for x in (1, 2, 3, self.lay.c['BP'])])

    def wpair(self, p):
        """two elements of the same array: sorted by start address, pairwise different"""
        k, i, j = p
        k, i, j = bv(k, 32), bv(i, 64), bv(j, 64)
        c = ZX(self.u['watchpointCount'](k), 32, 64)
        w = self.w0
        lt = And(ULT(i, j, 64), ULT(j, c, 64))
        gt = And(ULT(j, i, 64), ULT(i, c, 64))
        same = And(*[Eq(w[f](k, i), w[f](k, j), 32) for f in WFLD])
        return Implies(ULT(k, self.N0, 32), And(
            Implies(lt, And(ULE(w['startAddress'](k, i), w['startAddress'](k, j), 32), Not(same))),
            Implies(gt, And(ULE(w['startAddress'](k, j), w['startAddress'](k, i), 32), Not(same)))))

    # ---- set up g_object
    def install(self, st, vt=None):
        r, L = self.r, self.lay
        o = self.sim
        N = st.ghost['N']
        cells = {}
        cells[L.s['pVTable'][0]] = (8, vt if vt is not None else Ptr(Obj('vt', 'ext', 48), 0))
        cells[L.s['pHeadRegion'][0]] = (8, Ptr(self.node, 0, 0))
        cells[L.s['pTailRegion'][0]] = (8, Ptr(self.node, 0, Sub(N, 1, 32)))
        cells[L.s['pMemoryMapXML'][0]] = (8, NULL)
        cells[L.s['watchpointEncountered'][0]] = (4, self.flag0)
        st.mem[o] = Content(cells, uf_store('sim_rest', 8, 64))
        st.term('node', Sub(N, 1, 32))
        self.p = Ptr(o, 0)
        return st

    # ---- reading the state
    def i(self, s, f, k):
        return s.stores['n.' + f].read(k)

    def ptr(self, s, f, k):
        alts = s.stores['n.' + f].alts(self.ex, s, k)
        return alts

    def sget(self, s, f, isptr=None):
        off, n = self.lay.s[f]
        return self.ex.rd(s, self.sim, self.ex.content(s, self.sim), off, n, f != 'watchpointEncountered')

    def contains(self, s, k, a, n):
        """region k contains [a, a+n)"""
        b = self.i(s, 'baseAddress', k)
        e = Add(ZX(b, 32, 64), ZX(self.i(s, 'size', k), 32, 64), 64)
        return And(ULE(b, a, 32), ULE(Add(ZX(a, 32, 64), ZX(n, 32, 64), 64), e, 64))

    def first(self, s, a, n, tag='m'):
        """skolem: the first region that contains [a, a+n) (NOIDX when there is none); always exists"""
        m = fresh(32, tag)
        N = s.ghost['N']
        s.term('node', m)
        found = S(z3.Not(m == NOIDX))
        s.assume(Implies(found, And(ULT(m, N, 32), self.contains(s, m, a, n))))
        s0 = s.copy()
        s.facts.append(Fact('node', lambda t: Implies(And(ULT(t, N, 32), ULT(t, m, 32)), Not(self.contains(s0, t, a, n))), 'first'))
        return m, found

    def target(self, m):
        """(region whose data serves region m, for regions of the initial state)"""
        return If(self.al0(m), self.redir(bv(m, 32)), m, 32)

    def toff(self, m, a):
        """address translated into the target, and offset there"""
        u = self.u
        m = bv(m, 32)
        t = self.target(m)
        ta = If(self.al0(m), Add(Sub(a, u['baseAddress'](m), 32), u['redirectAddress'](m), 32), a, 32)
        return ta, ZX(Sub(ta, u['baseAddress'](t), 32), 32, 64)
