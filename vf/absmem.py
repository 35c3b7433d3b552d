"""The simulated memory as its clients (the loaders, the command line) see it: an append-only list of regions.

Region k < N has a base, a size, a read-only flag, an alias flag and bytes; all are functional stores, so clients may work on
them in loops.  The operations are the contracts proved for MemorySim.c in vf/specs/memsim.py, specialised to what loaders
do: they act on the region that was appended last.  Anything else (an operation on an older region, or outside of every region)
is given the weakest contract: bytes become arbitrary and it may fail.  Regions are assumed not to overlap (scope of the
loader properties); an operation inside the last region therefore reaches exactly that region."""
import z3
from .core import *
from .smt import *

LIMIT = 1 << 28


class AbsMem:
    def __init__(self, r, st, lay=None, empty=False):
        self.r = r
        ex = self.ex = r.ex
        self.obj = Obj('memory', 'ext', 8)
        self.vt = Obj('memoryVTable', 'ext', 48)
        names = ['read32', 'read16', 'read8', 'write32', 'write16', 'write8']
        st.mem[self.vt] = Content({8 * i: (8, ex.func_ptr('spec_' + n)) for i, n in enumerate(names)}, None)
        st.mem[self.obj] = Content({0: (8, Ptr(self.vt, 0))}, None)
        self.p = Ptr(self.obj, 0)
        self.N0 = 0 if empty else z3.BitVec('regions0', 32)
        if not empty:
            st.assume(ULT(self.N0, LIMIT, 32))
        st.ghost['m.N'] = self.N0
        st.ghost['m.fail'] = False          # some memory operation failed
        for f in ('base', 'size', 'ro', 'alias', 'redirect'):
            st.stores['m.' + f] = uf_store('m_' + f, 32, 32)
        st.stores['m.byte'] = uf_store('m_byte', 8, 32, 64)
        self.st0 = st
        c = ex.contracts
        c['MemorySim_CreateRegion'] = self.create
        c['MemorySim_LoadFromFlashImage'] = self.load
        c['MemorySim_MakeRegionReadOnly'] = self.readonly
        c['spec_write8'] = self.write(1)
        c['spec_write16'] = self.write(2)
        c['spec_write32'] = self.write(4)
        c['spec_read8'] = self.readv(8)
        c['spec_read16'] = self.readv(16)
        c['spec_read32'] = self.readv(32)

    def mine(self, ex, st, p):
        if not (isinstance(p, Ptr) and p.b is self.obj and p.off == 0):
            ex.oblige(st, False, 'the operation goes to the given memory')

    def get(self, st, f, k):
        return st.stores['m.' + f].read(k)

    def fail(self, ex, st, code=None):
        s2 = st.copy()
        s2.ghost['m.fail'] = True
        if code is None:
            code = fresh(32, 'code')
            s2.assume(code > 0)
        return ex.throw(s2, code)

    def append(self, ex, st, b, n, ro=0, alias=0, redirect=0):
        N = st.ghost['m.N']
        ex.oblige(st, ULT(N, LIMIT * 4, 32), 'fewer than 2^30 regions')
        for f, v in (('base', b), ('size', n), ('ro', ro), ('alias', alias), ('redirect', redirect)):
            st.stores['m.' + f] = st.stores['m.' + f].point((N,), v)
        st.stores['m.byte'] = st.stores['m.byte'].layer(lambda k, o: Eq(k, N, 32), lambda k, o: 0)
        st.ghost['m.N'] = Add(N, 1, 32)
        st.term('node', N)

    def create(self, ex, st, a, ins):
        p, b, n = a
        self.mine(ex, st, p)
        out = [self.fail(ex, st, self.r.oomcode)]
        self.append(ex, st, b, n)
        return out + [(st, None)]

    def last(self, ex, st, a, n):
        """is [a, a+n) inside the last region on every path?  -> (True/False, index, offset)"""
        N = st.ghost['m.N']
        k = Sub(N, 1, 32)
        b = ZX(self.get(st, 'base', k), 32, 64)
        s = ZX(self.get(st, 'size', k), 32, 64)
        a64 = ZX(a, 32, 64)
        n64 = n if isinstance(n, int) else ZX(n, 32, 64)
        c = And(Not(Eq(N, 0, 32)), ULE(b, a64, 64), ULE(Add(a64, n64, 64), Add(b, s, 64), 64), ULE(Add(a64, n64, 64), 1 << 32, 64))
        return c, k, Sub(a64, b, 64)

    def fork(self, ex, st, c):
        """(state where c holds or None, state where it does not or None)"""
        d = ex.decide(st, c)
        if d is True:
            return st, None
        if d is False:
            return None, st
        s2 = st.copy()
        s2.assume(Not(d))
        st.assume(d)
        return st, s2

    def havoc(self, ex, st, *fs):
        for f in fs:
            o = st.stores['m.' + f]
            st.stores['m.' + f] = uf_store(fresh_name('any_' + f), o.w, *o.ks)

    def load(self, ex, st, a, ins):
        p, b, img, n = a
        self.mine(ex, st, p)
        ex.access_range(st, img, ZX(n, 32, 64), 'load')
        c, k, off = self.last(ex, st, b, n)
        s, t = self.fork(ex, st, c)
        out = []
        if s is not None:
            rd = ex.byte_reader(s, img)
            n64 = ZX(n, 32, 64)
            s.stores['m.byte'] = s.stores['m.byte'].layer(lambda i, o: And(Eq(i, k, 32), ULT(Sub(o, off, 64), n64, 64)), lambda i, o: rd(Sub(o, off, 64)))
            out.append((s, None))
        if t is not None:
            self.havoc(ex, t, 'byte')
            out.append(self.fail(ex, t))
            out.append((t, None))
        return out

    def readonly(self, ex, st, a, ins):
        p, b = a
        self.mine(ex, st, p)
        c, k, off = self.last(ex, st, b, 1)
        s, t = self.fork(ex, st, c)
        out = []
        if s is not None:
            out.append(self.fail(ex, s, self.r.oomcode))
            s.stores['m.ro'] = s.stores['m.ro'].point((k,), 1)
            out.append((s, None))
        if t is not None:
            self.havoc(ex, t, 'ro')
            out.append(self.fail(ex, t))
            out.append((t, None))
        return out

    def write(self, n):
        def h(ex, st, a, ins):
            p, b, v = a
            self.mine(ex, st, p)
            c, k, off = self.last(ex, st, b, n)
            s, t = self.fork(ex, st, And(c, Eq(self.get(st, 'ro', k), 0, 32), Eq(self.get(st, 'alias', k), 0, 32)))
            out = []
            if s is not None:
                s.stores['m.byte'] = s.stores['m.byte'].layer(lambda i, o: And(Eq(i, k, 32), ULT(Sub(o, off, 64), n, 64)), lambda i, o: ex.pick(v, n, Sub(o, off, 64)))
                out.append((s, None))
            if t is not None:
                self.havoc(ex, t, 'byte')
                out.append(self.fail(ex, t))
                out.append((t, None))
            return out
        return h

    def readv(self, w):
        def h(ex, st, a, ins):
            p, b = a
            self.mine(ex, st, p)
            return [self.fail(ex, st), (st, fresh(w, 'read'))]
        return h
