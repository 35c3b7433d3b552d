"""Reusable symbolic object families."""
import z3
from .core import *
from .smt import *


class StrFam(Fam):
    """read-only NUL terminated strings str(i): length len(i) < limit, bytes ch(i, k), no NUL below the length"""
    tag = 'str'

    def __init__(self, name, limit=1 << 31):
        super().__init__(name)
        self.len = z3.Function('len_' + name, z3.BitVecSort(32), z3.BitVecSort(64))
        self.ch = z3.Function('ch_' + name, z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))
        self.limit = limit

    def facts(self, st):
        st.facts.append(Fact('strlen', lambda t: z3.And(z3.ULT(self.len(bv(t, 32)), self.limit), self.ch(bv(t, 32), self.len(bv(t, 32))) == 0)))
        st.facts.append(Fact('strpos', lambda t: Implies(ULT(t[1], self.len(bv(t[0], 32)), 64), Not(Eq(self.ch(bv(t[0], 32), bv(t[1], 64)), 0, 8)))))

    def touch(self, st, i, o=None):
        st.term('strlen', i)

    def length(self, st, i):
        self.touch(st, i)
        return self.len(bv(i, 32))

    def byte(self, st, i, o):
        """byte o of string i (o int or BV64)"""
        self.touch(st, i)
        st.term2('strpos', (i, o))
        return self.ch(bv(i, 32), bv(o, 64))

    def size(self, ex, st, i):
        return Add(self.length(st, i), 1, 64)

    def load(self, ex, st, p, n, isptr):
        if isptr or n != 1:
            raise Unsupported('wide access to a string')
        return [(True, self.byte(st, p.i, off64(p.off)))]

    def byte_reader(self, ex, st, p):
        base = off64(p.off)
        return lambda k: self.ch(bv(p.i, 32), bv(Add(base, k, 64), 64))

    def store(self, ex, st, p, n, v):
        ex.oblige(st, False, 'no store to a caller string')


class ArrFam(Fam):
    """read-only array of `count` pointers into a string family (index 0 only)"""
    tag = 'arr'

    def __init__(self, name, strs, count):
        super().__init__(name)
        self.strs = strs
        self.count = count        # BV32

    def size(self, ex, st, i):
        return Mul(ZX(self.count, 32, 64), 8, 64)

    def load(self, ex, st, p, n, isptr):
        if n != 8:
            raise Unsupported('partial access to a pointer array')
        r = div_exact(off64(p.off), 8)
        if (r is None or r[1] != 0) and ex.silent:
            return [(True, Ptr(self.strs, 0, fresh(32, 'element')))]      # exploration: any element
        if r is None or r[1] != 0:
            raise Unsupported('misaligned access to a pointer array')
        k = TR(r[0], 64, 32)
        return [(True, Ptr(self.strs, 0, k))]

    def store(self, ex, st, p, n, v):
        ex.oblige(st, False, 'no store to a caller array')


class HeapFam(Fam):
    """heap blocks blk(i) that may be absent (null): size term, liveness and bytes kept in the state's stores"""
    tag = 'blk'

    def __init__(self, name, size, nonnull=None):
        super().__init__(name)
        self.sz = size                        # fn(ex, st, i) -> int/BV64
        self.nn = nonnull or (lambda ex, st, i: True)

    def init(self, st):
        st.stores['alive:' + self.name] = const_store(1, 8, 'alive', (32,))
        st.stores['byte:' + self.name] = uf_store(fresh_name('byte_' + self.name), 8, 32, 64)

    def size(self, ex, st, i):
        return self.sz(ex, st, i)

    def nonnull(self, ex, st, i):
        return self.nn(ex, st, i)

    def alive(self, ex, st, i):
        return And(self.nonnull(ex, st, i), Eq(st.stores['alive:' + self.name].read(i), 1, 8))

    def free(self, ex, st, p):
        s = st.stores['alive:' + self.name]
        v = If(self.nonnull(ex, st, p.i), 0, s.read(p.i), 8)
        st.stores['alive:' + self.name] = s.point((p.i,), v)

    def load(self, ex, st, p, n, isptr):
        if isptr:
            raise Unsupported('pointer in a byte block')
        s = st.stores['byte:' + self.name]
        return [(True, concat_bytes([s.read(p.i, Add(off64(p.off), k, 64)) for k in range(n)]))]

    def store(self, ex, st, p, n, v):
        if isinstance(v, Ptr):
            v = ex.ptr2int(v)
        if isinstance(v, Poison):
            v = fresh(8 * n, 'poison')
        s = st.stores['byte:' + self.name]
        for k in range(n):
            s = s.point((p.i, Add(off64(p.off), k, 64)), byte_of(v, 8 * n, k))
        st.stores['byte:' + self.name] = s

    def byte_reader(self, ex, st, p):
        s = st.stores['byte:' + self.name]
        base = off64(p.off)
        return lambda k: s.read(p.i, Add(base, k, 64))

    def write_range(self, ex, st, p, n, src):
        o = off64(p.off)
        i0 = p.i

        def m(i, k):
            return And(Eq(i, i0, 32), ULE(o, k, 64), ULT(Sub(k, o, 64), n, 64))
        nm = 'byte:' + self.name
        st.stores[nm] = st.stores[nm].layer(m, lambda i, k: src(Sub(k, o, 64)))

    def fill_range(self, ex, st, p, n, byte):
        self.write_range(ex, st, p, n, lambda k: byte)
