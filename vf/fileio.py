"""Files as the code sees them: contracts of fopen, fclose, fread, fgets, fseek, ftell for one regular file.

The file is an arbitrary sequence of bytes of arbitrary length up to 2^31 that does not change while it is read; fread returns
as many of the requested bytes as are left."""
import z3
from .core import *
from .smt import *


class Stream:
    """a byte sequence with a read position (ghost `gh`, 64 bits)"""
    def __init__(self, ex, st, name, sb, sl, gh):
        self.ex, self.sb, self.sl, self.gh = ex, sb, sl, gh
        st.ghost[gh] = bv(0, 64)
        ex.ghostw[gh] = 64

    def read(self, ex, st, buf, n):
        """-> [(state, number of bytes read)]"""
        pos = st.ghost[self.gh]
        sb = self.sb
        left = Sub(self.sl, pos, 64)
        out = []
        full = ULE(n, left, 64)
        d = ex.decide(st, full)
        if d is not True:
            s = st.copy() if d is not False else st
            if d is not False:
                s.assume(Not(d))
            junk = uf_store(fresh_name('unread'), 8, 64)
            ex.write_range(s, buf, n, lambda i: If(ULT(i, left, 64), sb(Add(pos, i, 64)), junk.read(i), 8), 'store')
            s.ghost[self.gh] = self.sl
            out.append((s, left))
        if d is not False:
            if d is not True:
                st.assume(d)
            ex.write_range(st, buf, n, lambda i: sb(Add(pos, i, 64)), 'store')
            s = st
            s.ghost[self.gh] = Add(pos, n, 64)
            out.append((s, n))
        return out


class File:
    def __init__(self, r, st, name='file'):
        ex = self.ex = r.ex
        self.r = r
        self.obj = Obj(name, 'ext', 8)
        self.p = Ptr(self.obj, 0)
        st.mem[self.obj] = Content({}, uf_store(name + '_opaque', 8, 64))
        self.len = z3.BitVec(name + 'Length', 64)
        st.assume(ULE(self.len, 1 << 31, 64))
        self.f = z3.Function(name + 'Byte', z3.BitVecSort(64), z3.BitVecSort(8))
        self.byte = lambda i: self.f(bv(i, 64))
        self.s = Stream(ex, st, name, self.byte, self.len, 'f.pos')
        st.ghost['f.open'] = 0
        st.ghost['f.fail'] = ()           # which operations failed
        for n in ('fopen', 'fclose', 'fread', 'fseek', 'ftell', 'fgets'):
            ex.libc[n] = getattr(self, n, None) or self.unsup(n)
            try:
                r.gset(st, 'hook_' + n, ex.func_ptr(n), 8)
            except Unsupported:
                pass

    def unsup(self, n):
        def h(ex, st, a, ins):
            raise Unsupported(n)
        return h

    def mine(self, ex, st, p):
        if not (isinstance(p, Ptr) and p.b is self.obj and p.off == 0):
            ex.oblige(st, False, 'the stream is the open file')
        ex.oblige(st, st.ghost['f.open'] == 1, 'the file is open')

    def failing(self, st, what):
        s2 = st.copy()
        s2.ghost['f.fail'] = s2.ghost['f.fail'] + (what,)
        return s2

    def fopen(self, ex, st, a, ins):
        ex.oblige(st, st.ghost['f.open'] == 0, 'the file is opened once')
        s2 = self.failing(st, 'open')
        st.ghost['f.open'] = 1
        st.ghost['f.pos'] = bv(0, 64)
        return [(s2, NULL), (st, self.p)]

    def fclose(self, ex, st, a, ins):
        self.mine(ex, st, a[0])
        st.ghost['f.open'] = 2
        return [(st, 0)]

    def fread(self, ex, st, a, ins):
        buf, sz, n, f = a
        self.mine(ex, st, f)
        if not (isinstance(sz, int) and sz == 1):
            raise Unsupported('fread with items of several bytes')
        return self.s.read(ex, st, buf, n)

    def fseek(self, ex, st, a, ins):
        self.mine(ex, st, a[0])
        s2 = self.failing(st, 'seek')
        if not isinstance(a[2], int) or not isinstance(a[1], int):
            raise Unsupported('fseek with unknown arguments')
        off = sx(a[1], 64)
        st.ghost['f.pos'] = {0: bv(off, 64), 1: Add(st.ghost['f.pos'], off, 64), 2: Add(self.len, off, 64)}[a[2]]
        return [(s2, mask(-1, 32)), (st, 0)]

    def ftell(self, ex, st, a, ins):
        self.mine(ex, st, a[0])
        s2 = self.failing(st, 'tell')
        return [(s2, mask(-1, 64)), (st, st.ghost['f.pos'])]

    def closed(self, s):
        return s.ghost['f.open'] != 1
